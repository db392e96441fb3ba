package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one analysis from an API entry.
type Run struct {
	p   *Program
	e   *Engine
	st  *State
	lha *V
	rep *Report
}

var rootInstr ssa.Instruction

// NewRun initialises package state; stale globals hold anything an earlier
// operation may have left, unless fresh.
func NewRun(p *Program, cfg *Config, fresh bool) *Run {
	e := NewEngine(p, cfg)
	r := &Run{p: p, e: e}
	save := *cfg
	*cfg = Config{MaxPart: save.MaxPart, Budget: save.Budget, FlagVal: save.FlagVal, Unroll: func(*ssa.Function) int { return 300 }}
	e.initing = true
	st := &State{ts: map[string]string{}}
	pk := []*ssa.Package{p.lib}
	if p.main != nil {
		pk = append(pk, p.main)
	}
	for _, k := range pk {
		if f := k.Func("init"); f != nil {
			outs := e.callFn(nil, nil, f, nil, nil, st)
			if len(outs) > 0 {
				st = outs[0].st
			}
		}
	}
	e.initing = false
	*cfg = save
	st = st.clone()
	for _, k := range pk {
		var ns []string
		for n := range k.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			g, ok := k.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			o := e.globalObj(g)
			if p.stored[g] && !fresh {
				o.lazy = true
				o.lab = cfg.StaleLab
				e.setOM(st, o.id, nil)
			} else {
				o.lazy = false
			}
		}
	}
	e.lazyCache = map[lazyKey]*V{}
	r.st = st
	return r
}

func (r *Run) fn(name string) *ssa.Function {
	if f := r.p.lib.Func(name); f != nil {
		return f
	}
	for _, tn := range []string{"Lha", "LzHeader"} {
		if f := r.method(tn, name); f != nil {
			return f
		}
	}
	return nil
}
func (r *Run) method(typ, name string) *ssa.Function {
	t := r.p.lib.Type(typ)
	if t == nil {
		return nil
	}
	sel := r.p.prog.MethodSets.MethodSet(types.NewPointer(t.Type())).Lookup(r.p.lib.Pkg, name)
	if sel == nil {
		return nil
	}
	return r.p.prog.MethodValue(sel)
}

func structField(t types.Type, name string) (int, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	return -1, nil
}

// fieldOf reads a named field of the struct a pointer refers to
func (e *Engine) fieldOf(p *Program, st *State, ptr *V, typ, name string) *V {
	t := p.lib.Type(typ)
	if t == nil {
		return nil
	}
	i, ft := structField(t.Type(), name)
	if i < 0 {
		return nil
	}
	return e.load(st, e.fieldAddr(ptr, i), ft)
}
func (e *Engine) setField(p *Program, st *State, ptr *V, typ, name string, v *V) bool {
	t := p.lib.Type(typ)
	if t == nil {
		return false
	}
	i, ft := structField(t.Type(), name)
	if i < 0 {
		return false
	}
	e.store(st, e.fieldAddr(ptr, i), ft, v)
	return true
}

// NewLha makes a handle through the public constructor.
func (r *Run) newLha() bool {
	f := r.fn("NewLha")
	if f == nil {
		return false
	}
	n := vSymStr("archive", 0, 0)
	n.id = "archive"
	outs := r.e.callFn(nil, nil, f, []*V{n}, nil, r.st)
	if len(outs) != 1 {
		return false
	}
	r.st = outs[0].st.clone()
	r.lha = outs[0].res[0]
	// the handle outlives every call
	for _, a := range r.lha.tg {
		r.e.objs[a.o].dyn = false
		r.e.objs[a.o].key = "lha"
	}
	return true
}

func (r *Run) global(name string) *ssa.Global {
	g, _ := r.p.lib.Members[name].(*ssa.Global)
	return g
}
func (r *Run) setGlobal(name string, v *V) bool {
	g := r.global(name)
	if g == nil {
		return false
	}
	o := r.e.globalObj(g)
	r.e.store(r.st, vPtr(Addr{o.id, 0}), g.Type().(*types.Pointer).Elem(), v)
	return true
}
func (r *Run) getGlobal(st *State, name string) *V {
	g := r.global(name)
	if g == nil {
		return nil
	}
	o := r.e.globalObj(g)
	return r.e.load(st, vPtr(Addr{o.id, 0}), g.Type().(*types.Pointer).Elem())
}

// a slice of the given strings
func (r *Run) strSlice(tag string, vs ...*V) *V {
	e := r.e
	o := e.obj("in:"+tag, func(x *Obj) {})
	for i, v := range vs {
		e.writeCell(r.st, Addr{o.id, e.path(0, 'i', int64(i))}, nil, types.Typ[types.String], v, true)
	}
	return &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vInt(int64(len(vs))), cp: vInt(int64(len(vs)))}
}

func (r *Run) call(fn *ssa.Function, args ...*V) []*Out {
	t0 := time.Now()
	if os.Getenv("LHAPROF") != "" {
		profSteps = map[string]int{}
		defer func() {
			var ks []string
			tot := map[string]int{}
			for k, n := range profSteps {
				tot[k[:strings.LastIndex(k, ".")]] += n
				ks = append(ks, k)
			}
			for k, n := range tot {
				fmt.Println("FN", n, k)
			}
			sort.Slice(ks, func(i, j int) bool { return profSteps[ks[i]] > profSteps[ks[j]] })
			for i := 0; i < 30 && i < len(ks); i++ {
				fmt.Println("BLK", profSteps[ks[i]], ks[i])
			}
		}()
	}
	outs := r.e.callFn(nil, nil, fn, args, nil, r.st)
	if r.e.cfg.Trace || os.Getenv("LHATIME") != "" {
		fmt.Printf("  %s: %d outcomes, %d steps, %d functions, %v\n", fn.Name(), len(outs), r.e.steps, len(r.e.fnsSeen), time.Since(t0))
	}
	return outs
}

// element i of a slice
func (e *Engine) elemOf(st *State, s *V, i int64, t types.Type) *V {
	if len(s.tg) != 1 || s.off == nil || s.off.lo != s.off.hi {
		return vTop(0)
	}
	a := s.tg[0]
	return e.load(st, vPtr(Addr{a.o, e.path(a.p, 'i', s.off.lo+i)}), t)
}
