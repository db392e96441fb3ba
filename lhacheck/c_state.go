package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	checks["C13"] = &check{
		rule:   "interval dataflow: every allocation reached while a header is read, a member is decoded or skipped, or members are listed has a size whose upper bound is a constant of at most 1 MiB, or is bounded by data that was actually read; no size taken from the archive reaches it unbounded",
		assume: []string{"growth of in-memory output follows the bytes actually decoded"},
		run:    bounded,
	}
	checks["C14"] = &check{
		rule:   "initialisation dataflow: no codec, header reading or public entry reads a scalar variable of the package or private field of the handle that an earlier operation left behind before having set it itself",
		assume: []string{"exported settings belong to the caller"},
		run:    stateless,
	}
}

const allocLimit = 1 << 20

func limitAlloc(w *World, what string) {
	w.cfg.OnMake = func(ev *Ev, n *V) {
		w.r.count("allocations", 1)
		w.r.ob("%s: allocation of %v at %s", what, n, ev.pos())
		if n.k != KInt || n.hi > allocLimit {
			w.r.bad("allocation", what+" in "+ev.act.fn.Name(), fmt.Sprintf("%s (%s) allocates %v elements", ev.pos(), ev.act.chain(), n), ev.st.trace(20))
		}
	}
	w.cfg.Before = func(ev *Ev) {
		switch ev.name {
		case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "strings.Repeat", "bytes.Repeat", "slices.Grow", "bufio.NewReaderSize", "bufio.NewWriterSize":
			n := ev.args[len(ev.args)-1]
			w.r.count("allocations", 1)
			if n.k != KInt || n.hi > allocLimit {
				w.r.bad("allocation", what+" in "+ev.act.fn.Name(), fmt.Sprintf("%s (%s) allocates %v bytes", ev.pos(), ev.act.chain(), n), ev.st.trace(20))
			}
		}
	}
}

func bounded(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range allEntries() {
		if s.files > 0 {
			continue
		}
		jobs = append(jobs, func(r *Report) {
			w := s.world(p, r)
			limitAlloc(w, s.entry)
			w.run(s.entry)
		})
	}
	for _, m := range decodeMethods {
		jobs = append(jobs, func(r *Report) {
			w := codecWorld(p, r)
			w.globals["VerifyMode"] = vBool(false)
			limitAlloc(w, fmt.Sprintf("DecodeLzhuf method %d", m))
			if run := w.start(); run != nil {
				decodeCall(w, run, m)
				r.absorb(run)
			}
		})
	}
	jobs = append(jobs, func(r *Report) {
		w := newWorld(p, r)
		w.realHeader = true
		limitAlloc(w, "GetHeader")
		if run := w.start(); run != nil {
			hdrCall(w, run)
			r.absorb(run)
		}
	})
	r.parallel(jobs...)
	r.need("allocations", 10)
}

// private scalars of the package and of the handle
func staleLoad(w *World, what string, answers bool, cells map[Addr]bool, final bool) {
	var ef []int
	hs := w.p.lib.Type("Lha").Type().Underlying().(*types.Struct)
	for i := 0; i < hs.NumFields(); i++ {
		if isErrorType(hs.Field(i).Type()) {
			ef = append(ef, i)
		}
	}
	if final {
		w.cfg.OnStore = func(ev *Ev, p *V, t types.Type, v *V) {
			if len(p.tg) == 1 && cells[p.tg[0]] {
				ev.st.set(fmt.Sprint("w:", p.tg[0]), "1")
			}
		}
	}
	w.cfg.OnLoad = func(ev *Ev, a *V, v *V) *V {
		ok, name := true, ""
		strip := func() *V {
			if v.lab&labStale == 0 {
				return nil
			}
			c := *v
			c.lab &^= labStale
			return &c
		}
		for _, t := range a.tg {
			o := ev.e.objs[t.o]
			if o.glob == nil && o.key != "lha" || ev.e.pathHas(t.p, 'i') || ev.e.pathHas(t.p, '*') {
				return strip() // elements of tables are outside
			}
			ok = ok && o.glob != nil && o.glob.Object() != nil && (o.glob.Object().Exported() || oneValue(w.p, o.glob))
			name = strings.TrimPrefix(o.key, "g:")
			if o.glob == nil {
				name = "handle" + fieldName(w, ev, t.p)
			}
		}
		switch v.k {
		case KInt, KStr, KIface, KPtr:
		default:
			return nil
		}
		w.r.count("loads of state", 1)
		if len(a.tg) == 0 || v.lab&labStale == 0 {
			return nil
		}
		if u, isU := ev.instr.(*ssa.UnOp); isU && answers {
			if b, isB := u.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsBoolean != 0 {
				ok = true
			}
		}
		if ok {
			return strip()
		}
		for _, i := range ef { // a call that is failing already
			if v := ev.e.load(ev.st, ev.e.fieldAddr(w.lhaV, i), hs.Field(i).Type()); v.nn == nonNil {
				return strip()
			}
		}
		if !final {
			for _, t := range a.tg {
				cells[t] = true
			}
			return strip()
		}
		w.r.bad("stale", what+" reads "+name+" in "+ev.act.fn.Name(), fmt.Sprintf("%s (%s) reads %s, which still holds what an earlier operation left", ev.pos(), ev.act.chain(), name), ev.st.trace(20))
		return nil
	}
}

func fieldName(w *World, ev *Ev, p int32) string {
	s := ev.e.pathString(p)
	var n int
	if _, err := fmt.Sscanf(s, ".%d", &n); err == nil {
		st := w.p.lib.Type("Lha").Type().Underlying().(*types.Struct)
		if n < st.NumFields() {
			return "." + st.Field(n).Name()
		}
	}
	return s
}

func stateless(p *Program, r *Report) {
	var jobs []func(*Report)
	add := func(what string, answers bool, mk func(r *Report) *World, call func(w *World, run *Run)) {
		jobs = append(jobs, func(r *Report) {
			// a second pass follows the cells in question separately, from before
			// their first assignment to after it
			cells := map[Addr]bool{}
			for pass := 0; pass < 2; pass++ {
				w := mk(r)
				staleLoad(w, what, answers, cells, pass == 1)
				run := w.start()
				if run == nil {
					return
				}
				call(w, run)
				r.absorb(run)
				if len(cells) == 0 {
					break
				}
				if pass == 0 {
					r.count("cells followed separately", len(cells))
				}
			}
			r.count("calls analysed", 1)
			r.ob("%s", what)
		})
	}
	for _, s := range allEntries() {
		add(s.entry+" "+s.what, s.what == "to files", func(r *Report) *World { return s.world(p, r) }, func(w *World, run *Run) {
			if fn := run.fn(s.entry); fn != nil {
				run.call(fn, w.args(run, fn)...)
			} else {
				w.r.bad("anchor", s.entry, "API entry not found", nil)
			}
		})
	}
	codec := func(r *Report) *World {
		w := codecWorld(p, r)
		w.globals["VerifyMode"] = vBool(false)
		return w
	}
	for _, m := range decodeMethods {
		add(fmt.Sprintf("DecodeLzhuf method %d", m), false, codec, func(w *World, run *Run) { decodeCall(w, run, m) })
	}
	for _, m := range encodeMethods {
		add(fmt.Sprintf("EncodeLzhuf method %d", m), false, codec, func(w *World, run *Run) { encodeCall(w, run, m) })
	}
	add("GetHeader", false, func(r *Report) *World {
		w := newWorld(p, r)
		w.realHeader = true
		return w
	}, func(w *World, run *Run) { hdrCall(w, run) })
	r.parallel(jobs...)
	r.need("loads of state", 200)
	r.need("calls analysed", 34)
}

// oneValue tells whether every assignment to a package variable assigns one
// and the same constant
func oneValue(p *Program, g *ssa.Global) bool {
	oneValueMu.Lock()
	defer oneValueMu.Unlock()
	if v, ok := oneValueOf[g]; ok {
		return v
	}
	var c *ssa.Const
	res := true
	for fn := range ssautil.AllFunctions(p.prog) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						k, isC := x.Val.(*ssa.Const)
						if !isC || x.Addr != ssa.Value(g) || k.Value == nil || c != nil && c.Value.ExactString() != k.Value.ExactString() {
							res = false
						} else {
							c = k
						}
					default:
						res = false
					}
				}
			}
		}
	}
	oneValueOf[g] = res && c != nil
	return oneValueOf[g]
}

var oneValueMu sync.Mutex
var oneValueOf = map[*ssa.Global]bool{}
