package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Config of one analysis run.
type Config struct {
	Terms      bool
	Bits       bool
	MaxPart    int
	Init       func(o *Obj, a Addr, t types.Type, dflt *V) *V
	Unroll     func(fn *ssa.Function) int
	Key        func(st *State) string
	Before     func(ev *Ev)              // before an external call
	After      func(ev *Ev, o *Out) bool // on each outcome of an external call; false drops it
	Enter      func(ev *Ev) []*Out       // before a repository function is analysed; non-nil replaces it
	Leave      func(ev *Ev, o *Out)      // on each outcome of a repository function
	OnStore    func(ev *Ev, p *V, t types.Type, v *V)
	OnLoad     func(ev *Ev, p *V, v *V) *V
	OnIndex    func(ev *Ev, base *V, idx *V)
	OnBranch   func(ev *Ev, cond ssa.Value, v *V)
	OnMake     func(ev *Ev, n *V)
	OnAlloc    func(st *State, o *Obj)
	OnSlice    func(ev *Ev, base, lo, hi *V)
	OnAppend   func(ev *Ev, a, b *V)
	OnCopy     func(ev *Ev, d, s, n *V)
	StatKinds  bool
	Answers    []string
	InputLab   uint64
	NoFill     bool // what is read is left to After
	FlagVal    func(name string) *V
	Ext        func(ev *Ev) []*Out                      // replaces the model of an external call
	Decide     func(op token.Token, a, b *V) int        // decides an equation of integers (2: not)
	Pick       func(ix *V) (int64, bool)                // stands for an index that is not known
	OnCmp      func(st *State, op token.Token, a, b *V) // an integer comparison is known to hold
	Exact      bool                                     // each round of a loop with a decided condition on its own
	Mod        bool                                     // keep linear forms modulo 2^8 and of parts of numbers
	Outcomes   func(ev *Ev, name string) []string       // restrict the outcomes of an external
	MayPanic   func(fn *ssa.Function) bool
	SplitNames bool
	StaleLab   uint64
	Trace      bool
	Fast       bool // widen early
	Budget     int
}

// Ev describes a program point an event happens at.
type Ev struct {
	e     *Engine
	act   *Act
	st    *State
	instr ssa.Instruction
	name  string
	fn    *ssa.Function
	args  []*V
	com   *ssa.CallCommon
	op    string
	h     []*Obj
}

func (ev *Ev) pos() string { return ev.e.pos(ev.instr) }

type Out struct {
	st    *State
	res   []*V
	cls   string
	tag   string // how an external operation ended
	panic bool
}

type Act struct {
	fn   *ssa.Function
	ctx  int32
	up   *Act
	call ssa.Instruction
}

func (a *Act) in(name string) bool {
	for x := a; x != nil; x = x.up {
		if x.fn.Name() == name {
			return true
		}
	}
	return false
}
func (a *Act) chain() string {
	var r []string
	for x := a; x != nil; x = x.up {
		r = append([]string{x.fn.Name()}, r...)
	}
	return strings.Join(r, " > ")
}

type ctxKey struct {
	up    int32
	instr ssa.Instruction
	fn    *ssa.Function
}

type Engine struct {
	prog     *ssa.Program
	repo     map[*ssa.Package]bool
	cfg      *Config
	objs     []*Obj
	objByKey map[string]*Obj
	paths    []pathInfo
	pathID   map[pathKey]int32
	ctxs     map[ctxKey]int32
	syms     map[string]int32
	symName  []string
	symBits  []int
	symInfo  map[int32]*symMeaning
	instrID  map[ssa.Instruction]int
	thr      []int64

	lazyCache map[lazyKey]*V
	cellTypes map[Addr]types.Type
	live      map[*ssa.Function]*liveness
	rec       map[*ssa.Function]*recSum
	baseMem   map[int32]*ObjMem // after package initialisation
	stored    map[*ssa.Global]bool
	free      map[Addr]bool // settings whose value is not followed from one use to the next

	steps      int
	fnsSeen    map[*ssa.Function]bool
	calls      map[string]int
	overflow   bool
	sitesyms   map[string]map[int32]bool
	jn         map[string]int
	freshN     int
	jcls       map[string]map[int32]string
	jcollect   map[int32]map[string]bool
	unsup      map[string]bool
	recCut     map[string]int
	forced     map[string]int
	constRes   map[*ssa.Function]bool
	consts     map[*ssa.Const]*V
	gobj       map[*ssa.Global]*Obj
	extG       map[string]*V
	mapKeys    map[string]int64
	initing    bool
	ops        map[string]int
	unknownExt map[string]bool
	modOf      map[int32]*Term // what a symbol stands for modulo 256
}

// what an integer symbol means
type symMeaning struct {
	kind string // "lastindex", "index", "strlen"
	str  *V     // the string
	sub  string
}

type recSum struct {
	active bool
	outs   map[string]*Out
	entry  *State
	used   bool
	grew   bool
}

func NewEngine(p *Program, cfg *Config) *Engine {
	e := &Engine{prog: p.prog, repo: p.repo, cfg: cfg,
		objByKey: map[string]*Obj{}, pathID: map[pathKey]int32{}, ctxs: map[ctxKey]int32{},
		syms: map[string]int32{}, symInfo: map[int32]*symMeaning{}, instrID: map[ssa.Instruction]int{},
		free: map[Addr]bool{}, lazyCache: map[lazyKey]*V{}, cellTypes: map[Addr]types.Type{}, live: p.live,
		rec: map[*ssa.Function]*recSum{}, fnsSeen: map[*ssa.Function]bool{}, calls: map[string]int{},
		sitesyms: map[string]map[int32]bool{}, jn: map[string]int{}, stored: p.stored, unknownExt: map[string]bool{}, unsup: map[string]bool{},
		recCut: map[string]int{}, forced: map[string]int{}, constRes: map[*ssa.Function]bool{},
		consts: map[*ssa.Const]*V{}, gobj: map[*ssa.Global]*Obj{}, extG: map[string]*V{}, mapKeys: map[string]int64{}, ops: map[string]int{}}
	e.modOf = map[int32]*Term{}
	e.paths = []pathInfo{{}}
	e.thr = []int64{negInf, -65536, -32768, -256, -2, -1, 0, 1, 2, 3, 7, 8, 13, 14, 15, 16, 17, 18, 19, 20, 31, 59, 60, 63, 64, 127, 128, 255, 256, 285, 286, 313, 314, 509, 510, 511, 512, 1019, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 131072, 1 << 20, 1<<32 - 1, 1 << 33, posInf}
	if cfg.MaxPart == 0 {
		cfg.MaxPart = 48
	}
	if cfg.Budget == 0 {
		cfg.Budget = 40_000_000
	}
	return e
}

func (e *Engine) pos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	p := i.Pos()
	if p == token.NoPos {
		// nearest instruction with a position in the block
		for _, x := range i.Block().Instrs {
			if x.Pos() != token.NoPos {
				p = x.Pos()
			}
			if x == i && p != token.NoPos {
				break
			}
		}
	}
	q := e.prog.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) sym(name string, bits int) int32 {
	if s, ok := e.syms[name]; ok {
		return s
	}
	s := int32(len(e.symName))
	e.symName = append(e.symName, name)
	e.symBits = append(e.symBits, bits)
	e.syms[name] = s
	return s
}
func (e *Engine) symInt(name string, lo, hi int64, bits int) *V {
	v := &V{k: KInt, lo: lo, hi: hi}
	if e.cfg.Terms || e.cfg.Bits || strings.HasPrefix(name, "idx:") {
		s := e.sym(name, bits)
		v.t = tSym(s)
		if e.cfg.Bits {
			v.bits = symBits(s, bits)
		}
	}
	return v
}
func symBits(s int32, n int) []Bit {
	r := make([]Bit, n)
	for i := range r {
		r[i] = Bit{s: []int64{int64(s)<<8 | int64(i)}}
	}
	return r
}

// a symbol defined by an instruction: older uses of it are forgotten
func (e *Engine) freshInt(st *State, name string, lo, hi int64, bits int) *V {
	if _, ok := e.syms[name]; ok {
		e.killSym(st, e.syms[name])
	}
	return e.symInt(name, lo, hi, bits)
}

func (e *Engine) mapState(st *State, f func(*V) *V) {
	for i, fr := range st.frames {
		var n []*V
		for k, v := range fr.regs {
			if v == nil {
				continue
			}
			w := f(v)
			if w != v {
				if n == nil {
					n = append([]*V(nil), fr.regs...)
				}
				n[k] = w
			}
		}
		var nd []*Deferred
		for di, d := range fr.defers {
			var na []*V
			for ai, a := range d.args {
				w := f(a)
				if w != a && na == nil {
					na = append([]*V(nil), d.args...)
				}
				if na != nil {
					na[ai] = w
				}
			}
			nf := d.fn
			if nf != nil {
				nf = f(nf)
			}
			if na != nil || nf != d.fn {
				if nd == nil {
					nd = append([]*Deferred(nil), fr.defers...)
				}
				if na == nil {
					na = d.args
				}
				nd[di] = &Deferred{d.instr, nf, na}
			}
		}
		if n != nil || nd != nil {
			if n == nil {
				n = fr.regs
			}
			if nd == nil {
				nd = fr.defers
			}
			st.frames[i] = &Frame{regs: n, defers: nd, fn: fr.fn, lv: fr.lv, unr: fr.unr}
		}
	}
	for id, om := range st.mem {
		if om == nil {
			continue
		}
		var n *ObjMem
		for i, c := range om.cells() {
			w := f(c.v)
			if w != c.v {
				if n == nil {
					n = &ObjMem{c: append([]cell(nil), om.cells()...)}
				}
				n.c[i].v = w
			}
		}
		if n != nil {
			st.own(0)
			st.mem[id] = n
		}
	}
}

// apply f to every integer inside v
func mapInts(v *V, f func(*V) *V) *V {
	if v == nil {
		return nil
	}
	switch v.k {
	case KInt:
		return f(v)
	case KPtr:
		if v.ix != nil {
			if x := mapInts(v.ix, f); x != v.ix {
				w := *v
				w.ix = x
				return &w
			}
		}
	case KSlice, KStr:
		o, l := v.off, v.ln
		if o != nil {
			o = mapInts(o, f)
		}
		if l != nil {
			l = mapInts(l, f)
		}
		if o != v.off || l != v.ln {
			w := *v
			w.off, w.ln = o, l
			return &w
		}
	case KAgg:
		for i, x := range v.el {
			y := mapInts(x, f)
			if y != x {
				w := *v
				w.el = append([]*V(nil), v.el...)
				w.el[i] = y
				for k := i + 1; k < len(w.el); k++ {
					w.el[k] = mapInts(w.el[k], f)
				}
				return &w
			}
		}
	case KIface:
		for i, x := range v.dv {
			y := mapInts(x, f)
			if y != x {
				w := *v
				w.dv = append([]*V(nil), v.dv...)
				w.dv[i] = y
				return &w
			}
		}
	}
	return v
}
func bitsHave(b []Bit, s int32) bool {
	for _, x := range b {
		for _, y := range x.s {
			if int32(y>>8) == s {
				return true
			}
		}
	}
	return false
}
func (e *Engine) killSym(st *State, s int32) {
	e.mapState(st, func(v *V) *V {
		return mapInts(v, func(i *V) *V {
			if i.t.has(s) || bitsHave(i.bits, s) {
				w := *i
				if w.t.has(s) {
					w.t = nil
				}
				if bitsHave(w.bits, s) {
					w.bits = nil
				}
				return &w
			}
			return i
		})
	})
}

// ---- term joins ----

// termJoiner names the result of joining two different terms so that equal
// pairs (up to a common constant) get equal names.
func (e *Engine) termJoiner(site string) func(a, b *Term) *Term {
	own := e.sitesyms[site]
	return func(a, b *Term) *Term {
		if a.eq(b) {
			for _, x := range a.m {
				if own[x.s] {
					goto owned
				}
			}
			return a
		}
	owned:
		base := &Term{m: a.m}
		// keep a site symbol that advances by itself
		rb := tAdd(b, tConst(a.c), -1)
		if len(a.m) == 1 && a.m[0].k == 1 && own[a.m[0].s] {
			cls := e.jcls[site]
			if cls != nil && cls[a.m[0].s] == rb.key() {
				return a
			}
			if e.jcollect != nil {
				m := e.jcollect[a.m[0].s]
				if m == nil {
					m = map[string]bool{}
					e.jcollect[a.m[0].s] = m
				}
				m[rb.key()] = true
				return a
			}
		}
		if e.jcollect != nil {
			return nil
		}
		if e.jn[site] > 80 {
			return nil
		}
		name := "phi:" + site + ":" + base.key() + "|" + rb.key()
		if _, ok := e.syms[name]; !ok {
			e.jn[site]++
		}
		s := e.sym(name, 64)
		if own == nil {
			own = map[int32]bool{}
			e.sitesyms[site] = own
		}
		own[s] = true
		return tAdd(tSym(s), tConst(a.c), 1)
	}
}

func (e *Engine) joinAt(a, b *State, site string, widen int) (*State, bool) {
	if !e.cfg.Terms {
		return e.joinState(a, b, site, widen)
	}
	own := e.sitesyms[site]
	if len(own) > 0 {
		b = b.clone()
		e.mapState(b, func(v *V) *V {
			return mapInts(v, func(i *V) *V {
				if i.t == nil {
					return i
				}
				hit := false
				for _, x := range i.t.m {
					if own[x.s] {
						hit = true
					}
				}
				if !hit {
					return i
				}
				w := *i
				n := &Term{c: i.t.c}
				for _, x := range i.t.m {
					if own[x.s] {
						n = tAdd(n, tSym(e.sym("'"+e.symName[x.s], 64)), x.k)
					} else {
						n = tAdd(n, tSym(x.s), x.k)
					}
				}
				w.t = n
				w.bits = nil
				return &w
			})
		})
		// decide which class keeps each symbol
		e.jcollect = map[int32]map[string]bool{}
		e.joinState(a, b, site, widen)
		cls := map[int32]string{}
		for s, m := range e.jcollect {
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			cls[s] = ks[0]
		}
		e.jcollect = nil
		e.jcls = map[string]map[int32]string{site: cls}
	}
	r, c := e.joinState(a, b, site, widen)
	e.jcls = nil
	return r, c
}

// lowByte is the symbol that stands for a linear form modulo 256
func (e *Engine) lowByte(t *Term) *V {
	n := &Term{c: t.c & 255}
	for _, x := range t.m {
		if k := x.k & 255; k != 0 {
			n.m = append(n.m, tm{x.s, k})
		}
	}
	v := e.symInt("mod256("+n.key()+")", 0, 255, 8)
	e.modOf[v.t.m[0].s] = n
	return v
}

// atom is the symbol that stands for a value with a known linear form
func (e *Engine) atom(v *V, n int) []Bit {
	if v.t == nil || v.lo < 0 || v.hi == posInf {
		return nil
	}
	w := bits.Len64(uint64(v.hi))
	if w >= n {
		return nil
	}
	if len(v.t.m) == 1 && v.t.c == 0 && v.t.m[0].k == 1 {
		return nil
	}
	return extend(symBits(e.sym("part("+v.t.key()+")", w), w), n, false)
}
