package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- objects and paths ----

type Obj struct {
	id      int32
	key     string
	typ     types.Type // type of the root cell (may be nil)
	lazy    bool       // contents unknown until written (parameter memory)
	dyn     bool       // allocated while analysing (existence differs per state)
	summary bool       // stands for several concrete objects
	fileOf  string     // external handles: what they are
	site    ssa.Instruction
	glob    *ssa.Global
	srcName string
	fn      *ssa.Function
	lab     uint64
}

type pathInfo struct {
	parent int32
	kind   byte // 'f' field, 'i' const index, '*' any index, 's' string content
	n      int64
}

type cell struct {
	p int32
	v *V
}

// ObjMem holds the cells of one object, sorted by path; immutable.
type ObjMem struct {
	c  []cell
	kk string
	ok bool
	pl uint8 // 1: refers to nothing, 2: may refer to something
	ns bool  // holds no text of a byte array

	// an older version: the cells of nx, but for the one at dp (nil: absent)
	nx *ObjMem
	dp int32
	dv *V
}

// cells of the object, in the order of their paths
func (o *ObjMem) cells() []cell {
	if o == nil {
		return nil
	}
	if o.nx != nil {
		var chain []*ObjMem
		for x := o; x.nx != nil; x = x.nx {
			chain = append(chain, x)
		}
		for i := len(chain) - 1; i >= 0; i-- {
			x := chain[i]
			r := x.nx
			x.c, x.nx = r.c, nil
			r.c = nil
			old := x.set(x.dp, x.dv)
			r.nx, r.dp, r.dv = x, x.dp, old
			x.dv = nil
		}
	}
	return o.c
}

// snap is a copy that stays as it is when other versions are looked at
func (o *ObjMem) snap() []cell {
	c := o.cells()
	if len(c) >= 256 {
		return append([]cell(nil), c...)
	}
	return c
}

// set changes a cell in place and returns the former value
func (o *ObjMem) set(p int32, v *V) *V {
	i := o.find(p)
	if i < len(o.c) && o.c[i].p == p {
		old := o.c[i].v
		if v == nil {
			o.c = append(o.c[:i], o.c[i+1:]...)
		} else {
			o.c[i].v = v
		}
		return old
	}
	if v != nil {
		o.c = append(o.c, cell{})
		copy(o.c[i+1:], o.c[i:])
		o.c[i] = cell{p, v}
	}
	return nil
}

// put is with, but lets the new version take over the cells of a large object
func (o *ObjMem) put(p int32, v *V) *ObjMem {
	if o == nil || v == nil || len(o.cells()) < 256 {
		return o.with(p, v)
	}
	n := &ObjMem{c: o.c, ns: o.ns}
	if o.pl == 1 && len(v.tg) == 0 && len(v.dv) == 0 && len(v.el) == 0 && len(v.fn) == 0 {
		n.pl = 1
	}
	o.c = nil
	o.dv = n.set(p, v)
	o.dp, o.nx = p, n
	return n
}

// plain: no cell refers to another object
func (o *ObjMem) plain() bool {
	if o.pl == 0 {
		o.pl = 1
		for _, c := range o.cells() {
			if v := c.v; v != nil && (len(v.tg) > 0 || len(v.dv) > 0 || len(v.el) > 0 || len(v.fn) > 0) {
				o.pl = 2
				break
			}
		}
	}
	return o.pl == 1
}

func (o *ObjMem) find(p int32) int {
	c := o.cells()
	if n := len(c); n == 0 || c[n-1].p < p {
		return n
	}
	return sort.Search(len(c), func(i int) bool { return c[i].p >= p })
}
func (o *ObjMem) get(p int32) *V {
	if o == nil {
		return nil
	}
	i := o.find(p)
	if i < len(o.c) && o.c[i].p == p {
		return o.c[i].v
	}
	return nil
}
func (o *ObjMem) with(p int32, v *V) *ObjMem {
	if o == nil {
		return &ObjMem{c: []cell{{p, v}}}
	}
	i := o.find(p)
	n := &ObjMem{}
	if o.pl == 1 && v != nil && len(v.tg) == 0 && len(v.dv) == 0 && len(v.el) == 0 && len(v.fn) == 0 {
		n.pl = 1
	}
	if i < len(o.c) && o.c[i].p == p {
		n.c = append([]cell(nil), o.c...)
		n.c[i].v = v
		return n
	}
	n.c = make([]cell, len(o.c)+1)
	copy(n.c, o.c[:i])
	n.c[i] = cell{p, v}
	copy(n.c[i+1:], o.c[i:])
	return n
}

type Deferred struct {
	instr *ssa.Defer
	fn    *V
	args  []*V
}

type Frame struct {
	regs   []*V
	defers []*Deferred
	fn     *ssa.Function
	lv     *liveness
	unr    map[int]string // by loop header: the iteration that is being analysed on its own
}

type Trace struct {
	up  *Trace
	msg string
	n   int
}

type State struct {
	mem    []*ObjMem // by object id
	cow    bool      // mem is shared
	frames []*Frame
	ts     map[string]string // client typestate, immutable
	tsk    string
	tr     *Trace
	pan    *panicInfo
}

type panicInfo struct {
	site string
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{mem: s.mem, cow: true, ts: s.ts, tsk: s.tsk, tr: s.tr, pan: s.pan}
	s.cow = true
	n.frames = append([]*Frame(nil), s.frames...)
	if len(s.frames) > 0 {
		f := s.top()
		n.frames[len(n.frames)-1] = &Frame{regs: append([]*V(nil), f.regs...), defers: f.defers, fn: f.fn, lv: f.lv, unr: f.unr}
	}
	return n
}
func (s *State) own(n int) {
	if s.cow || len(s.mem) < n {
		m := make([]*ObjMem, max(n, len(s.mem)))
		copy(m, s.mem)
		s.mem = m
		s.cow = false
	}
}
func (s *State) om(o int32) *ObjMem {
	if int(o) < len(s.mem) {
		return s.mem[o]
	}
	return nil
}
func (e *Engine) setOM(s *State, o int32, m *ObjMem) {
	s.own(len(e.objs))
	s.mem[o] = m
}
func (s *State) setReg(r ssa.Value, v *V) { f := s.top(); f.regs[f.lv.num[r]] = v }
func (s *State) reg(r ssa.Value) *V       { f := s.top(); return f.regs[f.lv.num[r]] }

func (s *State) get(k string) string { return s.ts[k] }
func (s *State) set(k, v string) {
	if s.ts[k] == v {
		return
	}
	n := make(map[string]string, len(s.ts)+1)
	for a, b := range s.ts {
		n[a] = b
	}
	if v == "" {
		delete(n, k)
	} else {
		n[k] = v
	}
	s.ts = n
	var ks []string
	for a := range n {
		ks = append(ks, a)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, a := range ks {
		sb.WriteString(a)
		sb.WriteByte('=')
		sb.WriteString(n[a])
		sb.WriteByte(';')
	}
	s.tsk = sb.String()
}
func (s *State) note(format string, a ...interface{}) {
	n := 0
	if s.tr != nil {
		n = s.tr.n
	}
	s.tr = &Trace{up: s.tr, msg: fmt.Sprintf(format, a...), n: n + 1}
}
func (s *State) trace(max int) []string {
	var r []string
	for t := s.tr; t != nil && len(r) < max; t = t.up {
		r = append(r, t.msg)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- engine tables ----

func (e *Engine) obj(key string, mk func(*Obj)) *Obj {
	if o, ok := e.objByKey[key]; ok {
		return o
	}
	o := &Obj{id: int32(len(e.objs)), key: key}
	mk(o)
	e.objs = append(e.objs, o)
	e.objByKey[key] = o
	return o
}

type pathKey struct {
	parent int32
	kind   byte
	n      int64
}

func (e *Engine) path(parent int32, kind byte, n int64) int32 {
	k := pathKey{parent, kind, n}
	if id, ok := e.pathID[k]; ok {
		return id
	}
	id := int32(len(e.paths))
	e.paths = append(e.paths, pathInfo{parent, kind, n})
	e.pathID[k] = id
	return id
}
func (e *Engine) pathString(p int32) string {
	if p == 0 {
		return ""
	}
	pi := e.paths[p]
	s := e.pathString(pi.parent)
	switch pi.kind {
	case 'f':
		return fmt.Sprintf("%s.%d", s, pi.n)
	case 'i':
		return fmt.Sprintf("%s[%d]", s, pi.n)
	case '*':
		return s + "[*]"
	}
	return s + "$" + string(pi.kind)
}
func (e *Engine) pathHas(p int32, kind byte) bool {
	for p != 0 {
		if e.paths[p].kind == kind {
			return true
		}
		p = e.paths[p].parent
	}
	return false
}

// generalize every const index on the path to '*'
func (e *Engine) starPath(p int32) int32 {
	if p == 0 {
		return 0
	}
	pi := e.paths[p]
	q := e.starPath(pi.parent)
	if pi.kind == 'i' {
		return e.path(q, '*', 0)
	}
	return e.path(q, pi.kind, pi.n)
}

// does concrete path p match pattern q (q may contain stars), same shape;
// the const indices that a star covers must lie in ix.
func (e *Engine) pathMatch(p, q int32, ix *V) bool {
	for p != 0 && q != 0 {
		a, b := e.paths[p], e.paths[q]
		if a.kind == b.kind && a.n == b.n {
			p, q = a.parent, b.parent
			continue
		}
		if a.kind == 'i' && b.kind == '*' {
			if ix != nil && (a.n < ix.lo || a.n > ix.hi) {
				return false
			}
			p, q = a.parent, b.parent
			continue
		}
		if a.kind == '*' && b.kind == '*' {
			p, q = a.parent, b.parent
			continue
		}
		return false
	}
	return p == q
}

// ---- memory ----

func (e *Engine) ensureObj(st *State, o *Obj) {
	if o.dyn && st.om(o.id) == nil {
		e.setOM(st, o.id, &ObjMem{})
	}
}

func (e *Engine) lookup(st *State, a Addr) (*V, bool) {
	v := st.om(a.o).get(a.p)
	return v, v != nil
}

func (e *Engine) putCell(st *State, a Addr, v *V) {
	e.setOM(st, a.o, st.om(a.o).with(a.p, v))
}

func (e *Engine) defaultVal(st *State, a Addr, t types.Type) *V {
	o := e.objs[a.o]
	if !o.lazy {
		return vZero(t)
	}
	return e.lazyVal(o, a, t)
}

func (e *Engine) lazyVal(o *Obj, a Addr, t types.Type) *V {
	k := lazyKey{a, t.String()}
	if v, ok := e.lazyCache[k]; ok {
		return v
	}
	v := e.lazyVal1(o, a, t)
	if e.cfg.Init != nil {
		if w := e.cfg.Init(o, a, t, v); w != nil {
			v = w
		}
	}
	e.lazyCache[k] = v
	return v
}

type lazyKey struct {
	a Addr
	t string
}

func (e *Engine) lazyVal1(o *Obj, a Addr, t types.Type) *V {
	name := "init:" + o.key + e.pathString(a.p)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if n, _, ok := intInfo(t); ok {
			lo, hi := typeRange(t)
			v := &V{k: KInt, lo: lo, hi: hi, lab: o.lab}
			if !e.pathHas(a.p, '*') && !o.summary && n > 1 {
				v = e.symInt(name, lo, hi, n)
				v.lab = o.lab
			}
			return v
		}
		if u.Info()&types.IsString != 0 {
			v := vSymStr(name, 0, o.lab)
			v.ln = e.symInt("len:"+name, 0, posInf, 64)
			return v
		}
	case *types.Pointer:
		po := o // the rest of a list is one object
		if o.typ == nil || !types.Identical(o.typ, u.Elem()) {
			po = e.obj("lazy:"+name, func(x *Obj) { x.typ = u.Elem(); x.lazy = true; x.lab = o.lab })
		} else if !o.summary {
			po = e.obj("lazy:"+name, func(x *Obj) { x.typ = u.Elem(); x.lazy = true; x.lab = o.lab; x.summary = true })
		}
		return &V{k: KPtr, nn: maybeNil, tg: []Addr{{po.id, 0}}, lab: o.lab}
	case *types.Slice:
		po := e.obj("lazyarr:"+name, func(x *Obj) { x.typ = nil; x.lazy = true; x.lab = o.lab })
		ln := e.symInt("len:"+name, 0, posInf, 64)
		return &V{k: KSlice, nn: maybeNil, tg: []Addr{{po.id, 0}}, off: vInt(0), ln: ln, lab: o.lab}
	case *types.Interface:
		return &V{k: KIface, nn: maybeNil, top: true, ec: ecAll, lab: o.lab, id: name}
	}
	return vUnknown(t, o.lab)
}

func (e *Engine) readCell(st *State, a Addr, ix *V, t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := &V{k: KAgg}
		for i := 0; i < u.NumFields(); i++ {
			f := e.readCell(st, Addr{a.o, e.path(a.p, 'f', int64(i))}, ix, u.Field(i).Type())
			r.el = append(r.el, f)
			r.lab |= f.lab
		}
		return r
	case *types.Array:
		v := vTop(0)
		el := e.readCell(st, Addr{a.o, e.path(a.p, '*', 0)}, nil, u.Elem())
		v.lab = el.lab
		// small arrays keep their elements
		if u.Len() <= 16 && !e.pathHas(a.p, '*') {
			v = &V{k: KAgg, lab: el.lab}
			for i := int64(0); i < u.Len(); i++ {
				v.el = append(v.el, e.readCell(st, Addr{a.o, e.path(a.p, 'i', i)}, nil, u.Elem()))
			}
		}
		return v
	}
	star := e.pathHas(a.p, '*')
	e.noteType(a, t)
	if !star {
		if v, ok := e.lookup(st, a); ok {
			if e.objs[a.o].summary {
				return anon(v)
			}
			return v
		}
		if e.pathHas(a.p, 'i') {
			if v, ok := e.lookup(st, Addr{a.o, e.starPath(a.p)}); ok {
				return anon(v)
			}
		}
		return e.defaultVal(st, a, t)
	}
	// star read: everything the index may select
	om := st.om(a.o)
	if e.cfg.Bits {
		if v := e.linearTable(om, a, ix, t); v != nil {
			return v
		}
		if v := e.affineTable(st, om, a, ix, t); v != nil {
			return v
		}
	}
	r := om.get(a.p)
	if r == nil {
		full := false
		// are all indices in range explicitly written?
		if ix != nil && om != nil && ix.k == KInt && ix.lo >= 0 && ix.hi >= ix.lo && ix.hi-ix.lo < 300 {
			n := map[int64]bool{}
			for _, c := range om.cells() {
				if e.pathMatch(c.p, a.p, ix) {
					if k, ok := e.constIdx(c.p); ok {
						n[k] = true
					}
				}
			}
			full = true
			for k := ix.lo; k <= ix.hi; k++ {
				if !n[k] {
					full = false
				}
			}
		}
		if !full {
			r = e.defaultVal(st, a, t)
		}
	}
	if om != nil {
		j := &JC{thr: e.thr}
		for _, c := range om.cells() {
			if c.p != a.p && e.pathMatch(c.p, a.p, ix) {
				r = vJoin(r, c.v, j)
			}
		}
	}
	if r == nil {
		r = vUnknown(t, 0)
	}
	return anon(r)
}

// anon is a copy without identity: the value of some element, not of a known one
func anon(v *V) *V {
	if v.k == KInt && v.lo == v.hi {
		return v
	}
	w := *v
	w.t, w.bits = nil, nil
	if w.k == KInt && w.lo == w.hi {
		w.t = tConst(w.lo)
	}
	return &w
}

func (e *Engine) noteType(a Addr, t types.Type) {
	k := Addr{a.o, e.starPath(a.p)}
	if _, ok := e.cellTypes[k]; !ok {
		e.cellTypes[k] = t
	}
}

func (e *Engine) constIdx(p int32) (int64, bool) {
	for p != 0 {
		if e.paths[p].kind == 'i' {
			return e.paths[p].n, true
		}
		p = e.paths[p].parent
	}
	return 0, false
}

func (e *Engine) load(st *State, p *V, t types.Type) *V {
	if p.k != KPtr || len(p.tg) == 0 || p.top {
		v := vUnknown(t, p.lab)
		if p.k == KPtr && len(p.tg) > 0 {
			j := &JC{thr: e.thr}
			for _, a := range p.tg {
				v = vJoin(v, e.readCell(st, a, p.ix, t), j)
			}
		}
		return v
	}
	if len(p.tg) == 1 {
		v := e.readCell(st, p.tg[0], p.ix, t)
		if len(e.free) > 0 && e.free[p.tg[0]] {
			w := *v
			return &w
		}
		return v
	}
	var r *V
	j := &JC{thr: e.thr}
	for _, a := range p.tg {
		r = vJoin(r, e.readCell(st, a, p.ix, t), j)
	}
	return anon(r)
}

func (e *Engine) writeCell(st *State, a Addr, ix *V, t types.Type, v *V, strong bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			var f *V
			if v.k == KAgg && i < len(v.el) {
				f = v.el[i]
			} else {
				f = vUnknown(u.Field(i).Type(), v.lab)
			}
			e.writeCell(st, Addr{a.o, e.path(a.p, 'f', int64(i))}, ix, u.Field(i).Type(), f, strong)
		}
		return
	case *types.Array:
		if v.k == KAgg && int64(len(v.el)) == u.Len() && !e.pathHas(a.p, '*') {
			for i := range v.el {
				e.writeCell(st, Addr{a.o, e.path(a.p, 'i', int64(i))}, ix, u.Elem(), v.el[i], strong)
			}
			return
		}
		e.havocUnder(st, a, v.lab, u.Elem())
		return
	}
	o := e.objs[a.o]
	e.ensureObj(st, o)
	e.dropContent(st, a)
	e.noteType(a, t)
	if e.pathHas(a.p, '*') {
		// weak on the star cell and every const cell it may select
		j := &JC{thr: e.thr}
		old, ok := e.lookup(st, a)
		if !ok {
			old = e.defaultVal(st, a, t)
		}
		e.putCell(st, a, anon(vJoin(old, v, j)))
		var n *ObjMem
		for i, c := range st.om(a.o).cells() {
			if c.p != a.p && e.pathMatch(c.p, a.p, ix) {
				if n == nil {
					n = &ObjMem{c: append([]cell(nil), st.om(a.o).cells()...)}
				}
				n.c[i].v = anon(vJoin(c.v, v, j))
			}
		}
		if n != nil {
			e.setOM(st, a.o, n)
		}
		return
	}
	if strong && !o.summary {
		e.setOM(st, a.o, st.om(a.o).put(a.p, v))
		return
	}
	old := e.readCell(st, a, nil, t)
	e.putCell(st, a, anon(vJoin(old, v, &JC{thr: e.thr})))
}

// string content cached for a byte array becomes invalid on element writes
func (e *Engine) dropContent(st *State, a Addr) {
	om := st.om(a.o)
	if om == nil || om.ns {
		return
	}
	for _, c := range om.cells() {
		if e.paths[c.p].kind == 's' {
			n := &ObjMem{}
			for _, d := range om.cells() {
				if e.paths[d.p].kind != 's' {
					n.c = append(n.c, d)
				}
			}
			e.setOM(st, a.o, n)
			return
		}
	}
	om.ns = true
}

// everything below an address becomes unknown
func (e *Engine) havocUnder(st *State, a Addr, lab uint64, elem types.Type) {
	om := st.om(a.o)
	n := &ObjMem{}
	if om != nil {
		for _, c := range om.cells() {
			if !e.under(c.p, a.p) {
				n.c = append(n.c, c)
			}
		}
	}
	if elem != nil {
		sp := e.path(a.p, '*', 0)
		if _, isS := elem.Underlying().(*types.Struct); !isS {
			n = n.with(sp, vUnknown(elem, lab))
			e.noteType(Addr{a.o, sp}, elem)
		}
	}
	e.setOM(st, a.o, n)
}
func (e *Engine) under(p, q int32) bool {
	for {
		if p == q {
			return true
		}
		if p == 0 {
			return false
		}
		p = e.paths[p].parent
	}
}

func (e *Engine) store(st *State, p *V, t types.Type, v *V) {
	if p.k != KPtr || p.top && len(p.tg) == 0 {
		return // unknown target: outside the modelled heap
	}
	strong := len(p.tg) == 1 && !p.top
	for _, a := range p.tg {
		e.writeCell(st, a, p.ix, t, v, strong)
	}
}

// ---- joins of states ----

// join of two cells that keeps the meaning of pointer identity: equal
// pointers in one state denote equal run-time values.
func (j *JC) join(a, b *V) (*V, bool) {
	if a.k == KInt && a.lo == a.hi && b.k == KInt && b.lo == a.lo && b.hi == a.hi && vEq(a, b) {
		return a, false
	}
	if j.first == nil {
		j.first = map[*V]*V{}
		j.memo = map[[2]*V]*V{}
	}
	k := [2]*V{a, b}
	if r, ok := j.memo[k]; ok {
		return r, r != a
	}
	var r *V
	if a == b {
		r = a
	} else {
		r = vJoin(a, b, j)
	}
	if r == a || vEq(r, a) {
		f := j.first[a]
		if f == nil || f == b {
			j.first[a] = b
			j.memo[k] = a
			return a, false
		}
		c := *a
		j.memo[k] = &c
		return &c, true
	}
	c := *r
	j.memo[k] = &c
	return &c, true
}

func (e *Engine) joinMem(a, b *State, j *JC) ([]*ObjMem, bool) {
	changed := false
	n := max(len(a.mem), len(b.mem))
	out := make([]*ObjMem, n)
	for i := 0; i < n; i++ {
		id := int32(i)
		oa, ob := a.om(id), b.om(id)
		if oa == ob {
			out[i] = oa
			continue
		}
		dyn := e.objs[id].dyn
		if oa == nil {
			if dyn {
				out[i] = ob
				changed = true
				continue
			}
			oa = &ObjMem{}
		}
		if ob == nil {
			if dyn {
				out[i] = oa
				continue
			}
			ob = &ObjMem{}
		}
		ca := oa.snap()
		cb := ob.snap()
		m := &ObjMem{c: make([]cell, 0, len(ca))}
		diff := false
		x, y := 0, 0
		for x < len(ca) || y < len(cb) {
			switch {
			case y >= len(cb) || x < len(ca) && ca[x].p < cb[y].p:
				c := ca[x]
				x++
				if e.paths[c.p].kind == 's' || e.paths[c.p].kind == 'k' {
					if e.paths[c.p].kind == 'k' {
						m.c = append(m.c, cell{c.p, vTop(c.v.lab)})
					}
					diff = true
					continue
				}
				w := e.missing(b, Addr{id, c.p}, c.v)
				if w == nil {
					diff = true
					continue
				}
				z, ch := j.join(c.v, w)
				diff = diff || ch
				m.c = append(m.c, cell{c.p, z})
			case x >= len(ca) || cb[y].p < ca[x].p:
				c := cb[y]
				y++
				if e.paths[c.p].kind == 's' {
					continue
				}
				if e.paths[c.p].kind == 'k' {
					m.c = append(m.c, cell{c.p, vTop(c.v.lab)})
					diff = true
					continue
				}
				w := e.missing(a, Addr{id, c.p}, c.v)
				if w == nil {
					continue
				}
				z, ch := j.join(w, c.v)
				if !ch && (z == w || vEq(z, w)) {
					continue // adds nothing; keep it absent
				}
				diff = true
				m.c = append(m.c, cell{c.p, z})
			default:
				c, d := ca[x], cb[y]
				x++
				y++
				z, ch := j.join(c.v, d.v)
				diff = diff || ch
				m.c = append(m.c, cell{c.p, z})
			}
		}
		if diff {
			changed = true
			out[i] = m
		} else {
			out[i] = a.om(id)
		}
	}
	return out, changed
}

// the value of a cell that a state does not hold explicitly
func (e *Engine) missing(s *State, a Addr, like *V) *V {
	t := e.cellTypes[Addr{a.o, e.starPath(a.p)}]
	if t == nil {
		return nil
	}
	if e.pathHas(a.p, 'i') && !e.pathHas(a.p, '*') {
		if v, ok := e.lookup(s, Addr{a.o, e.starPath(a.p)}); ok {
			return v
		}
	}
	return e.defaultVal(s, a, t)
}

func (e *Engine) joinFrames(a, b *State, j *JC) ([]*Frame, bool) {
	changed := false
	out := make([]*Frame, len(a.frames))
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			out[i] = fa
			continue
		}
		r := make([]*V, len(fa.regs))
		diff := false
		for k, x := range fa.regs {
			if x == nil {
				continue
			}
			y := fb.regs[k]
			if y == nil {
				diff = true // not live here
				continue
			}
			z, ch := j.join(x, y)
			diff = diff || ch
			r[k] = z
		}
		if diff {
			changed = true
			out[i] = &Frame{regs: r, defers: fa.defers, fn: fa.fn, lv: fa.lv, unr: fa.unr}
		} else {
			out[i] = fa
		}
	}
	return out, changed
}

var coarseThr = []int64{negInf, -65536, -1, 0, 1, 255, 4096, 65535, 131072, 1 << 33, posInf}

// join b into a; a is replaced. reports whether anything changed.
func (e *Engine) joinState(a, b *State, site string, wl int) (*State, bool) {
	j := &JC{widen: wl > 0, thr: e.thr, site: site}
	if wl == 2 {
		j.thr = coarseThr
	} else if wl > 2 {
		j.thr = nil
	}
	if e.cfg.Terms {
		j.term = e.termJoiner(site)
	}
	fr, c2 := e.joinFrames(a, b, j)
	mem, c1 := e.joinMem(a, b, j)
	if !c1 && !c2 {
		return a, false
	}
	return &State{mem: mem, frames: fr, ts: a.ts, tsk: a.tsk, tr: a.tr, pan: a.pan}, true
}

func (o *ObjMem) without(p int32) *ObjMem {
	n := &ObjMem{}
	for _, c := range o.cells() {
		if c.p != p {
			n.c = append(n.c, c)
		}
	}
	return n
}

// linearTable is an element of a table of constants T with T[i^j] = T[i]^T[j],
// selected by an index whose bits are known
func (e *Engine) linearTable(om *ObjMem, a Addr, ix *V, t types.Type) *V {
	n, _, ok := intInfo(t)
	if !ok || om == nil || ix == nil || ix.k != KInt || len(ix.bits) == 0 || ix.lo < 0 || ix.hi > 255 || e.paths[a.p].kind != '*' {
		return nil
	}
	for _, b := range ix.bits {
		if b.top {
			return nil
		}
	}
	tab := make([]int64, 256)
	have := make([]bool, 256)
	par := e.paths[a.p].parent
	for _, c := range om.cells() {
		p := e.paths[c.p]
		if p.kind == 'i' && p.parent == par && p.n < 256 {
			k, ok := c.v.isConst()
			if !ok {
				return nil
			}
			tab[p.n], have[p.n] = k, true
		}
	}
	if om.get(a.p) != nil || tab[0] != 0 {
		return nil
	}
	have[0] = true
	for i := range tab {
		if !have[i] {
			return nil
		}
		if x := i & (i - 1); x != 0 && tab[i] != tab[x]^tab[i&-i] {
			return nil
		}
	}
	r := make([]Bit, n)
	hi := int64(0)
	for k := 0; k < 8; k++ {
		hi |= tab[1<<k]
	}
	for j := range r {
		r[j] = bConst(0)
		for k := 0; k < 8 && k < len(ix.bits); k++ {
			if tab[1<<k]>>j&1 != 0 {
				r[j] = bXor(r[j], ix.bits[k])
			}
		}
	}
	if c, ok := constBits(r, n, false); ok {
		return vInt(c)
	}
	return &V{k: KInt, lo: 0, hi: int64(1)<<bits.Len64(uint64(hi)) - 1, bits: r}
}

// affineTable is an element of a table of constants selected by an index some bits
// of which are known: each bit of the element is a sum of unknown bits of the index
func (e *Engine) affineTable(st *State, om *ObjMem, a Addr, ix *V, t types.Type) *V {
	n, _, ok := intInfo(t)
	if !e.cfg.Exact || !ok || om == nil || ix == nil || ix.k != KInt || len(ix.bits) == 0 || ix.lo < 0 || ix.hi >= 1<<17 || e.paths[a.p].kind != '*' || om.get(a.p) != nil {
		return nil
	}
	base := int64(0)
	var free []int
	for k, b := range ix.bits {
		switch {
		case b.top:
			return nil
		case b.isConst():
			base |= int64(b.c) << k
		default:
			free = append(free, k)
		}
	}
	if len(free) == 0 || len(free) > 12 || ix.bits[len(ix.bits)-1].top {
		return nil
	}
	par := e.paths[a.p].parent
	at := func(m int) (int64, bool) {
		k := base
		for i, f := range free {
			if m>>i&1 != 0 {
				k |= 1 << f
			}
		}
		v := e.readCell(st, Addr{a.o, e.path(par, 'i', k)}, nil, t)
		return v.isConst()
	}
	tab := make([]int64, 1<<len(free))
	for m := range tab {
		if tab[m], ok = at(m); !ok || tab[m] < 0 {
			return nil
		}
		if x := m & (m - 1); x != 0 && tab[m] != tab[x]^tab[m&-m]^tab[0] {
			return nil
		}
	}
	r := make([]Bit, n)
	hi := tab[0]
	for j := range r {
		r[j] = bConst(uint8(tab[0] >> j & 1))
		for i, f := range free {
			if d := tab[1<<i] ^ tab[0]; d>>j&1 != 0 {
				r[j] = bXor(r[j], ix.bits[f])
				hi |= 1 << j
			}
		}
	}
	if c, ok := constBits(r, n, false); ok {
		return vInt(c)
	}
	return &V{k: KInt, lo: 0, hi: int64(1)<<bits.Len64(uint64(hi)) - 1, bits: r}
}
