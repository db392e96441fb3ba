package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- liveness ----

type liveness struct {
	fn     *ssa.Function
	num    map[ssa.Value]int
	vals   []ssa.Value
	in     [][]bool // by block index
	out    [][]bool
	last   [][]int // by block index: last instruction using the value, -1 none
	phis   [][]int // phi registers of the block
	rpo    []int
	header []bool
	keys   []int // bool and error registers
	always []bool
	loop   map[int][]bool // by header: the blocks of its loop
}

func computeLiveness(fn *ssa.Function) *liveness {
	lv := &liveness{fn: fn, num: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		lv.num[v] = len(lv.vals)
		lv.vals = append(lv.vals, v)
		if isBoolType(v.Type()) || isErrorType(v.Type()) {
			lv.keys = append(lv.keys, len(lv.vals)-1)
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	nb := len(fn.Blocks)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(lv.vals)
	lv.always = make([]bool, n)
	if fn.Recover != nil {
		for _, i := range fn.Recover.Instrs {
			for _, op := range i.Operands(nil) {
				if *op != nil {
					if r, ok := lv.num[*op]; ok {
						lv.always[r] = true
					}
				}
			}
		}
	}
	lv.in = make([][]bool, nb)
	lv.out = make([][]bool, nb)
	lv.last = make([][]int, nb)
	lv.phis = make([][]int, nb)
	use := make([][]bool, nb)
	def := make([][]bool, nb)
	for _, b := range fn.Blocks {
		k := b.Index
		lv.in[k] = make([]bool, n)
		lv.out[k] = make([]bool, n)
		use[k] = make([]bool, n)
		def[k] = make([]bool, n)
		lv.last[k] = make([]int, n)
		for i := range lv.last[k] {
			lv.last[k][i] = -1
		}
		for i, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				lv.phis[k] = append(lv.phis[k], lv.num[phi])
				def[k][lv.num[phi]] = true
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				if r, ok := lv.num[*op]; ok {
					if !def[k][r] {
						use[k][r] = true
					}
					lv.last[k][r] = i
				}
			}
			if iff, ok := ins.(*ssa.If); ok {
				// what the condition was computed from is refined by the branch
				var ext func(v ssa.Value, d int)
				ext = func(v ssa.Value, d int) {
					if d > 3 {
						return
					}
					in, ok := v.(ssa.Instruction)
					if !ok || in.Block() != b {
						return
					}
					switch v.(type) {
					case *ssa.BinOp, *ssa.UnOp, *ssa.Convert:
						for _, op := range in.Operands(nil) {
							if r, ok := lv.num[*op]; ok {
								lv.last[k][r] = i
								ext(*op, d+1)
							}
						}
					}
				}
				ext(iff.Cond, 0)
			}
			if v, ok := ins.(ssa.Value); ok {
				def[k][lv.num[v]] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			o := lv.out[bi]
			for _, s := range b.Succs {
				for r, x := range lv.in[s.Index] {
					if x && !o[r] {
						o[r] = true
						ch = true
					}
				}
				pi := predIndex(s, b)
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for ei, ed := range phi.Edges {
						if s.Preds[ei] != b && ei != pi {
							continue
						}
						if r, ok := lv.num[ed]; ok && !o[r] {
							o[r] = true
							ch = true
						}
					}
				}
			}
			for r := range o {
				x := use[bi][r] || o[r] && !def[bi][r]
				if x && !lv.in[bi][r] {
					lv.in[bi][r] = true
					ch = true
				}
			}
		}
	}
	// reverse postorder, loop headers
	lv.rpo = make([]int, nb)
	lv.header = make([]bool, nb)
	seen := make([]int, nb)
	c := nb
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = 1
		for k := len(b.Succs) - 1; k >= 0; k-- {
			s := b.Succs[k]
			if seen[s.Index] == 0 {
				dfs(s)
			} else if seen[s.Index] == 1 {
				lv.header[s.Index] = true
			}
		}
		seen[b.Index] = 2
		c--
		lv.rpo[b.Index] = c
	}
	if nb > 0 {
		dfs(fn.Blocks[0])
	}
	lv.loop = map[int][]bool{}
	for h := range lv.header {
		if !lv.header[h] {
			continue
		}
		in := make([]bool, nb)
		in[h] = true
		var back func(b *ssa.BasicBlock)
		back = func(b *ssa.BasicBlock) {
			if in[b.Index] || seen[b.Index] == 0 {
				return
			}
			in[b.Index] = true
			for _, p := range b.Preds {
				back(p)
			}
		}
		for _, p := range fn.Blocks[h].Preds {
			if lv.rpo[p.Index] >= lv.rpo[h] {
				back(p)
			}
		}
		lv.loop[h] = in
	}
	return lv
}
func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

var liveMu sync.Mutex

func (e *Engine) lvOf(fn *ssa.Function) *liveness {
	liveMu.Lock()
	l, ok := e.live[fn]
	liveMu.Unlock()
	if ok {
		return l
	}
	l = computeLiveness(fn)
	liveMu.Lock()
	e.live[fn] = l
	liveMu.Unlock()
	return l
}

// ---- partition keys ----

func (e *Engine) omKey(id int32, om *ObjMem) string {
	if om.ok {
		return om.kk
	}
	var sb strings.Builder
	for _, c := range om.cells() {
		switch c.v.k {
		case KInt:
			if c.v.lo == c.v.hi && (c.v.lo == 0 || c.v.lo == 1) {
				if e.pathHas(c.p, '*') || e.pathHas(c.p, 'i') {
					continue
				}
				if t := e.cellTypes[Addr{id, c.p}]; t != nil && isBoolType(t) && !e.free[Addr{id, c.p}] {
					fmt.Fprintf(&sb, "%d.%d=%d,", id, c.p, c.v.lo)
				}
			}
		case KIface:
			if c.v.nn != maybeNil {
				if t := e.cellTypes[Addr{id, c.p}]; t != nil && isErrorType(t) {
					fmt.Fprintf(&sb, "%d.%d~%d,", id, c.p, c.v.nn)
				}
			}
		}
	}
	om.kk = sb.String()
	om.ok = true
	return om.kk
}

func (e *Engine) memKey(st *State) string {
	var sb strings.Builder
	for id, om := range st.mem {
		if om != nil && !e.objs[id].summary {
			sb.WriteString(e.omKey(int32(id), om))
		}
	}
	return sb.String()
}

func valKey(v *V) string {
	switch v.k {
	case KInt:
		if v.lo == v.hi {
			return strconv.FormatInt(v.lo, 10)
		}
	case KIface:
		if v.nn != maybeNil {
			return "n" + strconv.Itoa(int(v.nn)) + "e" + strconv.Itoa(int(v.ec))
		}
	}
	return ""
}

func (e *Engine) stateKey(st *State, coarse bool) string {
	var sb strings.Builder
	sb.WriteString(st.tsk)
	if st.pan != nil {
		sb.WriteString("!P")
	}
	f := st.top()
	for _, d := range f.defers {
		fmt.Fprintf(&sb, "D%d", e.iid(d.instr))
	}
	if e.cfg.Key != nil {
		sb.WriteString("|" + e.cfg.Key(st))
	}
	if coarse {
		return sb.String()
	}
	sb.WriteByte('|')
	for _, r := range f.lv.keys {
		if v := f.regs[r]; v != nil {
			if k := valKey(v); k != "" {
				fmt.Fprintf(&sb, "r%d:%s,", r, k)
			}
		}
	}
	sb.WriteByte('|')
	sb.WriteString(e.memKey(st))
	return sb.String()
}

func (e *Engine) iid(i ssa.Instruction) int {
	if n, ok := e.instrID[i]; ok {
		return n
	}
	n := len(e.instrID)
	e.instrID[i] = n
	return n
}

// ---- running a function ----

var dbgFn = os.Getenv("LHADBG")

type item struct {
	blk *ssa.BasicBlock
	key string
}

type budgetErr struct{}

func (e *Engine) ctx(up *Act, call ssa.Instruction, fn *ssa.Function) int32 {
	u := int32(-1)
	if up != nil {
		u = up.ctx
	}
	k := ctxKey{u, call, fn}
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := int32(len(e.ctxs))
	e.ctxs[k] = c
	return c
}

// callFn analyses fn from st (which it owns) and returns the merged outcomes.
func (e *Engine) callFn(up *Act, call ssa.Instruction, fn *ssa.Function, args []*V, bind []*V, st *State) []*Out {
	depth := 0
	for a := up; a != nil; a = a.up {
		if a.fn == fn {
			depth++
		}
	}
	if depth >= 12 || depth >= 2 && !e.cfg.Exact {
		e.recCut[fn.Name()]++
		return nil // deeper recursion repeats the same body
	}
	act := &Act{fn: fn, ctx: e.ctx(up, call, fn), up: up, call: call}
	ev := &Ev{e: e, act: up, st: st, instr: call, name: fn.Name(), fn: fn, args: args}
	if up == nil {
		ev.act = act
	}
	if e.cfg.Enter != nil {
		if outs := e.cfg.Enter(ev); outs != nil {
			return e.mergeOuts(act, outs)
		}
	}
	var outs []*Out
	if e.cfg.MayPanic != nil && e.cfg.MayPanic(fn) {
		p := st.clone()
		p.pan = &panicInfo{site: fn.Name()}
		p.note("%s: panic inside %s", e.posOrFn(call, fn), fn.Name())
		outs = append(outs, &Out{st: p, panic: true})
	}
	e.fnsSeen[fn] = true
	lv := e.lvOf(fn)
	fr := &Frame{regs: make([]*V, len(lv.vals)), fn: fn, lv: lv}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.regs[lv.num[p]] = args[i]
		} else {
			fr.regs[lv.num[p]] = vUnknown(p.Type(), 0)
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			fr.regs[lv.num[p]] = bind[i]
		} else {
			fr.regs[lv.num[p]] = vUnknown(p.Type(), 0)
		}
	}
	n := st.clone()
	n.frames = append(n.frames, fr)
	res := e.runBody(act, n)
	for _, o := range res {
		o.st.frames = o.st.frames[:len(o.st.frames)-1]
		e.gc(o.st, o.res)
		outs = append(outs, o)
	}
	outs = e.mergeOuts(act, outs)
	if e.cfg.Leave != nil {
		for _, o := range outs {
			ev := &Ev{e: e, act: up, st: o.st, instr: call, name: fn.Name(), fn: fn, args: args}
			if up == nil {
				ev.act = act
			}
			e.cfg.Leave(ev, o)
		}
		outs = e.mergeOuts(act, outs)
	}
	return outs
}

func (e *Engine) posOrFn(i ssa.Instruction, fn *ssa.Function) string {
	if i == nil {
		return fn.Name()
	}
	return e.pos(i)
}

func (e *Engine) mergeOuts(act *Act, outs []*Out) []*Out {
	if len(outs) < 2 {
		return outs
	}
	var order []string
	m := map[string]*Out{}
	for _, o := range outs {
		k := o.cls + "|" + o.st.tsk + "|"
		if o.panic {
			k += "P|"
		} else {
			for i, r := range o.res {
				t := ""
				if r.k == KInt && act.fn != nil && i < act.fn.Signature.Results().Len() {
					if isBoolType(act.fn.Signature.Results().At(i).Type()) {
						t = valKey(r)
					} else if r.lo == r.hi && e.constResults(act.fn) {
						t = valKey(r)
					}
				} else if r.k == KIface {
					t = valKey(r)
				} else if r.k == KPtr || r.k == KSlice {
					t = strconv.Itoa(int(r.nn))
				}
				k += t + ","
			}
		}
		if e.cfg.Key != nil {
			k += "|" + e.cfg.Key(o.st)
		}
		if len(m) < e.cfg.MaxPart {
			k += "|" + e.memKey(o.st)
		}
		if p, ok := m[k]; ok {
			m[k] = e.joinOut(p, o, act)
		} else {
			m[k] = o
			order = append(order, k)
		}
	}
	r := make([]*Out, len(order))
	for i, k := range order {
		r[i] = m[k]
	}
	return r
}

// functions that return small constants: their results stay apart
func (e *Engine) constResults(fn *ssa.Function) bool {
	if b, ok := e.constRes[fn]; ok {
		return b
	}
	n, all := 0, true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if r, ok := i.(*ssa.Return); ok {
				for _, v := range r.Results {
					if _, _, isI := intInfo(v.Type()); isI {
						if _, c := v.(*ssa.Const); c {
							n++
						}
					}
				}
			}
		}
	}
	r := all && n > 0 && n <= 24
	e.constRes[fn] = r
	return r
}

func (e *Engine) joinOut(a, b *Out, act *Act) *Out {
	site := fmt.Sprintf("x%d", act.ctx)
	j := &JC{thr: e.thr, site: site}
	if e.cfg.Terms {
		j.term = e.termJoiner(site)
	}
	r := &Out{cls: a.cls, panic: a.panic}
	for i := range a.res {
		v, _ := j.join(a.res[i], b.res[i])
		r.res = append(r.res, v)
	}
	fr, _ := e.joinFrames(a.st, b.st, j)
	mem, _ := e.joinMem(a.st, b.st, j)
	r.st = &State{mem: mem, frames: fr, ts: a.st.ts, tsk: a.st.tsk, tr: a.st.tr, pan: a.st.pan}
	return r
}

// drop objects nothing refers to any more
func (e *Engine) gc(st *State, res []*V) {
	mark := make([]bool, len(e.objs))
	var todo []int32
	var visit func(v *V)
	visit = func(v *V) {
		if v == nil {
			return
		}
		for _, a := range v.tg {
			if !mark[a.o] {
				mark[a.o] = true
				todo = append(todo, a.o)
			}
		}
		for _, x := range v.dv {
			visit(x)
		}
		for _, x := range v.el {
			visit(x)
		}
		for _, c := range v.fn {
			for _, x := range c.bind {
				visit(x)
			}
			visit(c.recv)
		}
	}
	for _, v := range res {
		visit(v)
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, v := range d.args {
				visit(v)
			}
		}
	}
	for id, om := range st.mem {
		if om != nil && !e.objs[id].dyn && !mark[id] {
			mark[id] = true
			todo = append(todo, int32(id))
		}
	}
	for len(todo) > 0 {
		o := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if om := st.om(o); om != nil && !om.plain() {
			for _, c := range om.cells() {
				visit(c.v)
			}
		}
	}
	for id, om := range st.mem {
		if om != nil && e.objs[id].dyn && !mark[id] {
			st.own(0)
			st.mem[id] = nil
		}
	}
}

func (e *Engine) referenced(st *State, o int32) bool {
	hit := false
	var visit func(v *V)
	visit = func(v *V) {
		if v == nil || hit {
			return
		}
		for _, a := range v.tg {
			if a.o == o {
				hit = true
				return
			}
		}
		for _, x := range v.dv {
			visit(x)
		}
		for _, x := range v.el {
			visit(x)
		}
		for _, c := range v.fn {
			for _, x := range c.bind {
				visit(x)
			}
			visit(c.recv)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, v := range d.args {
				visit(v)
			}
		}
	}
	for id, om := range st.mem {
		if om == nil || int32(id) == o || om.plain() {
			continue
		}
		for _, c := range om.cells() {
			visit(c.v)
		}
	}
	return hit
}

// a new object for an allocation site; an older one still in use ages
func (e *Engine) alloc(st *State, act *Act, instr ssa.Instruction, tag string, t types.Type) *Obj {
	key := fmt.Sprintf("a%d:%d%s", act.ctx, e.iid(instr), tag)
	o := e.obj(key, func(x *Obj) { x.typ = t; x.dyn = true; x.site = instr; x.fn = act.fn })
	for k := 1; e.cfg.Exact && k < 200 && st.om(o.id) != nil && e.referenced(st, o.id); k++ {
		o = e.obj(fmt.Sprintf("%s#%d", key, k), func(x *Obj) { x.typ = t; x.dyn = true; x.site = instr; x.fn = act.fn })
	}
	if st.om(o.id) != nil && e.referenced(st, o.id) {
		old := e.obj(key+"~", func(x *Obj) {
			x.typ = t
			x.dyn = true
			x.summary = true
			x.site = instr
			x.fn = act.fn
		})
		e.rename(st, o.id, old.id)
	}
	e.setOM(st, o.id, &ObjMem{})
	if e.cfg.OnAlloc != nil {
		e.cfg.OnAlloc(st, o)
	}
	return o
}

func (e *Engine) rename(st *State, from, to int32) {
	var sub func(v *V) *V
	sub = func(v *V) *V {
		if v == nil {
			return nil
		}
		w := v
		cp := func() {
			if w == v {
				x := *v
				w = &x
			}
		}
		for _, a := range v.tg {
			if a.o == from {
				cp()
				var tg []Addr
				for _, b := range v.tg {
					if b.o == from {
						b.o = to
					}
					tg = addrsJoin(tg, []Addr{b})
				}
				w.tg = tg
				break
			}
		}
		for i, x := range v.dv {
			if y := sub(x); y != x {
				cp()
				if &w.dv[0] == &v.dv[0] {
					w.dv = append([]*V(nil), v.dv...)
				}
				w.dv[i] = y
			}
		}
		for i, x := range v.el {
			if y := sub(x); y != x {
				cp()
				if &w.el[0] == &v.el[0] {
					w.el = append([]*V(nil), v.el...)
				}
				w.el[i] = y
			}
		}
		for i, c := range v.fn {
			var nb []*V
			for q, x := range c.bind {
				if y := sub(x); y != x {
					if nb == nil {
						nb = append([]*V(nil), c.bind...)
					}
					nb[q] = y
				}
			}
			if nb != nil {
				cp()
				if &w.fn[0] == &v.fn[0] {
					w.fn = append([]*Closure(nil), v.fn...)
				}
				w.fn[i] = &Closure{fn: c.fn, bind: nb, recv: c.recv}
			}
		}
		return w
	}
	oldm := st.om(from)
	e.mapState(st, sub)
	oldm = st.om(from)
	if prev := st.om(to); prev != nil {
		j := &JC{thr: e.thr}
		n := prev
		for _, c := range oldm.snap() {
			if e.paths[c.p].kind == 's' && prev.get(c.p) == nil {
				continue
			}
			if p := prev.get(c.p); p != nil {
				n = n.with(c.p, anon(vJoin(p, c.v, j)))
			} else if d := e.missing(st, Addr{to, c.p}, c.v); d != nil {
				n = n.with(c.p, anon(vJoin(d, c.v, j)))
			}
		}
		for _, c := range prev.snap() {
			if oldm.get(c.p) == nil {
				if e.paths[c.p].kind == 's' {
					n = n.without(c.p)
					continue
				}
				if d := e.missing(st, Addr{from, c.p}, c.v); d != nil {
					n = n.with(c.p, anon(vJoin(c.v, d, j)))
				}
			}
		}
		e.setOM(st, to, n)
	} else {
		e.setOM(st, to, oldm)
		for _, c := range oldm.snap() {
			if t := e.cellTypes[Addr{from, e.starPath(c.p)}]; t != nil {
				e.noteType(Addr{to, c.p}, t)
			}
		}
	}
	e.setOM(st, from, nil)
}

var profSteps map[string]int

func (e *Engine) runBody(act *Act, st *State) []*Out {
	fn := act.fn
	lv := e.lvOf(fn)
	nb := len(fn.Blocks)
	ins := make([]map[string]*State, nb)
	joins := make([]map[string]int, nb)
	dirty := make([]map[string]bool, nb)
	order := make([]int, nb) // rpo position -> block
	for i := range order {
		order[i] = -1
	}
	for b := 0; b < nb; b++ {
		ins[b] = map[string]*State{}
		joins[b] = map[string]int{}
		dirty[b] = map[string]bool{}
		if lv.rpo[b] < nb && fn.Blocks[b] != nil {
			if b == 0 || lv.rpo[b] > 0 {
				order[lv.rpo[b]] = b
			}
		}
	}
	outsBy := map[string][]*Out{}
	passes := make([]int, nb)
	add := func(b *ssa.BasicBlock, s *State) {
		k := ""
		if len(b.Preds) > 0 { // nothing else ever comes to the entry
			k = e.stateKey(s, len(ins[b.Index]) >= e.cfg.MaxPart)
		}
		f := s.top()
		if lv.header[b.Index] {
			u := e.unrollKey(act, b, s, len(ins[b.Index]))
			c := 0
			if fmt.Sscanf(u, "#i%d", &c); c > passes[b.Index] {
				passes[b.Index] = c
			}
			if u != f.unr[b.Index] {
				m := map[int]string{}
				for h, x := range f.unr {
					m[h] = x
				}
				m[b.Index] = u
				s = s.clone()
				f = s.top()
				f.unr = m
			}
		}
		if len(f.unr) > 0 {
			var hs []int
			for h, u := range f.unr {
				if u != "" && lv.loop[h][b.Index] {
					hs = append(hs, h)
				}
			}
			sort.Ints(hs)
			for _, h := range hs {
				k += f.unr[h]
			}
		}
		old, ok := ins[b.Index][k]
		if !ok {
			ins[b.Index][k] = s
			dirty[b.Index][k] = true
			return
		}
		site := fmt.Sprintf("b%d:%d", act.ctx, b.Index)
		w := 0
		if lv.header[b.Index] {
			switch jn := joins[b.Index][k] + 1; {
			case e.cfg.Fast && jn > 3:
				w = 3
			case e.cfg.Fast && jn > 1:
				w = 2
			case jn > 14:
				w = 3
			case jn > 8:
				w = 2
			case jn > 2:
				w = 1
			}
		}
		if dbgFn == "joins" {
			fmt.Println("JOIN", fn.Name(), b.Index, b.Comment, k)
		}
		n, ch := e.joinAt(old, s, site, w)
		if ch {
			joins[b.Index][k]++
		}
		if joins[b.Index][k] > 60 && ch {
			// force stability
			if dbgFn != "" {
				e.dumpDiff(fn.Name(), b.Index, old, n)
			}
			n = e.topUnstable(old, n)
			e.forced[fn.Name()]++
			if joins[b.Index][k] > 200 {
				panic(fmt.Sprintf("no fixpoint in %s block %d", fn.Name(), b.Index))
			}
		}
		if ch {
			ins[b.Index][k] = n
			dirty[b.Index][k] = true
		}
	}
	add(fn.Blocks[0], st)
	for {
		bi := -1
		for _, b := range order {
			if b >= 0 && len(dirty[b]) > 0 {
				bi = b
				break
			}
		}
		if bi < 0 {
			break
		}
		var keys []string
		for k := range dirty[bi] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		k := keys[0]
		delete(dirty[bi], k)
		s := ins[bi][k].clone()
		ins[bi][k].cow = true
		e.steps++
		if profSteps != nil {
			profSteps[fmt.Sprintf("%s.%d", fn.Name(), bi)]++
		}
		if e.steps > e.cfg.Budget || halted.Load() != 0 {
			panic(budgetErr{})
		}
		// outcomes of superseded iterations are covered by later ones
		if e.cfg.Exact && e.idle(dirty) {
			outsBy[fmt.Sprintf("%04d/%s", bi, k)] = e.lane(act, fn.Blocks[bi], s, add, passes)
		} else {
			outsBy[fmt.Sprintf("%04d/%s", bi, k)] = e.runBlock(act, fn.Blocks[bi], s, add)
		}
	}
	var ks []string
	for k := range outsBy {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var outs []*Out
	for _, k := range ks {
		outs = append(outs, outsBy[k]...)
	}
	return outs
}

func (e *Engine) idle(dirty []map[string]bool) bool {
	for _, d := range dirty {
		if len(d) > 0 {
			return false
		}
	}
	return true
}

// lane follows the only path there is, without looking for states to join it with,
// until it forks
func (e *Engine) lane(act *Act, b *ssa.BasicBlock, s *State, add func(*ssa.BasicBlock, *State), passes []int) []*Out {
	lv := e.lvOf(act.fn)
	limit := 40
	if e.cfg.Unroll != nil {
		limit = e.cfg.Unroll(act.fn)
	}
	type pend struct {
		b *ssa.BasicBlock
		s *State
	}
	var next []pend
	var outs []*Out
	passed := map[int]bool{}
	collect := func(b *ssa.BasicBlock, s *State) { next = append(next, pend{b, s}) }
	for {
		next = next[:0]
		outs = append(outs, e.runBlock(act, b, s, collect)...)
		if len(next) == 0 {
			return outs
		}
		if len(next) > 1 || lv.header[next[0].b.Index] && passes[next[0].b.Index] >= limit {
			break
		}
		b, s = next[0].b, next[0].s
		if lv.header[b.Index] {
			passes[b.Index]++
			passed[b.Index] = true
		}
		e.steps++
		if e.steps > e.cfg.Budget || halted.Load() != 0 {
			panic(budgetErr{})
		}
	}
	for _, p := range next {
		f := p.s.top()
		var m map[int]string
		set := func(h int, v string) {
			if f.unr[h] == v {
				return
			}
			if m == nil {
				m = map[int]string{}
				for q, x := range f.unr {
					m[q] = x
				}
			}
			m[h] = v
		}
		for h := range passed {
			if h == b.Index { // the loop is not decided here
				set(h, "")
			} else {
				set(h, fmt.Sprintf("#i%d", passes[h]))
			}
		}
		if m != nil {
			p.s = p.s.clone()
			p.s.top().unr = m
		}
		add(p.b, p.s)
	}
	return outs
}

// cells and registers that keep changing become unknown
func (e *Engine) topUnstable(old, n *State) *State {
	f, g := old.top(), n.top()
	regs := append([]*V(nil), g.regs...)
	for i, v := range g.regs {
		if v != nil && f.regs[i] != nil && !vEq(v, f.regs[i]) {
			regs[i] = forceTop(v, g.lv.vals[i].Type())
		}
	}
	n.frames = append([]*Frame(nil), n.frames...)
	n.frames[len(n.frames)-1] = &Frame{regs: regs, defers: g.defers, fn: g.fn, lv: g.lv, unr: g.unr}
	for id, om := range n.mem {
		oo := old.om(int32(id))
		if om == nil || om == oo {
			continue
		}
		for _, c := range om.snap() {
			p := oo.get(c.p)
			if p == nil || !vEq(p, c.v) {
				if t := e.cellTypes[Addr{int32(id), e.starPath(c.p)}]; t != nil {
					e.putCell(n, Addr{int32(id), c.p}, forceTop(c.v, t))
				}
			}
		}
	}
	return n
}

// an upper bound of v that later joins cannot move any more, except by new targets
func forceTop(v *V, t types.Type) *V {
	w := vUnknown(t, v.lab)
	if v.k == w.k && (v.k == KSlice || v.k == KPtr) {
		w.tg = v.tg
		w.top = true
	}
	return w
}

// loops whose condition is decided for constant counters are unrolled
// pureFn only computes a result from its arguments and variables
func (e *Engine) pureFn(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || len(fn.Blocks) > 16 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Store, *ssa.Call, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.MapUpdate, *ssa.Panic, *ssa.Alloc:
				return false
			}
		}
	}
	return true
}

func (e *Engine) unrollKey(act *Act, b *ssa.BasicBlock, s *State, have int) string {
	limit := 40
	if e.cfg.Unroll != nil {
		limit = e.cfg.Unroll(act.fn)
	}
	if limit == 0 || have >= limit+e.cfg.MaxPart {
		return ""
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return ""
	}
	f := s.top()
	var sb strings.Builder
	sb.WriteString("#")
	n := 0
	for _, r := range f.lv.phis[b.Index] {
		v := f.regs[r]
		if v == nil || v.k != KInt {
			continue
		}
		if v.lo != v.hi {
			continue
		}
		if v.lo > int64(limit) || v.lo < -1 {
			if _, isInt, _ := intInfo(f.lv.vals[r].Type()); isInt {
				continue
			}
		}
		fmt.Fprintf(&sb, "%d=%d,", r, v.lo)
		n++
	}
	// counters kept in memory cannot be seen here; require a phi
	if n == 0 && !e.cfg.Exact {
		return ""
	}
	if e.cfg.Exact {
		// each round of a decided loop on its own
		c := 0
		fmt.Sscanf(f.unr[b.Index], "#i%d", &c)
		if c > limit {
			return ""
		}
		sb.Reset()
		fmt.Fprintf(&sb, "#i%d", c+1)
	}
	t := s.clone()
	for _, i := range b.Instrs {
		switch x := i.(type) {
		case *ssa.Phi:
			continue
		case *ssa.BinOp:
			// a decided comparison with a bound out of reach is not unrolled
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
				if cv := e.constVal(c); cv.k == KInt && cv.lo > int64(limit) {
					return ""
				}
			}
			e.step(act, t, i)
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.ChangeType:
			e.step(act, t, i)
		case *ssa.Call:
			if bl, ok := x.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" {
				e.step(act, t, i)
				continue
			}
			if fn := x.Call.StaticCallee(); e.cfg.Exact && e.pureFn(fn) {
				if os := e.multi(act, t, i); len(os) == 1 && !os[0].panic && len(os[0].res) == 1 {
					t = os[0].st.clone()
					t.setReg(x, os[0].res[0])
					continue
				}
			}
			return ""
		case *ssa.If:
			v := e.val(t, iff.Cond)
			if v.k == KInt && v.lo == v.hi {
				return sb.String()
			}
			if dbgFn == "joins" {
				fmt.Println("UNDECIDED", act.fn.Name(), b.Index, e.pos(x), v, e.val(t, iff.Cond))
				for _, r := range f.lv.phis[b.Index] {
					fmt.Println("   ", f.lv.vals[r].Name(), f.lv.vals[r], f.regs[r])
				}
			}
			return ""
		default:
			return ""
		}
	}
	return ""
}

func (e *Engine) runBlock(act *Act, b *ssa.BasicBlock, s *State, add func(*ssa.BasicBlock, *State)) (outs []*Out) {
	states := []*State{s}
	lv := e.lvOf(act.fn)
	emit := func(o *Out) { outs = append(outs, o) }
	for idx, instr := range b.Instrs {
		if _, ok := instr.(*ssa.Phi); ok {
			continue
		}
		if dbgFn != "" && act.fn.Name() == dbgFn {
			fmt.Printf("DBG b%d %d states %v\n", b.Index, len(states), instr)
		}
		if len(states) == 0 {
			return outs
		}
		switch x := instr.(type) {
		case *ssa.If:
			for _, st := range states {
				e.branch(act, b, x, st, add)
			}
			return outs
		case *ssa.Jump:
			for _, st := range states {
				e.goTo(act, b, b.Succs[0], st, add)
			}
			return outs
		case *ssa.Return:
			for _, st := range states {
				o := &Out{st: st}
				for _, r := range x.Results {
					o.res = append(o.res, e.val(st, r))
				}
				emit(o)
			}
			return outs
		case *ssa.Panic:
			for _, st := range states {
				st.pan = &panicInfo{site: e.pos(x)}
				for _, o := range e.unwind(act, st) {
					emit(o)
				}
			}
			return outs
		case *ssa.Call, *ssa.RunDefers, *ssa.Go, *ssa.Slice, *ssa.TypeAssert, *ssa.MakeSlice:
			var next []*State
			for _, st := range states {
				for _, o := range e.multi(act, st, instr) {
					if o.panic {
						for _, u := range e.unwind(act, o.st) {
							emit(u)
						}
						continue
					}
					o.st = o.st.clone() // outcomes share the caller's frame
					if v, ok := instr.(ssa.Value); ok {
						if len(o.res) == 1 {
							o.st.setReg(v, o.res[0])
						} else {
							if tup, ok := v.Type().(*types.Tuple); ok && tup.Len() == len(o.res) {
								o.st.setReg(v, &V{k: KAgg, el: o.res})
							} else {
								o.st.setReg(v, vUnknown(v.Type(), 0))
							}
						}
					}
					next = append(next, o.st)
				}
			}
			for _, st := range next {
				e.kill(st, lv, b.Index, idx)
			}
			if len(next) > 1 {
				next = e.mergeStates(act, b, idx, next)
			}
			states = next
		default:
			for _, st := range states {
				e.step(act, st, instr)
				e.kill(st, lv, b.Index, idx)
			}
		}
	}
	return outs
}

// registers without a later use
func (e *Engine) kill(st *State, lv *liveness, bi, idx int) {
	f := st.top()
	last, out := lv.last[bi], lv.out[bi]
	for r, v := range f.regs {
		if v != nil && !out[r] && last[r] <= idx && !lv.always[r] {
			f.regs[r] = nil
		}
	}
}

func (e *Engine) mergeStates(act *Act, b *ssa.BasicBlock, idx int, ss []*State) []*State {
	m := map[string]*State{}
	var order []string
	for _, s := range ss {
		k := e.stateKey(s, len(m) >= e.cfg.MaxPart)
		// tuple results still to be taken apart
		f := s.top()
		for r, v := range f.regs {
			if v == nil {
				continue
			}
			if v.k == KAgg {
				if _, ok := f.lv.vals[r].Type().(*types.Tuple); ok {
					for _, x := range v.el {
						if x.k == KInt && x.lo == x.hi && x.lo != 0 && x.lo != 1 {
							continue
						}
						k += "," + valKey(x)
						if x.k == KPtr || x.k == KSlice {
							k += fmt.Sprint(x.nn)
						}
					}
				}
			}
		}
		if c, ok := b.Instrs[idx].(*ssa.Call); ok {
			if v := s.reg(c); v != nil && v.k == KInt {
				if g, ok := c.Call.Value.(*ssa.Function); ok && g.Blocks != nil && e.constResults(g) {
					k += ";" + valKey(v)
				}
			}
		}
		if p, ok := m[k]; ok {
			n, _ := e.joinState(p, s, fmt.Sprintf("m%d:%d:%d", act.ctx, b.Index, idx), 0)
			m[k] = n
		} else {
			m[k] = s
			order = append(order, k)
		}
	}
	r := make([]*State, 0, len(order))
	for _, k := range order {
		s := m[k]
		if s.cow {
			s = s.clone()
		}
		r = append(r, s.clone())
	}
	return r
}

func (e *Engine) edge(act *Act, from, to *ssa.BasicBlock, st *State, add func(*ssa.BasicBlock, *State)) {
	e.goTo(act, from, to, st.clone(), add)
}

// goTo enters a block with a state that is used nowhere else
func (e *Engine) goTo(act *Act, from, to *ssa.BasicBlock, st *State, add func(*ssa.BasicBlock, *State)) {
	f := st.top()
	lv := f.lv
	pi := predIndex(to, from)
	type pv struct {
		r int
		v *V
	}
	var ps []pv
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, pv{lv.num[phi], e.val(st, phi.Edges[pi])})
	}
	in := lv.in[to.Index]
	for r := range f.regs {
		if !in[r] && !lv.always[r] {
			f.regs[r] = nil
		}
	}
	for _, p := range ps {
		f.regs[p.r] = p.v
	}
	add(to, st)
}

// ---- panics and deferred calls ----

func (e *Engine) runDefers(act *Act, st *State) []*State {
	work := []*State{st}
	var done []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		f := s.top()
		if len(f.defers) == 0 {
			done = append(done, s)
			continue
		}
		d := f.defers[len(f.defers)-1]
		n := s.clone()
		nf := n.top()
		nf.defers = append([]*Deferred(nil), f.defers[:len(f.defers)-1]...)
		outs := e.callCommon(act, n, d.instr, d.instr.Common(), d.fn, d.args)
		for _, o := range outs {
			if o.panic {
				o.st.pan = &panicInfo{site: "deferred call"}
			}
			work = append(work, o.st)
		}
	}
	return done
}

func (e *Engine) unwind(act *Act, st *State) []*Out {
	var outs []*Out
	for _, s := range e.runDefers(act, st) {
		if s.pan != nil {
			outs = append(outs, &Out{st: s, panic: true})
			continue
		}
		// recovered: the recover block returns the named results
		if act.fn.Recover == nil {
			o := &Out{st: s}
			for i := 0; i < act.fn.Signature.Results().Len(); i++ {
				o.res = append(o.res, vZero(act.fn.Signature.Results().At(i).Type()))
			}
			outs = append(outs, o)
			continue
		}
		t := s.clone()
		for _, i := range act.fn.Recover.Instrs {
			if r, ok := i.(*ssa.Return); ok {
				o := &Out{st: t}
				for _, v := range r.Results {
					o.res = append(o.res, e.val(t, v))
				}
				outs = append(outs, o)
				break
			}
			e.step(act, t, i)
		}
	}
	return outs
}

func (e *Engine) dumpDiff(fn string, b int, old, n *State) {
	f, g := old.top(), n.top()
	for i, v := range g.regs {
		if v != nil && f.regs[i] != nil && v != f.regs[i] {
			fmt.Printf("DIFF %s b%d reg %s: %v -> %v eq=%v\n", fn, b, g.lv.vals[i].Name(), f.regs[i], v, vEq(v, f.regs[i]))
		}
	}
	for id, om := range n.mem {
		oo := old.om(int32(id))
		if om == nil || om == oo {
			continue
		}
		for _, c := range om.snap() {
			p := oo.get(c.p)
			if p == nil || p != c.v {
				fmt.Printf("DIFF %s b%d obj %s%s: %v -> %v\n", fn, b, e.objs[id].key, e.pathString(c.p), p, c.v)
			}
		}
	}
}
