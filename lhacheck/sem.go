package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) constVal(c *ssa.Const) *V {
	if v, ok := e.consts[c]; ok {
		return v
	}
	v := e.constVal1(c)
	e.consts[c] = v
	return v
}
func (e *Engine) constVal1(c *ssa.Const) *V {
	if c.Value == nil {
		return vZero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return vBool(constant.BoolVal(c.Value))
	case constant.String:
		return vStr(constant.StringVal(c.Value))
	case constant.Int:
		if _, _, ok := intInfo(c.Type()); ok {
			if i, ok := constant.Int64Val(c.Value); ok {
				return vInt(i)
			}
			return vRange(posInf, posInf)
		}
	}
	return vUnknown(c.Type(), 0)
}

func (e *Engine) val(st *State, v ssa.Value) *V {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return vPtr(Addr{e.globalObj(x).id, 0})
	case *ssa.Function:
		return &V{k: KFunc, nn: nonNil, fn: []*Closure{{fn: x}}}
	case *ssa.Builtin:
		return &V{k: KFunc, nn: nonNil}
	}
	r := st.reg(v)
	if r == nil {
		return vUnknown(v.Type(), 0)
	}
	return r
}

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	if o, ok := e.gobj[g]; ok {
		return o
	}
	o := e.obj("g:"+g.String(), func(x *Obj) {
		x.typ = g.Type().(*types.Pointer).Elem()
		x.glob = g
		x.lazy = true
		if e.repo[g.Pkg] && (e.initing || !e.stored[g]) {
			x.lazy = false
		}
		if e.repo[g.Pkg] && x.lazy {
			x.lab = e.cfg.StaleLab
		}
	})
	e.gobj[g] = o
	return o
}

// ---- one simple instruction ----

func (e *Engine) step(act *Act, st *State, instr ssa.Instruction) {
	switch x := instr.(type) {
	case *ssa.Alloc:
		o := e.alloc(st, act, x, "", x.Type().(*types.Pointer).Elem())
		st.setReg(x, vPtr(Addr{o.id, 0}))
	case *ssa.BinOp:
		a, b := e.val(st, x.X), e.val(st, x.Y)
		v := e.binop(st, x, a, b)
		st.setReg(x, v)
	case *ssa.UnOp:
		a := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			v := e.loadAt(st, x, a)
			if e.cfg.OnLoad != nil {
				ev := &Ev{e: e, act: act, st: st, instr: x}
				if w := e.cfg.OnLoad(ev, a, v); w != nil {
					v = w
				}
			}
			st.setReg(x, v)
		case token.NOT:
			if a.k == KInt && a.lo == a.hi {
				st.setReg(x, vBool(a.lo == 0))
			} else {
				st.setReg(x, &V{k: KInt, lo: 0, hi: 1, lab: a.lab})
			}
		case token.SUB:
			st.setReg(x, e.arith(x.Type(), token.SUB, vInt(0), a))
		case token.XOR:
			if a.k == KInt && a.lo == a.hi {
				st.setReg(x, e.wrap(x.Type(), ^a.lo, a.lab))
			} else {
				st.setReg(x, vUnknown(x.Type(), a.lab))
			}
		default:
			if x.Op == token.ARROW {
				e.unsup["channel receive"] = true
			}
			st.setReg(x, vUnknown(x.Type(), a.lab))
		}
	case *ssa.Store:
		p, v := e.val(st, x.Addr), e.val(st, x.Val)
		t := x.Val.Type()
		if e.cfg.OnStore != nil {
			e.cfg.OnStore(&Ev{e: e, act: act, st: st, instr: x}, p, t, v)
		}
		e.store(st, p, t, v)
	case *ssa.FieldAddr:
		a := e.val(st, x.X)
		st.setReg(x, e.fieldAddr(a, x.Field))
	case *ssa.Field:
		a := e.val(st, x.X)
		if a.k == KAgg && x.Field < len(a.el) {
			st.setReg(x, a.el[x.Field])
		} else {
			st.setReg(x, vUnknown(x.Type(), a.lab))
		}
	case *ssa.IndexAddr:
		a, i := e.val(st, x.X), e.val(st, x.Index)
		if e.cfg.OnIndex != nil {
			e.cfg.OnIndex(&Ev{e: e, act: act, st: st, instr: x}, a, i)
		}
		st.setReg(x, e.indexAddr(a, i))
	case *ssa.Index:
		a, i := e.val(st, x.X), e.val(st, x.Index)
		st.setReg(x, e.indexVal(st, x.Type(), a, i))
	case *ssa.Lookup:
		a, i := e.val(st, x.X), e.val(st, x.Index)
		if isStringType(x.X.Type()) {
			st.setReg(x, e.indexVal(st, x.Type(), a, i))
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		v, ok := e.mapLookup(st, a, i, mt.Elem())
		if x.CommaOk {
			st.setReg(x, &V{k: KAgg, el: []*V{v, ok}})
		} else {
			st.setReg(x, v)
		}
	case *ssa.MapUpdate:
		e.mapUpdate(st, e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value), x.Value.Type())
	case *ssa.MakeMap:
		o := e.alloc(st, act, x, "", nil)
		st.setReg(x, vPtr(Addr{o.id, 0}))
	case *ssa.MakeChan:
		e.unsup["channel"] = true
		st.setReg(x, vUnknown(x.Type(), 0))
	case *ssa.Convert:
		st.setReg(x, e.convert(act, st, x, e.val(st, x.X)))
	case *ssa.ChangeType:
		st.setReg(x, e.val(st, x.X))
	case *ssa.ChangeInterface:
		st.setReg(x, e.val(st, x.X))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		st.setReg(x.(ssa.Value), vUnknown(x.(ssa.Value).Type(), 0))
	case *ssa.MakeInterface:
		a := e.val(st, x.X)
		v := &V{k: KIface, nn: nonNil, dt: []types.Type{x.X.Type()}, dv: []*V{a}, lab: a.lab}
		if isErrorType(x.Type()) {
			v.ec = ecOther
		}
		st.setReg(x, v)
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, e.val(st, b))
		}
		st.setReg(x, &V{k: KFunc, nn: nonNil, fn: []*Closure{c}})
	case *ssa.Extract:
		a := e.val(st, x.Tuple)
		if a.k == KAgg && x.Index < len(a.el) {
			st.setReg(x, a.el[x.Index])
		} else {
			st.setReg(x, vUnknown(x.Type(), a.lab))
		}
	case *ssa.Defer:
		d := &Deferred{instr: x}
		com := x.Common()
		if _, ok := com.Value.(*ssa.Builtin); !ok {
			d.fn = e.val(st, com.Value)
		}
		for _, a := range com.Args {
			d.args = append(d.args, e.val(st, a))
		}
		f := st.top()
		f.defers = append(append([]*Deferred(nil), f.defers...), d)
		if len(f.defers) > 64 {
			f.defers = f.defers[:64]
			e.unsup["defer in loop"] = true
		}
	case *ssa.Range:
		st.setReg(x, e.val(st, x.X))
	case *ssa.Next:
		st.setReg(x, vUnknown(x.Type(), 0))
	case *ssa.Send, *ssa.DebugRef:
	case *ssa.Call: // only len in loop conditions
		for _, o := range e.multi(act, st, x) {
			st.setReg(x, o.res[0])
		}
	default:
		if v, ok := instr.(ssa.Value); ok {
			st.setReg(v, vUnknown(v.Type(), 0))
		}
	}
}

func (e *Engine) loadAt(st *State, x *ssa.UnOp, p *V) *V {
	if g, ok := x.X.(*ssa.Global); ok && !e.repo[g.Pkg] {
		return e.extGlobal(g)
	}
	return e.load(st, p, x.Type())
}

func (e *Engine) extGlobal(g *ssa.Global) *V {
	n := g.Pkg.Pkg.Path() + "." + g.Name()
	if v, ok := e.extG[n]; ok {
		return v
	}
	t := g.Type().(*types.Pointer).Elem()
	var v *V
	switch n {
	case "io.EOF":
		v = &V{k: KIface, nn: nonNil, ec: ecEOF, id: n, top: true}
	case "io.ErrUnexpectedEOF":
		v = &V{k: KIface, nn: nonNil, ec: ecUEOF, id: n, top: true}
	case "os.ErrNotExist", "io/fs.ErrNotExist":
		v = &V{k: KIface, nn: nonNil, ec: ecNotExist, id: n, top: true}
	case "os.ErrExist", "io/fs.ErrExist":
		v = &V{k: KIface, nn: nonNil, ec: ecExist, id: n, top: true}
	case "os.Stdin", "os.Stdout", "os.Stderr":
		o := e.obj("std:"+n, func(x *Obj) { x.fileOf = n; x.typ = t })
		v = vPtr(Addr{o.id, 0})
	case "io.Discard":
		o := e.obj("std:"+n, func(x *Obj) { x.fileOf = n })
		v = &V{k: KIface, nn: nonNil, dt: []types.Type{discardType}, dv: []*V{vPtr(Addr{o.id, 0})}}
	default:
		v = vUnknown(t, 0)
		if v.k == KIface || v.k == KPtr || v.k == KFunc {
			v.nn = nonNil
		}
	}
	e.extG[n] = v
	return v
}

func (e *Engine) fieldAddr(a *V, i int) *V {
	if a.k != KPtr {
		return &V{k: KPtr, nn: nonNil, top: true, lab: a.lab}
	}
	r := &V{k: KPtr, nn: nonNil, top: a.top, ix: a.ix, lab: a.lab}
	for _, x := range a.tg {
		r.tg = append(r.tg, Addr{x.o, e.path(x.p, 'f', int64(i))})
	}
	if len(r.tg) == 0 {
		r.top = true
	}
	return r
}

func (e *Engine) indexAddr(a, i *V) *V {
	idx := i
	var tg []Addr
	r := &V{k: KPtr, nn: nonNil, lab: a.lab}
	switch a.k {
	case KPtr:
		tg = a.tg
		r.top = a.top
		r.ix = a.ix
	case KSlice:
		tg = a.tg
		r.top = a.top
		if a.off != nil {
			if c, ok := a.off.isConst(); !ok || c != 0 {
				idx = e.arith(types.Typ[types.Int], token.ADD, a.off, i)
			}
		}
	default:
		r.top = true
		return r
	}
	if len(tg) == 0 {
		r.top = true
		return r
	}
	if e.cfg.Pick != nil && idx.k == KInt {
		if _, ok := idx.isConst(); !ok {
			if c, ok := e.cfg.Pick(idx); ok {
				idx = vInt(c)
			}
		}
	}
	for _, x := range tg {
		if c, ok := idx.isConst(); ok && c >= 0 {
			r.tg = append(r.tg, Addr{x.o, e.path(x.p, 'i', c)})
		} else {
			if e.pathHas(x.p, '*') {
				r.ix = nil
			} else if idx.k == KInt {
				r.ix = idx
			}
			r.tg = append(r.tg, Addr{x.o, e.path(x.p, '*', 0)})
		}
	}
	return r
}

func (e *Engine) indexVal(st *State, t types.Type, a, i *V) *V {
	if a.k == KStr {
		if s, ok := a.constStr(); ok {
			if c, ok := i.isConst(); ok && c >= 0 && c < int64(len(s)) {
				return vInt(int64(s[c]))
			}
			if i.k == KInt && len(s) > 0 {
				lo, hi := int64(255), int64(0)
				for q := 0; q < len(s); q++ {
					if int64(q) >= i.lo && int64(q) <= i.hi {
						lo, hi = min(lo, int64(s[q])), max(hi, int64(s[q]))
					}
				}
				if lo <= hi {
					return vRange(lo, hi)
				}
			}
		}
		if c, ok := i.isConst(); ok && c == 0 && len(a.ps) > 0 && a.ps[0].sym == "" && a.ps[0].c != "" {
			return vInt(int64(a.ps[0].c[0]))
		}
		return vUnknown(t, a.lab)
	}
	if a.k == KAgg {
		if c, ok := i.isConst(); ok && c >= 0 && c < int64(len(a.el)) {
			return a.el[c]
		}
		var r *V
		for _, x := range a.el {
			r = vJoin(r, x, &JC{thr: e.thr})
		}
		if r != nil {
			return anon(r)
		}
	}
	return vUnknown(t, a.lab)
}

// ---- maps ----

func (e *Engine) keyID(k *V) (int64, bool) {
	s := ""
	if c, ok := k.isConst(); ok {
		s = "i" + itoa(c)
	} else if c, ok := k.constStr(); ok {
		s = "s" + c
	} else {
		return 0, false
	}
	if id, ok := e.mapKeys[s]; ok {
		return id, true
	}
	id := int64(len(e.mapKeys))
	e.mapKeys[s] = id
	return id, true
}
func (e *Engine) mapUpdate(st *State, m, k, v *V, t types.Type) {
	if m.k != KPtr {
		return
	}
	for _, a := range m.tg {
		if id, ok := e.keyID(k); ok && len(m.tg) == 1 && !m.top {
			e.putCell(st, Addr{a.o, e.path(a.p, 'k', id)}, v)
			continue
		}
		p := Addr{a.o, e.path(a.p, '*', 0)}
		e.noteType(p, t)
		if old, ok := e.lookup(st, p); ok {
			e.putCell(st, p, anon(vJoin(old, v, &JC{thr: e.thr})))
		} else {
			e.putCell(st, p, anon(v))
		}
	}
}
func (e *Engine) mapLookup(st *State, m, k *V, t types.Type) (*V, *V) {
	if m.k != KPtr || len(m.tg) != 1 || m.top || e.objs[m.tg[0].o].lazy {
		return vUnknown(t, m.lab), vBoolAny()
	}
	a := m.tg[0]
	om := st.om(a.o)
	_, star := e.lookup(st, Addr{a.o, e.path(a.p, '*', 0)})
	if id, ok := e.keyID(k); ok && !star {
		if v, ok := e.lookup(st, Addr{a.o, e.path(a.p, 'k', id)}); ok {
			if v.k == KTop {
				return vUnknown(t, v.lab), vBoolAny()
			}
			return v, vBool(true)
		}
		return vZero(t), vBool(false)
	}
	r := vZero(t)
	if om != nil {
		for _, c := range om.cells() {
			if c.v.k == KTop {
				return vUnknown(t, 0), vBoolAny()
			}
			r = vJoin(r, c.v, &JC{thr: e.thr})
		}
	}
	return anon(r), vBoolAny()
}

// ---- integers ----

func (e *Engine) wrap(t types.Type, c int64, lab uint64) *V {
	n, s, ok := intInfo(t)
	if !ok {
		return vUnknown(t, lab)
	}
	if n < 64 {
		c &= 1<<n - 1
		if s && c>>(n-1)&1 == 1 {
			c -= 1 << n
		}
	} else if !s && c < 0 {
		v := vUnknown(t, lab) // beyond int64: only the range is known
		return v
	}
	v := vInt(c)
	v.lab = lab
	return v
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}
func satAdd(a, b int64) int64 {
	if a == negInf || b == negInf {
		return negInf
	}
	if a == posInf || b == posInf {
		return posInf
	}
	c, ok := addOv(a, b)
	if !ok {
		if b > 0 {
			return posInf
		}
		return negInf
	}
	return c
}
func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	ua, ub := absU(a), absU(b)
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > 1<<63-1 {
		if neg {
			return negInf
		}
		return posInf
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}
func absU(a int64) uint64 {
	if a < 0 {
		return uint64(-a)
	}
	return uint64(a)
}
func neg(a int64) int64 {
	if a == negInf {
		return posInf
	}
	if a == posInf {
		return negInf
	}
	return -a
}

// fit an interval into a type: what exceeds it wraps to anything
func (e *Engine) fit(t types.Type, v *V) *V {
	lo, hi := typeRange(t)
	n, s, _ := intInfo(t)
	if n == 64 {
		if s {
			return v
		}
		if v.lo < 0 {
			v.lo, v.hi = 0, posInf
		}
		return v
	}
	if v.lo < lo || v.hi > hi {
		if v.lo == v.hi && v.lo != negInf && v.hi != posInf {
			w := e.wrap(t, v.lo, v.lab)
			w.bits = v.bits
			return w
		}
		v.lo, v.hi = lo, hi
		v.t = nil
	}
	return v
}

func (e *Engine) arith(t types.Type, op token.Token, a, b *V) *V {
	lab := a.lab | b.lab
	if a.k != KInt || b.k != KInt {
		return vUnknown(t, lab)
	}
	n, signed, _ := intInfo(t)
	if e.cfg.Exact && n == 64 && !signed {
		if v := wideOp(op, a, b); v != nil {
			return v
		}
	}
	if e.cfg.Mod {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
			a, b = e.withTerm(a), e.withTerm(b)
		}
	}
	v := &V{k: KInt, lab: lab}
	switch op {
	case token.ADD:
		v.lo, v.hi = satAdd(a.lo, b.lo), satAdd(a.hi, b.hi)
		v.t = tAdd(a.t, b.t, 1)
	case token.SUB:
		v.lo, v.hi = satAdd(a.lo, neg(b.hi)), satAdd(a.hi, neg(b.lo))
		v.t = tAdd(a.t, b.t, -1)
		if v.t.isConst() && n == 64 {
			if signed || v.t.c >= 0 {
				v.lo, v.hi = v.t.c, v.t.c
			}
		}
	case token.MUL:
		c := []int64{satMul(a.lo, b.lo), satMul(a.lo, b.hi), satMul(a.hi, b.lo), satMul(a.hi, b.hi)}
		v.lo, v.hi = c[0], c[0]
		for _, x := range c {
			v.lo, v.hi = min(v.lo, x), max(v.hi, x)
		}
		if k, ok := b.isConst(); ok {
			v.t = tScale(a.t, k)
		} else if k, ok := a.isConst(); ok {
			v.t = tScale(b.t, k)
		}
	case token.QUO:
		if k, ok := b.isConst(); ok && k > 0 && a.lo != negInf {
			v.lo, v.hi = a.lo/k, a.hi/k
			if a.hi == posInf {
				v.hi = posInf
			}
			if k == 1 {
				v.t = a.t
			}
		} else if a.lo >= 0 && b.lo >= 0 {
			v.lo, v.hi = 0, a.hi
		} else {
			return vUnknown(t, lab)
		}
	case token.REM:
		if k, ok := b.isConst(); ok && k > 0 {
			if ac, ok := a.isConst(); ok {
				v.lo, v.hi = ac%k, ac%k
			} else if a.lo >= 0 {
				v.lo, v.hi = 0, min(k-1, a.hi)
			} else {
				v.lo, v.hi = -(k - 1), k-1
			}
		} else if a.lo >= 0 && b.lo >= 0 {
			v.lo, v.hi = 0, a.hi
		} else {
			return vUnknown(t, lab)
		}
	case token.AND:
		ac, aok := a.isConst()
		bc, bok := b.isConst()
		switch {
		case aok && bok:
			v.lo, v.hi = ac&bc, ac&bc
		case bok && bc >= 0:
			v.lo, v.hi = 0, bc
			if a.lo >= 0 {
				v.hi = min(v.hi, a.hi)
				if bc&(bc+1) == 0 && a.hi <= bc {
					v.lo, v.hi, v.t = a.lo, a.hi, a.t
				}
			}
		case aok && ac >= 0:
			v.lo, v.hi = 0, ac
			if b.lo >= 0 {
				v.hi = min(v.hi, b.hi)
				if ac&(ac+1) == 0 && b.hi <= ac {
					v.lo, v.hi, v.t = b.lo, b.hi, b.t
				}
			}
		case a.lo >= 0 && b.lo >= 0:
			v.lo, v.hi = 0, min(a.hi, b.hi)
		case a.lo >= 0:
			v.lo, v.hi = 0, a.hi
		case b.lo >= 0:
			v.lo, v.hi = 0, b.hi
		default:
			return vUnknown(t, lab)
		}
	case token.OR, token.XOR:
		ac, aok := a.isConst()
		bc, bok := b.isConst()
		if aok && bok {
			c := ac | bc
			if op == token.XOR {
				c = ac ^ bc
			}
			v.lo, v.hi = c, c
		} else if a.lo >= 0 && b.lo >= 0 {
			m := max(a.hi, b.hi)
			if m == posInf {
				v.lo, v.hi = 0, posInf
			} else {
				v.lo, v.hi = 0, int64(1)<<bits.Len64(uint64(m))-1
			}
			if op == token.OR {
				v.lo = max(a.lo, b.lo)
			}
			if aok && ac == 0 {
				v.lo, v.hi, v.t = b.lo, b.hi, b.t
			}
			if bok && bc == 0 {
				v.lo, v.hi, v.t = a.lo, a.hi, a.t
			}
		} else {
			return vUnknown(t, lab)
		}
	case token.AND_NOT:
		ac, aok := a.isConst()
		bc, bok := b.isConst()
		if aok && bok {
			v.lo, v.hi = ac&^bc, ac&^bc
		} else if a.lo >= 0 {
			v.lo, v.hi = 0, a.hi
		} else {
			return vUnknown(t, lab)
		}
	case token.SHL:
		if k, ok := b.isConst(); ok && k >= 0 {
			if k >= 63 {
				if k >= 64 {
					v.lo, v.hi = 0, 0
				} else {
					return vUnknown(t, lab)
				}
			} else {
				v.lo, v.hi = satMul(a.lo, 1<<k), satMul(a.hi, 1<<k)
				v.t = tScale(a.t, 1<<k)
			}
		} else if a.lo >= 0 && b.lo >= 0 {
			hi := int64(posInf)
			if b.hi < 63 {
				hi = satMul(a.hi, 1<<b.hi)
			}
			v.lo, v.hi = 0, hi
		} else {
			return vUnknown(t, lab)
		}
	case token.SHR:
		if k, ok := b.isConst(); ok && k >= 0 {
			if k > 63 {
				k = 63
			}
			v.lo, v.hi = a.lo>>k, a.hi>>k
			if a.hi == posInf {
				if n == 64 && !signed {
					v.hi = posInf
					if k > 0 {
						v.hi = int64(^uint64(0) >> k)
					}
				} else if k == 0 {
					v.hi = posInf
				}
			}
			if k == 0 {
				v.t = a.t
			}
		} else if a.lo >= 0 {
			v.lo, v.hi = 0, a.hi
		} else {
			return vUnknown(t, lab)
		}
	default:
		return vUnknown(t, lab)
	}
	if n < 64 || !signed {
		// the linear form is exact only when nothing wrapped
		lo, hi := typeRange(t)
		if v.t != nil && !v.t.isConst() && n < 64 && (v.lo < lo || v.hi > hi) {
			if e.cfg.Mod && n == 8 && !signed && anyTop(e.bitop(t, op, a, b, v)) {
				w := e.lowByte(v.t)
				w.lab = lab
				return w
			}
			v.t = nil
		}
	}
	if !e.cfg.Terms && v.t != nil && !v.t.isConst() && !e.keepTerm(v.t) {
		v.t = nil
	}
	v = e.fit(t, v)
	if v.lo == v.hi && (v.t == nil || !v.t.isConst()) {
		v.t = tConst(v.lo)
	}
	if v.lo != v.hi && v.t.isConst() {
		v.t = nil
	}
	if e.cfg.Bits {
		v.bits = e.bitop(t, op, a, b, v)
		if c, ok := constBits(v.bits, n, signed); ok && v.lo != v.hi {
			v.lo, v.hi, v.t, v.bits = c, c, tConst(c), nil
		}
		if e.cfg.Mod && v.lo != v.hi && (anyTop(v.bits) || e.madeUp(v.bits)) {
			if c, ok := b.isConst(); ok && a.t != nil && v.t == nil {
				switch {
				case op == token.AND && c == 255 || op == token.REM && c == 256 && a.lo >= 0:
					w := e.lowByte(a.t)
					w.lab = v.lab
					w.bits = extend(w.bits, n, false)
					if !anyTop(v.bits) {
						w.bits = v.bits
					}
					return w
				case op == token.QUO && c > 0 && a.lo >= 0 && v.hi < posInf:
					w := e.symInt(fmt.Sprintf("quo(%s,%d)", a.t.key(), c), v.lo, v.hi, bits.Len64(uint64(v.hi)))
					w.lab = v.lab
					w.bits = extend(w.bits, n, false)
					return w
				}
			}
			if anyTop(v.bits) {
				if x := e.atom(v, n); x != nil {
					v.bits = x
				}
			}
		}
	}
	return v
}

// wideOf is the constant an unsigned value is, one with the highest bit set included
func wideOf(v *V) (uint64, bool) {
	if c, ok := v.isConst(); ok {
		return uint64(c), c >= 0
	}
	if len(v.bits) != 64 {
		return 0, false
	}
	var u uint64
	for i, b := range v.bits {
		if !b.isConst() {
			return 0, false
		}
		u |= uint64(b.c) << i
	}
	return u, true
}

// wideOp computes with unsigned constants that int64 cannot hold, and with results it cannot hold
func wideOp(op token.Token, a, b *V) *V {
	x, ok := wideOf(a)
	if !ok {
		return nil
	}
	y, ok := wideOf(b)
	if !ok {
		return nil
	}
	var u uint64
	switch op {
	case token.ADD:
		u = x + y
	case token.SUB:
		u = x - y
	case token.AND:
		u = x & y
	case token.OR:
		u = x | y
	case token.XOR:
		u = x ^ y
	case token.SHR:
		if y < 64 {
			u = x >> y
		}
	default:
		return nil
	}
	if u < 1<<62 {
		v := vInt(int64(u))
		v.lab = a.lab | b.lab
		return v
	}
	bs := make([]Bit, 64)
	for i := range bs {
		bs[i] = bConst(uint8(u >> i & 1))
	}
	return &V{k: KInt, lo: 0, hi: posInf, bits: bs, lab: a.lab | b.lab}
}

// withTerm names a value whose bits are known but whose linear form is not
func (e *Engine) withTerm(v *V) *V {
	if v.t != nil || v.lo < 0 || v.hi == posInf || v.lo == v.hi || anyTop(v.bits) {
		return v
	}
	w := *v
	w.t = tSym(e.sym("val("+bitsKey(v.bits)+")", 64))
	return &w
}
func bitsKey(b []Bit) string {
	n := len(b)
	for n > 0 && b[n-1].zero() {
		n--
	}
	var sb strings.Builder
	for _, x := range b[:n] {
		fmt.Fprintf(&sb, "%d", x.c)
		for _, y := range x.s {
			fmt.Fprintf(&sb, "^%d.%d", y>>8, y&255)
		}
		sb.WriteByte(',')
	}
	return sb.String()
}

// constBits is the number that constant bits make
func constBits(b []Bit, n int, signed bool) (int64, bool) {
	if len(b) == 0 {
		return 0, false
	}
	var c uint64
	for i, x := range b {
		if !x.isConst() {
			return 0, false
		}
		c |= uint64(x.c) << i
	}
	if signed && n < 64 && c>>(n-1)&1 != 0 {
		c |= ^uint64(0) << n
	}
	if !signed && int64(c) < 0 {
		return 0, false
	}
	return int64(c), true
}

// madeUp: are the bits those of a symbol that stands for a linear form?
func (e *Engine) madeUp(b []Bit) bool {
	for _, x := range b {
		for _, s := range x.s {
			if strings.HasPrefix(e.symName[s>>8], "part(") {
				return true
			}
		}
	}
	return false
}
func (e *Engine) keepTerm(t *Term) bool { return len(t.m) == 1 && e.symInfo[t.m[0].s] != nil }

func (e *Engine) getBits(t types.Type, v *V) []Bit {
	n, _, ok := intInfo(t)
	if !ok || v.k != KInt {
		return nil
	}
	if c, ok := v.isConst(); ok {
		r := make([]Bit, n)
		for i := range r {
			r[i] = bConst(uint8(c >> i))
		}
		return r
	}
	if len(v.bits) == n {
		return v.bits
	}
	// known high zero bits from the range
	r := make([]Bit, n)
	for i := range r {
		r[i] = Bit{top: true}
	}
	if v.lo >= 0 && v.hi < posInf {
		for i := bits.Len64(uint64(v.hi)); i < n; i++ {
			r[i] = bConst(0)
		}
	}
	for i := range v.bits {
		if i < n {
			r[i] = v.bits[i]
		}
	}
	return r
}

func (e *Engine) bitop(t types.Type, op token.Token, a, b, v *V) []Bit {
	n, signed, ok := intInfo(t)
	if !ok || n == 1 || v.lo == v.hi {
		return nil
	}
	x := e.getBits(t, a)
	r := make([]Bit, n)
	top := Bit{top: true}
	switch op {
	case token.XOR:
		y := e.getBits(t, b)
		for i := range r {
			r[i] = bXor(x[i], y[i])
		}
	case token.AND, token.OR, token.AND_NOT:
		y := e.getBits(t, b)
		for i := range r {
			p, q := x[i], y[i]
			if op == token.AND_NOT {
				if q.isConst() {
					q = bConst(1 - q.c)
				} else {
					q = top
				}
			}
			if op == token.OR {
				switch {
				case p.zero():
					r[i] = q
				case q.zero():
					r[i] = p
				case p.isConst() || q.isConst():
					r[i] = bConst(1)
				case bEq(p, q) && !p.top:
					r[i] = p
				default:
					r[i] = top
				}
				continue
			}
			switch {
			case p.zero() || q.zero():
				r[i] = bConst(0)
			case p.isConst():
				r[i] = q
			case q.isConst():
				r[i] = p
			case bEq(p, q) && !p.top:
				r[i] = p
			default:
				r[i] = top
			}
		}
	case token.ADD:
		// exact when no two set bits can meet
		y := e.getBits(t, b)
		for i := range r {
			if !x[i].zero() && !y[i].zero() {
				return nil
			}
			r[i] = bXor(x[i], y[i])
		}
	case token.SHL:
		k, ok := b.isConst()
		if !ok {
			return nil
		}
		for i := range r {
			if int64(i) < k {
				r[i] = bConst(0)
			} else {
				r[i] = x[int64(i)-k]
			}
		}
	case token.SHR:
		k, ok := b.isConst()
		if !ok {
			return nil
		}
		for i := range r {
			if int64(i)+k < int64(n) {
				r[i] = x[int64(i)+k]
			} else if signed {
				r[i] = x[n-1]
			} else {
				r[i] = bConst(0)
			}
		}
	case token.MUL:
		k, ok := b.isConst()
		if !ok || k <= 0 || k&(k-1) != 0 {
			return nil
		}
		s := bits.TrailingZeros64(uint64(k))
		for i := range r {
			if i < s {
				r[i] = bConst(0)
			} else {
				r[i] = x[i-s]
			}
		}
	case token.QUO:
		k, ok := b.isConst()
		if !ok || k <= 0 || k&(k-1) != 0 || a.lo < 0 {
			return nil
		}
		s := bits.TrailingZeros64(uint64(k))
		for i := range r {
			if i+s < n {
				r[i] = x[i+s]
			} else {
				r[i] = bConst(0)
			}
		}
	case token.REM:
		k, ok := b.isConst()
		if !ok || k <= 0 || k&(k-1) != 0 || a.lo < 0 {
			return nil
		}
		for i := range r {
			if i < bits.TrailingZeros64(uint64(k)) {
				r[i] = x[i]
			} else {
				r[i] = bConst(0)
			}
		}
	default:
		return nil
	}
	for _, q := range r {
		if !q.top {
			return r
		}
	}
	return nil
}

func (e *Engine) binop(st *State, x *ssa.BinOp, a, b *V) *V {
	lab := a.lab | b.lab
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		r := e.compare(x.Op, e.bySign(x.X.Type(), a), e.bySign(x.Y.Type(), b))
		switch r {
		case 0:
			return &V{k: KInt, lo: 0, hi: 0, t: tConst(0), lab: lab}
		case 1:
			return &V{k: KInt, lo: 1, hi: 1, t: tConst(1), lab: lab}
		}
		return &V{k: KInt, lo: 0, hi: 1, lab: lab}
	}
	if isStringType(x.Type()) {
		if x.Op == token.ADD && a.k == KStr && b.k == KStr {
			return e.concat(a, b)
		}
		return vUnknown(x.Type(), lab)
	}
	if _, _, ok := intInfo(x.Type()); ok {
		return e.arith(x.Type(), x.Op, a, b)
	}
	return vUnknown(x.Type(), lab)
}

func (e *Engine) concat(a, b *V) *V {
	r := &V{k: KStr, lab: a.lab | b.lab}
	r.ps = normPieces(append(append([]Piece(nil), a.ps...), b.ps...))
	if len(r.ps) > 12 {
		r.ps = []Piece{{sym: "⊔" + strSyms(a, b), lab: r.lab, fl: strFlags(a) & strFlags(b) & fNoSlash}}
	}
	if a.ln != nil && b.ln != nil {
		r.ln = e.arith(types.Typ[types.Int], token.ADD, a.ln, b.ln)
	} else {
		r.ln = vRange(0, posInf)
	}
	return r
}

// compare: 0 false, 1 true, 2 unknown
// bySign bounds a signed number whose sign bit is known
func (e *Engine) bySign(t types.Type, v *V) *V {
	if !e.cfg.Bits || v.k != KInt || len(v.bits) == 0 || v.lo >= 0 || v.hi < 0 {
		return v
	}
	n, s, ok := intInfo(t)
	if !ok || !s || len(v.bits) != n || !v.bits[n-1].isConst() {
		return v
	}
	w := *v
	if v.bits[n-1].c != 0 {
		w.hi = -1
	} else {
		w.lo = 0
	}
	return &w
}

func (e *Engine) compare(op token.Token, a, b *V) int {
	tri := func(c, known bool) int {
		if !known {
			return 2
		}
		if op == token.NEQ {
			c = !c
		}
		if c {
			return 1
		}
		return 0
	}
	if a.k == KInt && b.k == KInt {
		if a.t != nil && a.t.eq(b.t) {
			switch op {
			case token.EQL, token.LEQ, token.GEQ:
				return 1
			default:
				return 0
			}
		}
		lt := func(x, y *V) int { // x < y
			if x.hi < y.lo {
				return 1
			}
			if x.lo >= y.hi && !(x.lo == posInf || y.hi == negInf) {
				return 0
			}
			return 2
		}
		inv := func(r int) int {
			if r == 2 {
				return 2
			}
			return 1 - r
		}
		switch op {
		case token.LSS:
			return lt(a, b)
		case token.GTR:
			return lt(b, a)
		case token.GEQ:
			return inv(lt(a, b))
		case token.LEQ:
			return inv(lt(b, a))
		}
		if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo && a.lo != posInf && a.lo != negInf {
			return tri(true, true)
		}
		if a.hi < b.lo || b.hi < a.lo {
			return tri(false, true)
		}
		if e.cfg.Mod && a.lo >= 0 && b.lo >= 0 && a.hi <= 255 && b.hi <= 255 && (op == token.EQL || op == token.NEQ) {
			if x, y := e.expand(a.t), e.expand(b.t); x != nil && y != nil && x.eq(y) {
				return tri(true, true)
			}
		}
		if e.cfg.Bits && len(a.bits) > 0 && len(a.bits) == len(b.bits) {
			same := true
			for i, q := range a.bits {
				d := bXor(q, b.bits[i])
				if d.isConst() && d.c == 1 {
					return tri(false, true)
				}
				same = same && d.zero()
			}
			if same {
				return tri(true, true)
			}
		}
		if e.cfg.Bits && len(a.bits) > 0 {
			if c, ok := b.isConst(); ok {
				for i, q := range a.bits {
					if q.isConst() && int64(q.c) != c>>i&1 {
						return tri(false, true)
					}
				}
			}
		}
		if e.cfg.Decide != nil {
			return e.cfg.Decide(op, a, b)
		}
		return 2
	}
	if a.k == KStr && b.k == KStr {
		x, okx := a.constStr()
		y, oky := b.constStr()
		if okx && oky {
			switch op {
			case token.EQL, token.NEQ:
				return tri(x == y, true)
			case token.LSS:
				return tri2(x < y)
			case token.GTR:
				return tri2(x > y)
			case token.LEQ:
				return tri2(x <= y)
			case token.GEQ:
				return tri2(x >= y)
			}
		}
		if op != token.EQL && op != token.NEQ {
			return 2
		}
		if a == b {
			return tri(true, true)
		}
		if okx && !oky {
			x, y, okx, oky = y, x, oky, okx
			a, b = b, a
		}
		if oky {
			if len(a.ps) == 1 && a.ps[0].sym != "" {
				fl := a.ps[0].fl
				if fl&fNonDot != 0 && (y == "" || y == "." || y == "..") {
					return tri(false, true)
				}
				if fl&fNoSlash != 0 && strings.Contains(y, "/") {
					return tri(false, true)
				}
			}
			if len(a.ps) > 1 || len(a.ps) == 1 && a.ps[0].sym != "" {
				if p := a.ps[0]; p.sym == "" && !strings.HasPrefix(y, p.c) {
					return tri(false, true)
				}
				if p := a.ps[len(a.ps)-1]; p.sym == "" && !strings.HasSuffix(y, p.c) {
					return tri(false, true)
				}
				if a.ln != nil && a.ln.lo > int64(len(y)) {
					return tri(false, true)
				}
			}
		}
		if !okx && !oky && samePieces(a, b) && a.id != "" && a.id == b.id {
			return tri(true, true)
		}
		return 2
	}
	// nil comparisons and error identities
	nilable := func(v *V) bool { return v.k == KPtr || v.k == KSlice || v.k == KIface || v.k == KFunc }
	if nilable(a) && nilable(b) {
		if a.nn == isNil && b.nn == isNil {
			return tri(true, true)
		}
		if a.nn == isNil && b.nn == nonNil || a.nn == nonNil && b.nn == isNil {
			return tri(false, true)
		}
		if a.k == KIface && b.k == KIface {
			if a.id != "" && b.id == "" {
				a, b = b, a
			}
			if b.id == "io.EOF" || b.id == "io.ErrUnexpectedEOF" {
				if a.nn&nonNil != 0 && a.ec&b.ec == 0 {
					return tri(false, true)
				}
				if a.nn == isNil {
					return tri(false, true)
				}
				if a.nn == nonNil && a.ec == b.ec && len(a.dt) == 0 {
					return tri(true, true)
				}
			}
		}
		if a.k == KPtr && b.k == KPtr && a.nn == nonNil && b.nn == nonNil && !a.top && !b.top && len(a.tg) > 0 && len(b.tg) > 0 {
			meet := false
			for _, x := range a.tg {
				for _, y := range b.tg {
					if x == y {
						meet = true
					}
				}
			}
			if !meet {
				return tri(false, true)
			}
		}
	}
	return 2
}
func tri2(b bool) int {
	if b {
		return 1
	}
	return 0
}
func samePieces(a, b *V) bool {
	if len(a.ps) != len(b.ps) || len(a.ps) == 0 {
		return false
	}
	for i := range a.ps {
		if a.ps[i] != b.ps[i] {
			return false
		}
	}
	return true
}

// ---- conversions ----

func (e *Engine) convert(act *Act, st *State, x *ssa.Convert, a *V) *V {
	from, to := x.X.Type(), x.Type()
	_, _, fi := intInfo(from)
	n, _, ti := intInfo(to)
	_ = n
	if fi && ti && a.k == KInt {
		return e.convInt(from, to, a)
	}
	if isStringType(to) {
		if _, ok := from.Underlying().(*types.Slice); ok {
			return e.bytesToString(st, a)
		}
		if c, ok := a.isConst(); ok && fi {
			return vStr(string(rune(c)))
		}
		return vUnknown(to, a.lab)
	}
	if isStringType(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			return e.stringToBytes(act, st, x, a, sl.Elem())
		}
	}
	return vUnknown(to, a.lab)
}
func (e *Engine) convInt(from, to types.Type, a *V) *V {
	n, _, _ := intInfo(to)
	fn, fs, _ := intInfo(from)
	lo, hi := typeRange(to)
	v := *a
	if a.lo >= lo && a.hi <= hi {
		if e.cfg.Bits && v.lo != v.hi {
			v.bits = extend(e.getBits(from, a), n, fs)
		}
		return &v
	}
	if a.lo == a.hi && a.lo != posInf && a.lo != negInf {
		return e.wrap(to, a.lo, a.lab)
	}
	r := &V{k: KInt, lo: lo, hi: hi, lab: a.lab}
	if n == 64 && fn == 64 {
		r.t = a.t // exact modulo 2^64
	}
	if e.cfg.Bits {
		r.bits = extend(e.getBits(from, a), n, fs)
	}
	if e.cfg.Mod && n == 8 && lo == 0 && a.t != nil && (anyTop(r.bits) || e.madeUp(r.bits)) {
		w := e.lowByte(a.t)
		w.lab = a.lab
		if !anyTop(r.bits) {
			w.bits = r.bits
		}
		return w
	}
	return r
}
func anyTop(b []Bit) bool {
	for _, x := range b {
		if x.top {
			return true
		}
	}
	return len(b) == 0
}
func allTop(b []Bit) bool {
	for _, x := range b {
		if !x.top {
			return false
		}
	}
	return true
}
func extend(b []Bit, n int, signed bool) []Bit {
	if b == nil {
		return nil
	}
	r := make([]Bit, n)
	for i := range r {
		switch {
		case i < len(b):
			r[i] = b[i]
		case signed && len(b) > 0:
			r[i] = b[len(b)-1]
		default:
			r[i] = bConst(0)
		}
	}
	return r
}

// the content of a byte slice as a string value
func (e *Engine) bytesToString(st *State, a *V) *V {
	if a.k != KSlice {
		return vUnknown(types.Typ[types.String], a.lab)
	}
	if a.nn == isNil {
		return vStr("")
	}
	ln, lok := a.ln.isConst()
	off, ook := a.off.isConst()
	if lok && ln == 0 {
		return vStr("")
	}
	if !a.top && len(a.tg) == 1 && !e.objs[a.tg[0].o].summary {
		b := a.tg[0]
		if c, ok := e.lookup(st, Addr{b.o, e.path(b.p, 's', 0)}); ok && ook && off == 0 {
			// the whole content
			if c.ln != nil && (vEq(c.ln, a.ln) || c.ln.t != nil && c.ln.t.eq(a.ln.t)) {
				return c
			}
			return e.substr(c, vInt(0), a.ln)
		}
		if lok && ook && (ln <= 64 || e.cfg.Mod && ln <= 2100) {
			buf := make([]byte, 0, ln)
			for i := int64(0); i < ln; i++ {
				v := e.readCell(st, Addr{b.o, e.path(b.p, 'i', off+i)}, nil, types.Typ[types.Uint8])
				c, ok := v.isConst()
				if !ok {
					buf = nil
					break
				}
				buf = append(buf, byte(c))
			}
			if buf != nil {
				return vStr(string(buf))
			}
		}
	}
	if !a.top && ook && off == 0 && len(a.tg) > 0 {
		// several arrays: the shape their contents have in common
		var r *V
		for _, b := range a.tg {
			c, ok := e.lookup(st, Addr{b.o, e.path(b.p, 's', 0)})
			if !ok || c.ln == nil {
				r = nil
				break
			}
			r = vJoin(r, c, &JC{thr: e.thr})
		}
		if r != nil && (vEq(r.ln, a.ln) || r.ln.lo == a.ln.lo && r.ln.hi == a.ln.hi) {
			return anon(r)
		}
	}
	v := vSymStr("bytes", 0, a.lab)
	if !a.top {
		var el *V
		for _, t := range a.tg {
			x := e.readCell(st, Addr{t.o, e.path(t.p, '*', 0)}, nil, types.Typ[types.Uint8])
			v.lab |= x.lab
			el = vJoin(el, x, &JC{})
			if o := e.objs[t.o]; o.srcName != "" {
				v.ps[0].sym = o.srcName
			}
		}
		v.ps[0].lab = v.lab
	}
	v.ln = a.ln
	if v.ln.lo > 0 || true {
		c := *a.ln
		v.ln = &c
	}
	return v
}

func (e *Engine) stringToBytes(act *Act, st *State, at ssa.Instruction, a *V, elem types.Type) *V {
	o := e.alloc(st, act, at, "", nil)
	if s, ok := a.constStr(); ok && (len(s) <= 256 || e.cfg.Mod) {
		for i := 0; i < len(s); i++ {
			e.writeCell(st, Addr{o.id, e.path(0, 'i', int64(i))}, nil, elem, vInt(int64(s[i])), true)
		}
		return &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vInt(int64(len(s)))}
	}
	u := vUnknown(elem, a.lab)
	e.writeCell(st, Addr{o.id, e.path(0, '*', 0)}, nil, elem, u, true)
	e.putCell(st, Addr{o.id, e.path(0, 's', 0)}, a)
	ln := a.ln
	if ln == nil {
		ln = vRange(0, posInf)
	}
	return &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: ln, lab: a.lab}
}

// a substring of a string
func (e *Engine) substr(s *V, lo, hi *V) *V {
	l, lok := lo.isConst()
	var h int64
	hok := false
	if hi != nil {
		h, hok = hi.isConst()
	}
	if c, ok := s.constStr(); ok {
		hh := int64(len(c))
		if hi != nil {
			if !hok {
				hh = -1
			} else {
				hh = h
			}
		}
		if lok && hh >= 0 && l >= 0 && l <= hh && hh <= int64(len(c)) {
			return vStr(c[l:hh])
		}
	}
	if lok && l == 0 && hi == nil {
		return s
	}
	r := &V{k: KStr, lab: s.lab}
	fl := strFlags(s) & fNoSlash
	// s[LastIndex(s,"/")+1:] has no slash; s[:Index(s,"/")] has none either
	if hi == nil && lo.t != nil && len(lo.t.m) == 1 && lo.t.m[0].k == 1 {
		if m := e.symInfo[lo.t.m[0].s]; m != nil && m.sub == "/" && m.str == s && m.kind == "lastindex" && lo.t.c == 1 {
			fl |= fNoSlash
		}
	}
	if lok && l == 0 && hi != nil && hi.t != nil && len(hi.t.m) == 1 && hi.t.m[0].k == 1 && hi.t.c == 0 {
		if m := e.symInfo[hi.t.m[0].s]; m != nil && m.sub == "/" && m.str == s && m.kind == "index" {
			fl |= fNoSlash
		}
	}
	// a constant prefix survives s[:n] only when n covers it
	r.ps = []Piece{{sym: "sub(" + trimSym(strSyms(s)) + ")", fl: fl, lab: s.lab}}
	if hi != nil {
		r.ln = e.arith(types.Typ[types.Int], token.SUB, hi, lo)
	} else if s.ln != nil {
		r.ln = e.arith(types.Typ[types.Int], token.SUB, s.ln, lo)
	}
	if r.ln == nil || r.ln.lo < 0 {
		r.ln = vRange(0, posInf)
	}
	return r
}

func trimSym(s string) string {
	for strings.HasPrefix(s, "sub(") && strings.HasSuffix(s, ")") {
		s = s[4 : len(s)-1]
	}
	return s
}
