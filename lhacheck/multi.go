package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int64) string { return strconv.FormatInt(i, 10) }

// ---- instructions with several outcomes ----

func (e *Engine) multi(act *Act, st *State, instr ssa.Instruction) []*Out {
	switch x := instr.(type) {
	case *ssa.Call:
		com := x.Common()
		var fv *V
		if _, ok := com.Value.(*ssa.Builtin); !ok {
			fv = e.val(st, com.Value)
		}
		var args []*V
		for _, a := range com.Args {
			args = append(args, e.val(st, a))
		}
		return e.callCommon(act, st, x, com, fv, args)
	case *ssa.Go:
		e.unsup["go statement"] = true
		com := x.Common()
		fv := e.val(st, com.Value)
		var args []*V
		for _, a := range com.Args {
			args = append(args, e.val(st, a))
		}
		return e.callCommon(act, st, x, com, fv, args)
	case *ssa.RunDefers:
		var outs []*Out
		for _, s := range e.runDefers(act, st) {
			if s.pan != nil {
				outs = append(outs, &Out{st: s, panic: true})
			} else {
				outs = append(outs, &Out{st: s})
			}
		}
		return outs
	case *ssa.MakeSlice:
		ln, cp := e.val(st, x.Len), e.val(st, x.Cap)
		if e.cfg.OnMake != nil {
			e.cfg.OnMake(&Ev{e: e, act: act, st: st, instr: x}, cp)
		}
		o := e.alloc(st, act, x, "", nil)
		return []*Out{{st: st, res: []*V{{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: ln, cp: cp}}}}
	case *ssa.TypeAssert:
		return e.typeAssert(act, st, x)
	case *ssa.Slice:
		return e.sliceOp(act, st, x)
	}
	return nil
}

func (e *Engine) typeAssert(act *Act, st *State, x *ssa.TypeAssert) []*Out {
	a := e.val(st, x.X)
	mk := func(v *V, ok bool) *V {
		if x.CommaOk {
			return &V{k: KAgg, el: []*V{v, vBool(ok)}}
		}
		return v
	}
	var outs []*Out
	zero := vZero(x.AssertedType)
	if types.IsInterface(x.AssertedType) {
		iface := x.AssertedType.Underlying().(*types.Interface)
		yes := &V{k: KIface, nn: nonNil, lab: a.lab, top: a.top, ec: a.ec, id: a.id}
		some, miss := a.k != KIface || a.top, a.k != KIface || a.top || a.nn&isNil != 0
		if a.k == KIface {
			for i, t := range a.dt {
				if types.Implements(t, iface) {
					yes.dt = append(yes.dt, t)
					yes.dv = append(yes.dv, a.dv[i])
					some = true
				} else {
					miss = true
				}
			}
		} else {
			yes.top = true
		}
		if some {
			outs = append(outs, &Out{st: st.clone(), res: []*V{mk(yes, true)}})
		}
		if miss && x.CommaOk {
			outs = append(outs, &Out{st: st.clone(), res: []*V{mk(zero, false)}})
		}
		if len(outs) == 0 {
			return e.definitePanic(st, x)
		}
		return outs
	}
	var yes *V
	miss := a.k != KIface || a.top || a.nn&isNil != 0
	if a.k == KIface {
		for i, t := range a.dt {
			if types.Identical(t, x.AssertedType) {
				yes = vJoin(yes, a.dv[i], &JC{})
			} else {
				miss = true
			}
		}
	}
	if yes == nil && (a.k != KIface || a.top) {
		yes = vUnknown(x.AssertedType, a.lab)
		if yes.k == KPtr {
			yes.nn = nonNil
		}
	}
	if yes != nil {
		outs = append(outs, &Out{st: st.clone(), res: []*V{mk(yes, true)}})
	}
	if miss && x.CommaOk {
		outs = append(outs, &Out{st: st.clone(), res: []*V{mk(zero, false)}})
	}
	if len(outs) == 0 {
		return e.definitePanic(st, x)
	}
	return outs
}

func (e *Engine) definitePanic(st *State, at ssa.Instruction) []*Out {
	st = st.clone()
	st.pan = &panicInfo{site: e.pos(at)}
	st.note("%s: run-time panic", e.pos(at))
	return []*Out{{st: st, panic: true}}
}

func (e *Engine) sliceOp(act *Act, st *State, x *ssa.Slice) []*Out {
	a := e.val(st, x.X)
	lo := vInt(0)
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	var hi, mx *V
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	if x.Max != nil {
		mx = e.val(st, x.Max)
	}
	if isStringType(x.X.Type()) {
		if a.k != KStr {
			return []*Out{{st: st, res: []*V{vUnknown(x.Type(), a.lab)}}}
		}
		r := e.substr(a, lo, hi)
		return e.splitName(act, st, x, r)
	}
	base := a
	if a.k == KPtr { // pointer to array
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		base = &V{k: KSlice, nn: nonNil, tg: a.tg, off: vInt(0), ln: vInt(at.Len()), cp: vInt(at.Len()), top: a.top, lab: a.lab}
	}
	if base.k != KSlice {
		return []*Out{{st: st, res: []*V{vUnknown(x.Type(), a.lab)}}}
	}
	if e.cfg.OnSlice != nil {
		e.cfg.OnSlice(&Ev{e: e, act: act, st: st, instr: x}, base, lo, hi)
	}
	r := &V{k: KSlice, nn: base.nn, tg: base.tg, top: base.top, lab: base.lab, cp: base.cp}
	if x.X.Type().Underlying() != nil && a.k == KPtr {
		r.nn = nonNil
	}
	it := types.Typ[types.Int]
	if c, ok := lo.isConst(); ok && c == 0 {
		r.off = base.off
	} else {
		r.off = e.arith(it, token.ADD, base.off, lo)
		if base.cp != nil {
			r.cp = e.arith(it, token.SUB, base.cp, lo)
		}
	}
	h := hi
	if h == nil {
		h = base.ln
	}
	r.ln = e.arith(it, token.SUB, h, lo)
	if r.ln.lo < 0 {
		w := *r.ln
		w.lo = 0
		if w.hi < 0 {
			w.hi = posInf
		}
		r.ln = &w
	}
	if mx != nil {
		r.cp = e.arith(it, token.SUB, mx, lo)
	}
	return []*Out{{st: st, res: []*V{r}}}
}

// a name without slash is one of "", ".", ".." or an ordinary name
func (e *Engine) splitName(act *Act, st *State, at ssa.Instruction, r *V) []*Out {
	if !e.cfg.SplitNames || len(r.ps) != 1 || r.ps[0].sym == "" || r.ps[0].fl&fNoSlash == 0 || r.ps[0].fl&fNonDot != 0 || r.lab == 0 {
		return []*Out{{st: st, res: []*V{r}}}
	}
	var outs []*Out
	for _, c := range []string{"", ".", ".."} {
		s := st.clone()
		s.set("nm", "'"+c+"'")
		s.note("%s: last path element of the name is %q", e.pos(at), c)
		v := vStr(c)
		v.lab = r.lab
		for i := range v.ps {
			v.ps[i].lab = r.lab
		}
		outs = append(outs, &Out{st: s, res: []*V{v}})
	}
	w := *r
	w.ps = append([]Piece(nil), r.ps...)
	w.ps[0].fl |= fNonDot
	if w.ln.lo < 1 {
		l := *w.ln
		l.lo = 1
		w.ln = &l
	}
	s := st.clone()
	s.set("nm", "ord")
	outs = append(outs, &Out{st: s, res: []*V{&w}})
	return outs
}

// ---- calls ----

func (e *Engine) callCommon(act *Act, st *State, instr ssa.Instruction, com *ssa.CallCommon, fv *V, args []*V) []*Out {
	if bl, ok := com.Value.(*ssa.Builtin); ok {
		return e.builtin(act, st, instr, bl.Name(), com, args)
	}
	if com.IsInvoke() {
		return e.invoke(act, st, instr, com, fv, args)
	}
	if fv == nil || fv.k != KFunc || len(fv.fn) == 0 {
		e.unsup["call of unknown function value at "+e.pos(instr)] = true
		return e.extCall(act, st, instr, "?func", nil, args, com)
	}
	var outs []*Out
	for i, c := range fv.fn {
		s := st
		if i < len(fv.fn)-1 {
			s = st.clone()
		}
		a := args
		if c.recv != nil {
			a = append([]*V{c.recv}, args...)
		}
		outs = append(outs, e.callTarget(act, s, instr, c.fn, a, c.bind, com)...)
	}
	return outs
}

func (e *Engine) callTarget(act *Act, st *State, instr ssa.Instruction, fn *ssa.Function, args, bind []*V, com *ssa.CallCommon) []*Out {
	e.calls[fn.Name()]++
	if fn.Blocks != nil {
		return e.callFn(act, instr, fn, args, bind, st)
	}
	return e.extCall(act, st, instr, extName(fn), fn, args, com)
}

func extName(fn *ssa.Function) string {
	s := fn.String()
	return s
}

func (e *Engine) invoke(act *Act, st *State, instr ssa.Instruction, com *ssa.CallCommon, recv *V, args []*V) []*Out {
	var outs []*Out
	if recv.k == KIface {
		for i, t := range recv.dt {
			m := e.lookupMethod(t, com.Method)
			s := st.clone()
			a := append([]*V{recv.dv[i]}, args...)
			if m != nil && m.Blocks != nil {
				outs = append(outs, e.callFn(act, instr, m, a, nil, s)...)
				continue
			}
			name := "(" + t.String() + ")." + com.Method.Name()
			outs = append(outs, e.extCall(act, s, instr, name, m, a, com)...)
		}
		if len(recv.dt) > 0 && !recv.top {
			return outs
		}
		if recv.nn == isNil {
			return append(outs, e.definitePanic(st, instr)...)
		}
	}
	it := com.Value.Type().String()
	name := "invoke " + it + "." + com.Method.Name()
	a := append([]*V{recv}, args...)
	return append(outs, e.extCall(act, st.clone(), instr, name, nil, a, com)...)
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	defer func() { _ = recover() }()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) builtin(act *Act, st *State, instr ssa.Instruction, name string, com *ssa.CallCommon, args []*V) []*Out {
	one := func(v *V) []*Out { return []*Out{{st: st, res: []*V{v}}} }
	switch name {
	case "len", "cap":
		a := args[0]
		switch a.k {
		case KSlice:
			if name == "cap" {
				if a.cp != nil {
					return one(a.cp)
				}
				return one(vRange(a.ln.lo, posInf))
			}
			if a.nn == isNil {
				return one(vInt(0))
			}
			return one(a.ln)
		case KStr:
			if s, ok := a.constStr(); ok {
				return one(vInt(int64(len(s))))
			}
			if a.ln != nil {
				return one(a.ln)
			}
		}
		if at, ok := com.Args[0].Type().Underlying().(*types.Array); ok {
			return one(vInt(at.Len()))
		}
		if p, ok := com.Args[0].Type().Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				return one(vInt(at.Len()))
			}
		}
		return one(vRange(0, posInf))
	case "append":
		return e.appendOp(act, st, instr, com, args)
	case "copy":
		return e.copyOp(act, st, instr, com, args)
	case "recover":
		v := &V{k: KIface, nn: isNil}
		if st.pan != nil {
			v = &V{k: KIface, nn: nonNil, top: true, ec: ecOther}
			st.pan = nil
		}
		return one(v)
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			if r.k != KInt || b.k != KInt {
				return one(vUnknown(com.Args[0].Type(), r.lab|b.lab))
			}
			v := &V{k: KInt, lab: r.lab | b.lab}
			if name == "min" {
				v.lo, v.hi = min(r.lo, b.lo), min(r.hi, b.hi)
				if r.hi <= b.lo {
					v = r
				} else if b.hi <= r.lo {
					v = b
				}
			} else {
				v.lo, v.hi = max(r.lo, b.lo), max(r.hi, b.hi)
				if r.lo >= b.hi {
					v = r
				} else if b.lo >= r.hi {
					v = b
				}
			}
			r = v
		}
		return one(r)
	case "delete":
		return []*Out{{st: st}}
	case "clear":
		if args[0].k == KSlice {
			if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
				e.fillSlice(st, args[0], sl.Elem(), vZero(sl.Elem()))
			}
		}
		return []*Out{{st: st}}
	case "print", "println", "close":
		return []*Out{{st: st}}
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	var t types.Type = types.NewTuple()
	if v, ok := instr.(ssa.Value); ok {
		t = v.Type()
	}
	return one(vUnknown(t, 0))
}

// every element of the slice gets v
func (e *Engine) fillSlice(st *State, s *V, elem types.Type, v *V) {
	if s.k != KSlice {
		return
	}
	whole := false
	if c, ok := s.off.isConst(); ok && c == 0 && len(s.tg) == 1 && !s.top && !e.objs[s.tg[0].o].summary && e.objs[s.tg[0].o].dyn {
		if s.cp != nil && vEq(s.cp, s.ln) {
			whole = true
		}
	}
	for _, a := range s.tg {
		if _, isS := elem.Underlying().(*types.Struct); isS {
			e.store(st, &V{k: KPtr, nn: nonNil, tg: []Addr{{a.o, e.path(a.p, '*', 0)}}}, elem, v)
			continue
		}
		if whole {
			e.havocUnder(st, a, v.lab, elem)
			e.putCell(st, Addr{a.o, e.path(a.p, '*', 0)}, anon(v))
			continue
		}
		off, ook := s.off.isConst()
		ln, lok := s.ln.isConst()
		if ook && lok && (ln <= 64 || e.cfg.Exact) && len(s.tg) == 1 {
			for i := int64(0); i < ln; i++ {
				e.writeCell(st, Addr{a.o, e.path(a.p, 'i', off+i)}, nil, elem, anon(v), true)
			}
			continue
		}
		ix := &V{k: KInt, lo: s.off.lo, hi: satAdd(s.off.hi, s.ln.hi)}
		e.writeCell(st, Addr{a.o, e.path(a.p, '*', 0)}, ix, elem, v, false)
	}
}

func (e *Engine) sliceElem(st *State, s *V, i *V, elem types.Type) *V {
	p := e.indexAddr(s, i)
	return e.load(st, p, elem)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return types.Typ[types.Uint8]
}

func (e *Engine) appendOp(act *Act, st *State, instr ssa.Instruction, com *ssa.CallCommon, args []*V) []*Out {
	a := args[0]
	v, _ := instr.(ssa.Value)
	elem := elemType(com.Args[0].Type())
	if len(args) == 1 {
		return []*Out{{st: st, res: []*V{a}}}
	}
	b := args[1]
	if e.cfg.OnAppend != nil {
		e.cfg.OnAppend(&Ev{e: e, act: act, st: st, instr: instr, com: com}, a, b)
	}
	it := types.Typ[types.Int]
	if a.k != KSlice {
		return []*Out{{st: st, res: []*V{vUnknown(v.Type(), a.lab|b.lab)}}}
	}
	bl := b.ln
	if bl == nil {
		bl = vRange(0, posInf)
	}
	al := a.ln
	if a.nn == isNil {
		al = vInt(0)
	}
	// read both before allocating (the site may hold an operand)
	type ev struct {
		i int64
		v *V
	}
	var els []ev
	exact := false
	ac, aok := al.isConst()
	bc, bok := bl.isConst()
	var star *V
	if aok && bok && (ac+bc <= 300 || e.cfg.Mod && ac+bc <= 4000) && (a.off == nil || a.nn == isNil || isC(a.off)) && (b.k == KStr || isC(b.off)) {
		exact = true
		for i := int64(0); i < ac; i++ {
			els = append(els, ev{i, e.sliceElem(st, a, vInt(i), elem)})
		}
		for i := int64(0); i < bc; i++ {
			if b.k == KStr {
				els = append(els, ev{ac + i, e.indexVal(st, elem, b, vInt(i))})
			} else {
				els = append(els, ev{ac + i, e.sliceElem(st, b, vInt(i), elem)})
			}
		}
	} else {
		if a.nn != isNil {
			star = e.sliceElem(st, a, vRange(0, posInf), elem)
		}
		if b.k == KStr {
			star = vJoin(star, vUnknown(elem, b.lab), &JC{})
		} else if b.k == KSlice && b.nn != isNil {
			star = vJoin(star, e.sliceElem(st, b, vRange(0, posInf), elem), &JC{})
		}
	}
	o := e.alloc(st, act, instr, "", nil)
	addr := Addr{o.id, 0}
	if exact {
		for _, x := range els {
			e.writeCell(st, Addr{o.id, e.path(0, 'i', x.i)}, nil, elem, x.v, true)
		}
	} else if star != nil {
		e.store(st, &V{k: KPtr, nn: nonNil, tg: []Addr{{o.id, e.path(0, '*', 0)}}}, elem, star)
		e.putStar(st, addr, elem, star)
	}
	r := &V{k: KSlice, nn: nonNil, tg: []Addr{addr}, off: vInt(0), ln: e.arith(it, token.ADD, al, bl), lab: a.lab | b.lab}
	if r.ln.lo < 0 {
		r.ln = vRange(0, posInf)
	}
	if c, ok := r.ln.isConst(); ok && c == 0 {
		return []*Out{{st: st, res: []*V{a}}}
	}
	return []*Out{{st: st, res: []*V{r}}}
}

// a fresh object whose elements are all described by v
func (e *Engine) putStar(st *State, a Addr, elem types.Type, v *V) {
	if u, ok := elem.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			if v.k == KAgg && i < len(v.el) {
				p := Addr{a.o, e.path(e.path(a.p, '*', 0), 'f', int64(i))}
				e.noteType(p, u.Field(i).Type())
				e.putCell(st, p, anon(v.el[i]))
			}
		}
		return
	}
	p := Addr{a.o, e.path(a.p, '*', 0)}
	e.noteType(p, elem)
	e.putCell(st, p, anon(v))
}

func isC(v *V) bool { _, ok := v.isConst(); return ok }

func (e *Engine) copyOp(act *Act, st *State, instr ssa.Instruction, com *ssa.CallCommon, args []*V) []*Out {
	d, s := args[0], args[1]
	elem := elemType(com.Args[0].Type())
	n := vRange(0, posInf)
	if d.k == KSlice && s.ln != nil {
		n = &V{k: KInt, lo: min(d.ln.lo, s.ln.lo), hi: min(d.ln.hi, s.ln.hi), lab: d.ln.lab | s.ln.lab}
		if n.lo == n.hi {
			n.t = tConst(n.lo)
		} else if d.ln.t != nil && d.ln.t.eq(s.ln.t) {
			n.t = d.ln.t
		} else if d.ln.lo >= s.ln.hi {
			n.t = s.ln.t
		} else if s.ln.lo >= d.ln.hi {
			n.t = d.ln.t
		}
	}
	if e.cfg.OnCopy != nil {
		e.cfg.OnCopy(&Ev{e: e, act: act, st: st, instr: instr, com: com}, d, s, n)
	}
	if d.k == KSlice {
		c, ok := n.isConst()
		if ok && (c <= 64 || e.cfg.Exact) && isC(d.off) && (s.k == KStr || s.k == KSlice && isC(s.off)) {
			var vs []*V
			for i := int64(0); i < c; i++ {
				if s.k == KStr {
					vs = append(vs, e.indexVal(st, elem, s, vInt(i)))
				} else {
					vs = append(vs, e.sliceElem(st, s, vInt(i), elem))
				}
			}
			for i, v := range vs {
				e.store(st, e.indexAddr(d, vInt(int64(i))), elem, v)
			}
		} else {
			var v *V
			if s.k == KSlice && s.nn != isNil {
				v = e.sliceElem(st, s, &V{k: KInt, lo: 0, hi: posInf}, elem)
			} else {
				v = vUnknown(elem, s.lab)
			}
			ix := vRange(0, n.hi)
			if n.hi > 0 && n.hi < posInf {
				ix = vRange(0, n.hi-1)
			}
			p := e.indexAddr(d, ix)
			e.store(st, p, elem, v)
		}
	}
	return []*Out{{st: st, res: []*V{n}}}
}

// ---- branches ----

func (e *Engine) branch(act *Act, b *ssa.BasicBlock, x *ssa.If, st *State, add func(*ssa.BasicBlock, *State)) {
	c := e.val(st, x.Cond)
	if e.cfg.OnBranch != nil {
		e.cfg.OnBranch(&Ev{e: e, act: act, st: st, instr: x}, x.Cond, c)
	}
	if c.k == KInt && c.lo == c.hi {
		i := 1
		if c.lo != 0 {
			i = 0
		}
		e.goTo(act, b, b.Succs[i], st, add)
		return
	}
	t := st.clone()
	if e.refine(t, x.Cond, true, 0) {
		e.goTo(act, b, b.Succs[0], t, add)
	}
	f := st.clone()
	if e.refine(f, x.Cond, false, 0) {
		e.goTo(act, b, b.Succs[1], f, add)
	}
}

// replace a value everywhere it is known to be the same
func (e *Engine) subst(st *State, old, nw *V) {
	if old == nw {
		return
	}
	e.mapState(st, func(v *V) *V {
		if v == old {
			return nw
		}
		return v
	})
}

func (e *Engine) setVal(st *State, x ssa.Value, nw *V) {
	if _, ok := x.(*ssa.Const); ok {
		return
	}
	old := st.reg(x)
	if old != nil {
		e.subst(st, old, nw)
	}
	// the register may be dead already; its origin may still be live in memory
}

func (e *Engine) refine(st *State, c ssa.Value, want bool, depth int) bool {
	if depth > 6 {
		return true
	}
	v := st.reg2(c)
	if v != nil && v.k == KInt {
		w := int64(0)
		if want {
			w = 1
		}
		if v.lo == v.hi {
			return v.lo == w
		}
		if v.cond != nil {
			// remembered comparison of values
			if !e.refineCmp(st, v.cond, want) {
				return false
			}
		}
		nv := &V{k: KInt, lo: w, hi: w, t: tConst(w), lab: v.lab}
		e.subst(st, v, nv)
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.refine(st, x.X, !want, depth+1)
		}
	case *ssa.BinOp:
		return e.refineOp(st, x, want)
	case *ssa.Call, *ssa.Extract:
		return e.refineExt(st, c, want)
	}
	return true
}

func (s *State) reg2(r ssa.Value) *V {
	f := s.top()
	if n, ok := f.lv.num[r]; ok {
		return f.regs[n]
	}
	return nil
}

func (e *Engine) refineOp(st *State, x *ssa.BinOp, want bool) bool {
	a, b := e.val(st, x.X), e.val(st, x.Y)
	op := x.Op
	if !want {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		default:
			return true
		}
	}
	if isBoolType(x.X.Type()) {
		// comparison of booleans
		if c, ok := b.isConst(); ok && (op == token.EQL || op == token.NEQ) {
			w := c != 0
			if op == token.NEQ {
				w = !w
			}
			return e.refine(st, x.X, w, 1)
		}
		return true
	}
	return e.refineVals(st, op, x.X, x.Y, a, b)
}

func (e *Engine) refineVals(st *State, op token.Token, xa, xb ssa.Value, a, b *V) bool {
	if a.k == KInt && b.k == KInt {
		na, nb, ok := refineInt(op, a, b)
		if !ok {
			return false
		}
		if e.cfg.OnCmp != nil {
			e.cfg.OnCmp(st, op, a, b)
		}
		if na != nil {
			e.setInt(st, xa, a, na, 0)
		}
		if nb != nil {
			e.setInt(st, xb, b, nb, 0)
		}
		return true
	}
	if op != token.EQL && op != token.NEQ {
		return true
	}
	eq := op == token.EQL
	nilable := func(v *V) bool { return v.k == KPtr || v.k == KSlice || v.k == KIface || v.k == KFunc }
	if nilable(a) && nilable(b) {
		if a.nn == isNil {
			xa, xb = xb, xa
			a, b = b, a
		}
		if b.nn == isNil {
			if eq {
				if a.nn&isNil == 0 {
					return false
				}
				w := *a
				w.nn, w.tg, w.dt, w.dv, w.ec, w.top, w.fn = isNil, nil, nil, nil, 0, false, nil
				if w.k == KSlice {
					w.ln = vInt(0)
				}
				e.subst(st, a, &w)
			} else {
				if a.nn&nonNil == 0 {
					return false
				}
				w := *a
				w.nn = nonNil
				e.subst(st, a, &w)
			}
			return true
		}
		if a.k == KIface && b.k == KIface {
			if a.id != "" && b.id == "" {
				xa, xb = xb, xa
				a, b = b, a
			}
			if b.id == "io.EOF" || b.id == "io.ErrUnexpectedEOF" {
				w := *a
				if eq {
					if a.ec&b.ec == 0 && !a.top {
						return false
					}
					w.nn, w.ec, w.id = nonNil, b.ec, b.id
				} else {
					if a.id == b.id {
						return false
					}
					w.ec &^= b.ec
					if w.ec == 0 && w.nn == nonNil && len(w.dt) == 0 {
						return false
					}
				}
				e.subst(st, a, &w)
			}
		}
		return true
	}
	if a.k == KStr && b.k == KStr {
		if c, ok := a.constStr(); ok {
			_ = c
			xa, xb = xb, xa
			a, b = b, a
		}
		c, ok := b.constStr()
		if !ok {
			return true
		}
		if eq {
			w := vStr(c)
			w.lab = a.lab
			for i := range w.ps {
				w.ps[i].lab = a.lab
			}
			w.id = a.id
			e.subst(st, a, w)
		} else if len(a.ps) == 1 && a.ps[0].sym != "" && c == "" && a.ln != nil && a.ln.lo == 0 {
			w := *a
			l := *a.ln
			l.lo = 1
			w.ln = &l
			e.subst(st, a, &w)
		}
	}
	return true
}

func refineInt(op token.Token, a, b *V) (*V, *V, bool) {
	na, nb := *a, *b
	switch op {
	case token.EQL:
		na.lo, na.hi = max(a.lo, b.lo), min(a.hi, b.hi)
		nb.lo, nb.hi = na.lo, na.hi
	case token.NEQ:
		if b.lo == b.hi {
			if a.lo == a.hi && a.lo == b.lo {
				return nil, nil, false
			}
			if a.lo == b.lo && a.lo != negInf {
				na.lo++
			} else if a.hi == b.lo && a.hi != posInf {
				na.hi--
			}
		}
		if a.lo == a.hi {
			if b.lo == a.lo && b.lo != negInf {
				nb.lo++
			} else if b.hi == a.lo && b.hi != posInf {
				nb.hi--
			}
		}
	case token.LSS:
		if b.hi != posInf {
			na.hi = min(a.hi, b.hi-1)
		}
		if a.lo != negInf {
			nb.lo = max(b.lo, satAdd(a.lo, 1))
		}
	case token.LEQ:
		na.hi = min(a.hi, b.hi)
		nb.lo = max(b.lo, a.lo)
	case token.GTR:
		if b.lo != negInf {
			na.lo = max(a.lo, satAdd(b.lo, 1))
		}
		if a.hi != posInf {
			nb.hi = min(b.hi, a.hi-1)
		}
	case token.GEQ:
		na.lo = max(a.lo, b.lo)
		nb.hi = min(b.hi, a.hi)
	default:
		return nil, nil, true
	}
	if na.lo > na.hi || nb.lo > nb.hi {
		return nil, nil, false
	}
	fix := func(o, n *V) *V {
		if o.lo == n.lo && o.hi == n.hi {
			return nil
		}
		if n.lo == n.hi {
			n.t = tConst(n.lo)
		}
		return n
	}
	return fix(a, &na), fix(b, &nb), true
}

// narrow an integer value and what it was computed from
func (e *Engine) setInt(st *State, x ssa.Value, old, nw *V, depth int) {
	if _, ok := x.(*ssa.Const); ok || x == nil {
		return
	}
	e.subst(st, old, nw)
	if depth > 4 {
		return
	}
	switch y := x.(type) {
	case *ssa.Convert:
		s := st.reg2(y.X)
		if s == nil || s.k != KInt {
			return
		}
		lo, hi := typeRange(y.Type())
		if s.lo >= lo && s.hi <= hi || (lo == 0 && hi == posInf && s.lo >= 0) {
			w := *s
			w.lo, w.hi = max(s.lo, nw.lo), min(s.hi, nw.hi)
			if w.lo > w.hi || w.lo == s.lo && w.hi == s.hi {
				return
			}
			if w.lo == w.hi {
				w.t = tConst(w.lo)
			}
			e.setInt(st, y.X, s, &w, depth+1)
		}
	case *ssa.BinOp:
		s := st.reg2(y.X)
		if s == nil || s.k != KInt {
			return
		}
		k, ok := e.val(st, y.Y).isConst()
		if !ok || (y.Op != token.ADD && y.Op != token.SUB) {
			return
		}
		if n, signed, _ := intInfo(y.Type()); n != 64 || !signed {
			return
		}
		if y.Op == token.ADD {
			k = -k
		}
		w := *s
		if nw.lo != negInf {
			w.lo = max(s.lo, satAdd(nw.lo, k))
		}
		if nw.hi != posInf {
			w.hi = min(s.hi, satAdd(nw.hi, k))
		}
		if w.lo > w.hi || w.lo == s.lo && w.hi == s.hi {
			return
		}
		if w.lo == w.hi {
			w.t = tConst(w.lo)
		}
		e.setInt(st, y.X, s, &w, depth+1)
	}
}

// comparisons remembered in a boolean
type cmpInfo struct {
	kind string // "notexist", "iseof" ...
	v    *V
	ec   uint16
	tsk  string
	tsv  [2]string
}

func (e *Engine) refineCmp(st *State, c *cmpInfo, want bool) bool {
	switch c.kind {
	case "errclass":
		w := *c.v
		if want {
			if c.v.ec&c.ec == 0 {
				return false
			}
			w.nn, w.ec = nonNil, c.v.ec&c.ec
		} else {
			w.ec = c.v.ec &^ c.ec
			if w.ec == 0 && len(w.dt) == 0 {
				if w.nn&isNil == 0 {
					return false
				}
				w.nn, w.top = isNil, false
			}
		}
		e.subst(st, c.v, &w)
	case "ts":
		i := 0
		if want {
			i = 1
		}
		if c.tsv[i] != "" {
			st.set(c.tsk, c.tsv[i])
		}
	case "hasprefix-slash":
		_ = strings.HasPrefix
	}
	return true
}

func (e *Engine) refineExt(st *State, c ssa.Value, want bool) bool { return true }
