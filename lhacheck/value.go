package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- abstract values ----

type Kind uint8

const (
	KTop Kind = iota
	KInt
	KPtr
	KSlice
	KStr
	KIface
	KFunc
	KAgg
)

const (
	isNil    uint8 = 1
	nonNil   uint8 = 2
	maybeNil uint8 = 3
)

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

// error classes (KIface values of type error)
const (
	ecEOF uint16 = 1 << iota
	ecUEOF
	ecNotExist
	ecOther
	ecExist
)

const ecAll = ecEOF | ecUEOF | ecNotExist | ecOther | ecExist

type Addr struct{ o, p int32 }

// Piece of a string value: constant text or a symbolic part with known shape.
type Piece struct {
	c   string
	sym string // "" for constant
	fl  uint16
	lab uint64
}

const (
	fNoSlash   uint16 = 1 << iota // contains no '/'
	fNonDot                       // is none of "", ".", ".."
	fFirstChar                    // the constant before it fixes the first char only
)

type Closure struct {
	fn   *ssa.Function
	bind []*V
	recv *V // bound method receiver
}

type V struct {
	k      Kind
	lo, hi int64
	t      *Term
	bits   []Bit
	nn     uint8
	tg     []Addr
	off    *V
	ln     *V
	ix     *V
	cp     *V // capacity of a slice
	cond   *cmpInfo
	ps     []Piece
	dt     []types.Type
	dv     []*V
	fn     []*Closure
	el     []*V
	ec     uint16
	lab    uint64
	id     string // identity of a string/opaque value ("" unknown)
	top    bool   // pointer/iface/func: may also be something unknown
}

// ---- linear terms ----

type tm struct {
	s int32
	k int64
}
type Term struct {
	c int64
	m []tm
}

// longest linear form that is kept (a check may raise it)
var termMax = 8

func tConst(c int64) *Term { return &Term{c: c} }
func tSym(s int32) *Term   { return &Term{m: []tm{{s, 1}}} }
func (a *Term) eq(b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	if a.c != b.c || len(a.m) != len(b.m) {
		return false
	}
	for i := range a.m {
		if a.m[i] != b.m[i] {
			return false
		}
	}
	return true
}
func tAdd(a, b *Term, kb int64) *Term {
	if a == nil || b == nil {
		return nil
	}
	r := &Term{c: a.c + kb*b.c}
	i, j := 0, 0
	for i < len(a.m) || j < len(b.m) {
		switch {
		case j >= len(b.m) || (i < len(a.m) && a.m[i].s < b.m[j].s):
			r.m = append(r.m, a.m[i])
			i++
		case i >= len(a.m) || b.m[j].s < a.m[i].s:
			r.m = append(r.m, tm{b.m[j].s, kb * b.m[j].k})
			j++
		default:
			k := a.m[i].k + kb*b.m[j].k
			if k != 0 {
				r.m = append(r.m, tm{a.m[i].s, k})
			}
			i++
			j++
		}
	}
	if len(r.m) > termMax {
		return nil
	}
	return r
}
func tScale(a *Term, k int64) *Term {
	if a == nil {
		return nil
	}
	if k == 0 {
		return tConst(0)
	}
	r := &Term{c: a.c * k}
	for _, x := range a.m {
		r.m = append(r.m, tm{x.s, x.k * k})
	}
	return r
}
func (a *Term) isConst() bool { return a != nil && len(a.m) == 0 }
func (a *Term) has(s int32) bool {
	if a == nil {
		return false
	}
	for _, x := range a.m {
		if x.s == s {
			return true
		}
	}
	return false
}
func (a *Term) key() string {
	if a == nil {
		return "?"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", a.c)
	for _, x := range a.m {
		fmt.Fprintf(&sb, "+%d*s%d", x.k, x.s)
	}
	return sb.String()
}

// ---- GF(2)-affine bits ----

// Bit is a constant plus a xor of bit symbols; nil Bit slice in a V = unknown.
type Bit struct {
	top bool
	c   uint8
	s   []int64 // sorted: sym<<8 | bit index
}

func bConst(c uint8) Bit { return Bit{c: c & 1} }
func (b Bit) isConst() bool {
	return !b.top && len(b.s) == 0
}
func (b Bit) zero() bool { return b.isConst() && b.c == 0 }
func bXor(a, b Bit) Bit {
	if a.top || b.top {
		return Bit{top: true}
	}
	r := Bit{c: a.c ^ b.c}
	i, j := 0, 0
	for i < len(a.s) || j < len(b.s) {
		switch {
		case j >= len(b.s) || (i < len(a.s) && a.s[i] < b.s[j]):
			r.s = append(r.s, a.s[i])
			i++
		case i >= len(a.s) || b.s[j] < a.s[i]:
			r.s = append(r.s, b.s[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}
func bEq(a, b Bit) bool {
	if a.top || b.top || a.c != b.c || len(a.s) != len(b.s) {
		return a.top && b.top
	}
	for i := range a.s {
		if a.s[i] != b.s[i] {
			return false
		}
	}
	return true
}
func bitsEq(a, b []Bit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ---- constructors ----

func vTop(lab uint64) *V { return &V{k: KTop, lab: lab} }
func vInt(c int64) *V    { return &V{k: KInt, lo: c, hi: c, t: tConst(c)} }
func vRange(lo, hi int64) *V {
	v := &V{k: KInt, lo: lo, hi: hi}
	if lo == hi {
		v.t = tConst(lo)
	}
	return v
}
func vBool(b bool) *V {
	if b {
		return vInt(1)
	}
	return vInt(0)
}
func vBoolAny() *V { return &V{k: KInt, lo: 0, hi: 1} }
func vNilOf(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return &V{k: KPtr, nn: isNil}
	case *types.Slice:
		return &V{k: KSlice, nn: isNil, off: vInt(0), ln: vInt(0)}
	case *types.Interface:
		return &V{k: KIface, nn: isNil}
	case *types.Signature:
		return &V{k: KFunc, nn: isNil}
	case *types.Basic:
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return &V{k: KPtr, nn: isNil}
		}
	}
	return vTop(0)
}
func vStr(s string) *V {
	return &V{k: KStr, ps: normPieces([]Piece{{c: s}}), ln: vInt(int64(len(s)))}
}
func vSymStr(sym string, fl uint16, lab uint64) *V {
	return &V{k: KStr, ps: []Piece{{sym: sym, fl: fl, lab: lab}}, lab: lab, ln: vRange(0, posInf)}
}
func vErr(ec uint16) *V { return &V{k: KIface, nn: nonNil, ec: ec, top: true} }
func vNilErr() *V       { return &V{k: KIface, nn: isNil} }
func vPtr(a Addr) *V    { return &V{k: KPtr, nn: nonNil, tg: []Addr{a}} }
func normPieces(ps []Piece) []Piece {
	var r []Piece
	for _, p := range ps {
		if p.sym == "" && p.c == "" {
			continue
		}
		if p.sym == "" && len(r) > 0 && r[len(r)-1].sym == "" {
			r[len(r)-1].c += p.c
			continue
		}
		r = append(r, p)
	}
	return r
}

func (v *V) isConst() (int64, bool) {
	if v != nil && v.k == KInt && v.lo == v.hi {
		return v.lo, true
	}
	return 0, false
}
func (v *V) constStr() (string, bool) {
	if v == nil || v.k != KStr {
		return "", false
	}
	if len(v.ps) == 0 && v.id == "" && v.ln != nil {
		if c, ok := v.ln.isConst(); ok && c == 0 {
			return "", true
		}
		return "", false
	}
	if len(v.ps) == 1 && v.ps[0].sym == "" {
		return v.ps[0].c, true
	}
	return "", false
}
func (v *V) mayNil() bool    { return v.k == KTop || v.nn&isNil != 0 }
func (v *V) mayNonNil() bool { return v.k == KTop || v.nn&nonNil != 0 }

func (v *V) String() string {
	if v == nil {
		return "⊥"
	}
	l := ""
	if v.lab != 0 {
		l = fmt.Sprintf("#%x", v.lab)
	}
	switch v.k {
	case KTop:
		return "⊤" + l
	case KInt:
		s := ""
		if v.lo == v.hi {
			s = fmt.Sprint(v.lo)
		} else {
			lo, hi := fmt.Sprint(v.lo), fmt.Sprint(v.hi)
			if v.lo == negInf {
				lo = "-inf"
			}
			if v.hi == posInf {
				hi = "inf"
			}
			s = "[" + lo + "," + hi + "]"
			if v.t != nil {
				s += "=" + v.t.key()
			}
		}
		return s + l
	case KPtr:
		return fmt.Sprintf("ptr(nn%d,%v,%v)%s", v.nn, v.tg, v.top, l)
	case KSlice:
		return fmt.Sprintf("slice(nn%d,%v,off=%v,len=%v)%s", v.nn, v.tg, v.off, v.ln, l)
	case KStr:
		s := ""
		for _, p := range v.ps {
			if p.sym == "" {
				s += fmt.Sprintf("%q", p.c)
			} else {
				s += fmt.Sprintf("<%s:%d>", p.sym, p.fl)
			}
		}
		return "str(" + s + ")" + l
	case KIface:
		return fmt.Sprintf("iface(nn%d,%v,ec%x,top%v)%s", v.nn, v.dt, v.ec, v.top, l)
	case KFunc:
		return fmt.Sprintf("func(nn%d,%d)", v.nn, len(v.fn))
	case KAgg:
		return fmt.Sprintf("agg%v", v.el)
	}
	return "?"
}

// ---- types ----

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Bool, types.UntypedBool:
		return 1, false, true
	}
	return 0, false, false
}
func typeRange(t types.Type) (int64, int64) {
	n, s, ok := intInfo(t)
	if !ok {
		return negInf, posInf
	}
	if n == 64 {
		if s {
			return negInf, posInf
		}
		return 0, posInf
	}
	if s {
		return -(1 << (n - 1)), 1<<(n-1) - 1
	}
	return 0, 1<<n - 1
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// unknown of a type (fresh pointer each time)
func vUnknown(t types.Type, lab uint64) *V {
	if tup, ok := t.(*types.Tuple); ok {
		r := &V{k: KAgg, lab: lab}
		for i := 0; i < tup.Len(); i++ {
			r.el = append(r.el, vUnknown(tup.At(i).Type(), lab))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			lo, hi := typeRange(t)
			return &V{k: KInt, lo: lo, hi: hi, lab: lab}
		}
		if u.Info()&types.IsString != 0 {
			return vSymStr("?", 0, lab)
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return &V{k: KPtr, nn: maybeNil, top: true, lab: lab}
	case *types.Slice:
		return &V{k: KSlice, nn: maybeNil, top: true, off: vInt(0), ln: vRange(0, posInf), lab: lab}
	case *types.Interface:
		return &V{k: KIface, nn: maybeNil, top: true, ec: ecAll, lab: lab}
	case *types.Signature:
		return &V{k: KFunc, nn: maybeNil, top: true, lab: lab}
	case *types.Struct:
		r := &V{k: KAgg, lab: lab}
		for i := 0; i < u.NumFields(); i++ {
			r.el = append(r.el, vUnknown(u.Field(i).Type(), lab))
		}
		return r
	}
	return vTop(lab)
}
func vZero(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			return vInt(0)
		}
		if u.Info()&types.IsString != 0 {
			return vStr("")
		}
	case *types.Struct:
		r := &V{k: KAgg}
		for i := 0; i < u.NumFields(); i++ {
			r.el = append(r.el, vZero(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		return vTop(0)
	}
	return vNilOf(t)
}

// ---- equality / join ----

func vEq(a, b *V) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.k != b.k || a.lab != b.lab || a.nn != b.nn || a.top != b.top || a.ec != b.ec || a.id != b.id || a.cond != b.cond {
		return false
	}
	switch a.k {
	case KInt:
		if a.lo != b.lo || a.hi != b.hi {
			return false
		}
		if (a.t == nil) != (b.t == nil) || (a.t != nil && !a.t.eq(b.t)) {
			return false
		}
		if len(a.bits) != len(b.bits) || (a.bits != nil && !bitsEq(a.bits, b.bits)) {
			return false
		}
		return true
	case KPtr:
		return addrsEq(a.tg, b.tg) && vEqN(a.ix, b.ix)
	case KSlice:
		return addrsEq(a.tg, b.tg) && vEqN(a.off, b.off) && vEqN(a.ln, b.ln) && vEqN(a.cp, b.cp)
	case KStr:
		if len(a.ps) != len(b.ps) || !vEqN(a.ln, b.ln) {
			return false
		}
		for i := range a.ps {
			if a.ps[i] != b.ps[i] {
				return false
			}
		}
		return true
	case KIface:
		if len(a.dt) != len(b.dt) {
			return false
		}
		for i := range a.dt {
			if !types.Identical(a.dt[i], b.dt[i]) || !vEqN(a.dv[i], b.dv[i]) {
				return false
			}
		}
		return true
	case KFunc:
		if len(a.fn) != len(b.fn) {
			return false
		}
		for i := range a.fn {
			if a.fn[i].fn != b.fn[i].fn || len(a.fn[i].bind) != len(b.fn[i].bind) {
				return false
			}
			for j := range a.fn[i].bind {
				if !vEqN(a.fn[i].bind[j], b.fn[i].bind[j]) {
					return false
				}
			}
		}
		return true
	case KAgg:
		if len(a.el) != len(b.el) {
			return false
		}
		for i := range a.el {
			if !vEqN(a.el[i], b.el[i]) {
				return false
			}
		}
		return true
	}
	return true
}
func vEqN(a, b *V) bool {
	if a == nil || b == nil {
		return a == b
	}
	return vEq(a, b)
}
func addrsEq(a, b []Addr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func addrsJoin(a, b []Addr) []Addr {
	if addrsEq(a, b) {
		return a
	}
	m := map[Addr]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	r := make([]Addr, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].o != r[j].o {
			return r[i].o < r[j].o
		}
		return r[i].p < r[j].p
	})
	return r
}

// JC is the context of one join: how differing terms are named.
type JC struct {
	widen bool
	thr   []int64
	term  func(a, b *Term) *Term // nil: drop
	site  string
	first map[*V]*V
	memo  map[[2]*V]*V
}

func (j *JC) wlo(o, n int64) int64 {
	if n >= o {
		return o
	}
	if !j.widen {
		return n
	}
	for i := len(j.thr) - 1; i >= 0; i-- {
		if j.thr[i] <= n {
			return j.thr[i]
		}
	}
	return negInf
}
func (j *JC) whi(o, n int64) int64 {
	if n <= o {
		return o
	}
	if !j.widen {
		return n
	}
	for _, t := range j.thr {
		if t >= n {
			return t
		}
	}
	return posInf
}

func vJoin(a, b *V, j *JC) *V {
	if a == b {
		return a
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if vEq(a, b) {
		return a
	}
	if a.k != b.k {
		// nil constants of several kinds
		return &V{k: KTop, lab: a.lab | b.lab}
	}
	r := &V{k: a.k, lab: a.lab | b.lab, nn: a.nn | b.nn, ec: a.ec | b.ec, top: a.top || b.top}
	if a.id == b.id {
		r.id = a.id
	}
	switch a.k {
	case KInt:
		r.lo, r.hi = j.wlo(a.lo, b.lo), j.whi(a.hi, b.hi)
		if a.t != nil && b.t != nil {
			if a.t.eq(b.t) && j.term == nil {
				r.t = a.t
			} else if j.term != nil {
				r.t = j.term(a.t, b.t)
			}
		}
		if r.lo == r.hi {
			r.t = tConst(r.lo)
		}
		if a.bits != nil && b.bits != nil && bitsEq(a.bits, b.bits) {
			r.bits = a.bits
		} else if a.bits != nil && b.bits != nil && len(a.bits) == len(b.bits) {
			r.bits = make([]Bit, len(a.bits))
			some := false
			for i := range a.bits {
				if bEq(a.bits[i], b.bits[i]) {
					r.bits[i] = a.bits[i]
					some = some || !a.bits[i].top
				} else {
					r.bits[i] = Bit{top: true}
				}
			}
			if !some {
				r.bits = nil
			}
		}
	case KPtr:
		r.tg = addrsJoin(a.tg, b.tg)
		if a.ix != nil && b.ix != nil {
			r.ix = vJoin(a.ix, b.ix, j)
		} else if a.ix != nil {
			r.ix = a.ix
		} else {
			r.ix = b.ix
		}
	case KSlice:
		r.tg = addrsJoin(a.tg, b.tg)
		r.off = joinNilAware(a, b, a.off, b.off, j)
		r.ln = vJoin(a.ln, b.ln, j)
		if a.cp != nil && b.cp != nil {
			r.cp = vJoin(a.cp, b.cp, j)
		}
	case KStr:
		r.ln = vJoin(a.ln, b.ln, j)
		if len(a.ps) == len(b.ps) {
			same := true
			ps := make([]Piece, len(a.ps))
			for i := range a.ps {
				x, y := a.ps[i], b.ps[i]
				if x.sym == y.sym && x.c == y.c {
					x.fl &= y.fl
					x.lab |= y.lab
					ps[i] = x
				} else {
					same = false
					break
				}
			}
			if same {
				r.ps = ps
				return r
			}
		}
		r.ps = []Piece{{sym: "⊔" + strSyms(a, b), fl: strFlags(a) & strFlags(b), lab: r.lab}}
		r.id = ""
	case KIface:
		r.dt = append([]types.Type(nil), a.dt...)
		r.dv = append([]*V(nil), a.dv...)
		for i, t := range b.dt {
			found := false
			for k, u := range r.dt {
				if types.Identical(t, u) {
					r.dv[k] = vJoin(r.dv[k], b.dv[i], j)
					found = true
				}
			}
			if !found {
				r.dt = append(r.dt, t)
				r.dv = append(r.dv, b.dv[i])
			}
		}
	case KFunc:
		r.fn = append([]*Closure(nil), a.fn...)
	outer:
		for _, c := range b.fn {
			for k, d := range r.fn {
				if c.fn == d.fn && len(c.bind) == len(d.bind) {
					nc := &Closure{fn: c.fn, recv: c.recv}
					for q := range c.bind {
						nc.bind = append(nc.bind, vJoin(d.bind[q], c.bind[q], j))
					}
					r.fn[k] = nc
					continue outer
				}
			}
			r.fn = append(r.fn, c)
		}
	case KAgg:
		if len(a.el) != len(b.el) {
			return &V{k: KTop, lab: a.lab | b.lab}
		}
		for i := range a.el {
			r.el = append(r.el, vJoin(a.el[i], b.el[i], j))
		}
	}
	return r
}

// the offset of a nil slice says nothing about the other one
func joinNilAware(a, b, x, y *V, j *JC) *V {
	if a.nn == isNil {
		return y
	}
	if b.nn == isNil {
		return x
	}
	return vJoin(x, y, j)
}

func strFlags(v *V) uint16 {
	fl := fNoSlash | fNonDot
	s, ok := v.constStr()
	if ok {
		if strings.Contains(s, "/") {
			fl &^= fNoSlash
		}
		if s == "" || s == "." || s == ".." {
			fl &^= fNonDot
		}
		return fl
	}
	if len(v.ps) == 1 {
		return v.ps[0].fl
	}
	for _, p := range v.ps {
		if p.sym == "" && strings.Contains(p.c, "/") || p.sym != "" && p.fl&fNoSlash == 0 {
			fl &^= fNoSlash
		}
	}
	return fl &^ fNonDot
}

// symbols a string may be built from, bounded
func strSyms(vs ...*V) string {
	m := map[string]bool{}
	for _, v := range vs {
		for _, p := range v.ps {
			if p.sym == "" {
				m["'"+p.c+"'"] = true
				continue
			}
			for _, q := range strings.Split(strings.TrimPrefix(p.sym, "⊔"), "|") {
				m[q] = true
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 6 || m["many"] {
		return "many"
	}
	return strings.Join(ks, "|")
}
