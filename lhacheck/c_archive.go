package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// member of an archive: what its header says and the bytes that follow
type member struct {
	level  int
	kind   byte // 'f', 'd', 'l'
	name   string
	target string
	method string
	perm   *V   // nine bits
	time   *V   // seconds
	data   []*V // the content
	packed []*V // what the archive holds of it
	used   int  // how much of it the decoder needs, -1 for all
}

// content of n bytes: those near the edges of blocks are symbols, the others fixed
func symData(e *Engine, tag string, n int) []*V {
	r := make([]*V, n)
	for i := range r {
		switch {
		case n > 20000 && i < n-2:
			r[i] = vInt(int64((i*31 + i>>8 + len(tag)*7 + 5) & 255))
		case i < 2, i > n-3, i%2048 == 0, i%2048 == 2047:
			r[i] = e.symInt(fmt.Sprintf("%s.%d", tag, i), 0, 255, 8)
		default:
			r[i] = vInt(int64((i*31 + len(tag)*7 + 5) & 255))
		}
	}
	return r
}

func crcBits(e *Engine, b []*V) []Bit {
	crc := make([]Bit, 16)
	for i := range crc {
		crc[i] = bConst(0)
	}
	i, c := 0, uint16(0)
	for ; i < len(b); i++ { // quickly over what is fixed
		x, ok := b[i].isConst()
		if !ok {
			break
		}
		c ^= uint16(x)
		for k := 0; k < 8; k++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	for k := range crc {
		crc[k] = bConst(uint8(c >> k & 1))
	}
	for _, v := range b[i:] {
		crc = crcStep(crc, e.getBits(types.Typ[types.Byte], v))
	}
	return crc
}

func ofBits(b []Bit) *V {
	if c, ok := constBits(b, len(b), false); ok {
		return vInt(c)
	}
	return &V{k: KInt, lo: 0, hi: 1<<len(b) - 1, bits: b}
}

func (m *member) crc(e *Engine) []Bit {
	if m.kind != 'f' {
		return crcBits(e, nil)
	}
	return crcBits(e, m.data)
}

func le(n, w int) []*V {
	var r []*V
	for i := 0; i < w; i++ {
		r = append(r, vInt(int64(n>>(8*i)&255)))
	}
	return r
}

func cat(bs ...[]*V) []*V {
	var r []*V
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

var kindBits = map[byte]int64{'f': 0100000, 'd': 0040000, 'l': 0120000}

func (m *member) mode(e *Engine) *V {
	return e.arith(types.Typ[types.Uint16], token.OR, m.perm, vInt(kindBits[m.kind]))
}

// leV is a number as bytes, low byte first
func leV(e *Engine, v *V, w int) []*V {
	b := e.getBits(types.Typ[types.Uint32], v)
	var r []*V
	for i := 0; i < w; i++ {
		r = append(r, ofBits(b[8*i:8*i+8]))
	}
	return r
}

// encode is the member as it lies in an archive
func (m *member) encode(e *Engine) []*V {
	name := m.name
	if m.kind == 'd' {
		name = strings.TrimRight(name, "/") + "/"
	}
	if m.kind == 'l' {
		name += "|" + m.target
	}
	crc := m.crc(e)
	crcV := []*V{ofBits(crc[:8]), ofBits(crc[8:])}
	orig := len(m.data)
	head := cat(byteVals(m.method), le(len(m.packed), 4), le(orig, 4))
	dos := 0x21<<16 | 10<<25 // 1990-01-01
	sum := func(b []*V, n int) {
		t := types.Typ[types.Int]
		s := vInt(0)
		for _, v := range b[2:n] {
			s = e.arith(t, token.ADD, s, e.convInt(types.Typ[types.Byte], t, v))
		}
		b[1] = e.convInt(t, types.Typ[types.Byte], e.arith(t, token.AND, s, vInt(255)))
	}
	switch m.level {
	case 0:
		b := cat(le(0, 2), head, le(dos, 4), le(0x20, 1), le(0, 1), le(len(name), 1), byteVals(name), crcV, byteVals("U\x00"), leV(e, m.time, 4), leV(e, m.mode(e), 2), le(0, 4))
		b[0] = vInt(int64(len(b) - 2))
		sum(b, len(b))
		return append(b, m.packed...)
	case 1:
		ext := cat([]*V{vInt(0x50)}, leV(e, m.mode(e), 2), le(7, 2), []*V{vInt(0x54)}, leV(e, m.time, 4), le(0, 2))
		b := cat(le(0, 2), byteVals(m.method), le(len(m.packed)+len(ext), 4), le(orig, 4), le(dos, 4), le(0x20, 1), le(1, 1), le(len(name), 1), byteVals(name), crcV, byteVals("U"), le(5, 2))
		b[0] = vInt(int64(len(b) - 2))
		sum(b, len(b))
		return cat(b, ext, m.packed)
	}
	w := 2
	if m.level == 3 {
		w = 4
	}
	exts := [][]*V{le(0, 3)}
	dir := ""
	if i := strings.LastIndex(name, "/"); i >= 0 {
		dir, name = name[:i+1], name[i+1:]
	}
	exts = append(exts, cat(le(1, 1), byteVals(name)))
	if dir != "" {
		exts = append(exts, cat(le(2, 1), byteVals(strings.ReplaceAll(dir, "/", "\xff"))))
	}
	exts = append(exts, cat(le(0x50, 1), leV(e, m.mode(e), 2)))
	b := cat(le(0, 2), head, leV(e, m.time, 4), le(0x20, 1), le(m.level, 1), crcV, byteVals("U"))
	if w == 4 {
		b = cat(b, le(0, 4))
	}
	b = cat(b, le(len(exts[0])+w, w))
	at := len(b) + 1
	for i, x := range exts {
		n := 0
		if i+1 < len(exts) {
			n = len(exts[i+1]) + w
		}
		b = cat(b, x, le(n, w))
	}
	if w == 4 {
		copy(b, le(4, 2))
		copy(b[24:], le(len(b), 4))
	} else {
		if len(b)&255 == 0 {
			b = append(b, vInt(0))
		}
		copy(b, le(len(b), 2))
	}
	h := crcBits(e, b)
	b[at], b[at+1] = ofBits(h[:8]), ofBits(h[8:])
	return append(b, m.packed...)
}

// archRun analyses operations on archives, byte for byte
type archRun struct {
	mayFail bool // an operation may be refused
	p       *Program
	r       *Report
	f       *FS
	run     *Run
	e       *Engine
	what    string
	mem     map[string]*member // by the first packed byte
	st      *State
	over    bool // packing does not pay
	encs    int
}

func newArch(p *Program, r *Report, what string) *archRun {
	a := &archRun{p: p, r: r, what: what, f: newFS(p, r), mem: map[string]*member{}}
	a.f.w.enter = a.enter
	a.f.w.fields["archiveName"] = vStr("a.lzh")
	a.f.w.fields["ExtractDirectory"] = vStr("")
	return a
}

func (a *archRun) start() bool {
	a.run = a.f.w.start()
	if a.run == nil {
		return false
	}
	a.e = a.run.e
	return true
}

func (a *archRun) set(f string, v *V) {
	if !a.e.setField(a.p, a.run.st, a.run.lha, "Lha", f, v) {
		a.r.bad("anchor", "Lha."+f, "no such field", nil)
	}
}

// packedMember makes a member whose packed form only the codec understands
func (a *archRun) packedMember(m *member, n, packed, used int) *member {
	tag := fmt.Sprintf("m%d", len(a.mem))
	if m.perm == nil {
		m.perm = a.e.symInt(tag+".perm", 0, 0777, 9)
	}
	if m.time == nil {
		m.time = a.e.symInt(tag+".time", 0, 1<<31-1, 31)
	}
	m.data = symData(a.e, tag, n)
	m.used = used
	if m.method == "-lh0-" || m.method == "-lz4-" || m.method == "-pm0-" {
		m.packed = m.data
	} else {
		m.packed = make([]*V, packed)
		for i := range m.packed {
			m.packed[i] = vInt(int64(i*13+7) & 255)
		}
		if packed > 0 {
			m.packed[0] = a.e.symInt(tag+"p", 0, 255, 8)
			a.mem[tag+"p"] = m
		}
	}
	a.mem[tag] = m
	return m
}

func (a *archRun) archive(name string, ms ...*member) []*V {
	var b []*V
	for _, m := range ms {
		b = append(b, m.encode(a.e)...)
	}
	b = append(b, vInt(0))
	a.f.file(a.e, a.run.st, name, b)
	return b
}

func (a *archRun) bad(rule, at, format string, x ...any) {
	a.r.bad(rule, at, a.what+": "+fmt.Sprintf(format, x...), nil)
}

func (a *archRun) enter(ev *Ev) []*Out {
	switch {
	case isMethodOf(ev.fn, "Lha", "DecodeLzhuf"):
		return a.decode(ev)
	case isMethodOf(ev.fn, "Lha", "EncodeLzhuf"):
		return a.encodeFile(ev)
	}
	return nil
}

// decode stands for a decoder that honours its contract: it consumes the bytes
// of the member it needs and delivers the content
func (a *archRun) decode(ev *Ev) []*Out {
	e := ev.e
	if len(ev.args) != 8 {
		a.bad("anchor", fnName(ev.fn), "unexpected parameters")
		return nil
	}
	meth, ok := ev.args[6].isConst()
	if !ok {
		a.bad("decode", ev.pos(), "the method is not fixed")
		return nil
	}
	if meth == 0 || meth == 10 || meth == 12 { // stored: the real code
		return nil
	}
	st := ev.st.clone()
	ino, h, ok := a.f.sink(ev, st, e.handlesOf(st, ev.args[1]))
	if !ok || h == "" {
		a.bad("decode", ev.pos(), "decoded from something that is not the archive")
		return nil
	}
	pos := num(st.get("p:" + h))
	var m *member
	if pos < a.f.size(st, ino) {
		v := a.f.bytes(e, st, ino, pos, 1)[0]
		for k, x := range a.mem {
			if strings.HasSuffix(k, "p") && e.sameNum(v, e.symInt(k, 0, 255, 8)) {
				m = x
			}
		}
	}
	if m == nil {
		a.bad("position", ev.pos(), "decoding starts where no member's data starts (byte %d)", pos)
		ev.st.set("bad", ev.pos()+": decoding starts at a wrong place")
		return nil
	}
	if c, ok := ev.args[3].isConst(); !ok || int(c) != len(m.data) {
		a.bad("size", ev.pos(), "the decoder is given a wrong original size for %s", m.name)
	}
	if c, ok := ev.args[4].isConst(); !ok || int(c) != len(m.packed) {
		a.bad("size", ev.pos(), "the decoder is given a wrong packed size for %s", m.name)
	}
	if want := methodNum[m.method]; want != int(meth) {
		a.bad("method", ev.pos(), "%s is decoded as method %d", m.method, meth)
	}
	a.r.count("members decoded", 1)
	n := m.used
	if n < 0 {
		n = len(m.packed)
	}
	st.set("p:"+h, strconv.Itoa(pos+n))
	if v := a.run.getGlobal(st, "VerifyMode"); v == nil || !(v.lo == 1 && v.hi == 1) {
		if !a.f.writeTo(ev, st, ev.args[2], m.data) {
			a.bad("decode", ev.pos(), "decoded to an unknown place")
			return nil
		}
	}
	for _, f := range a.f.w.errFields() {
		e.setField(a.p, st, ev.args[0], "Lha", f, vNilErr())
	}
	e.store(st, ev.args[7], types.Typ[types.Int], vInt(int64(n)))
	return []*Out{{st: st, res: []*V{ofBits(m.crc(e))}}}
}

var methodNum = map[string]int{"-lh0-": 0, "-lh1-": 1, "-lh2-": 2, "-lh3-": 3, "-lh4-": 4, "-lh5-": 5, "-lh6-": 6, "-lh7-": 7, "-lzs-": 8, "-lz5-": 9, "-lz4-": 10, "-lhd-": 11, "-pm0-": 12, "-pm2-": 13}

// encode stands for an encoder that honours its contract: it reads the whole
// file and writes its packed form, or gives up when that gets as large as the file
func (a *archRun) encodeFile(ev *Ev) []*Out {
	e := ev.e
	if len(ev.args) != 8 {
		a.bad("anchor", fnName(ev.fn), "unexpected parameters")
		return nil
	}
	meth, ok := e.fieldOf(a.p, ev.st, ev.args[0], "Lha", "CompressMethod").isConst()
	if !ok {
		a.bad("method", ev.pos(), "the method is not fixed")
		return nil
	}
	if meth <= 0 { // stored: the real code
		return nil
	}
	st := ev.st.clone()
	iface := func(i int) *V {
		return e.load(st, ev.args[i], ev.fn.Params[i].Type().Underlying().(*types.Pointer).Elem())
	}
	src := iface(1)
	ino, h, ok := a.f.sink(ev, st, e.handlesOf(st, src))
	if !ok || h == "" {
		a.bad("encode", ev.pos(), "the source is not a file")
		return nil
	}
	size := a.f.size(st, ino)
	if num(st.get("p:"+h)) != 0 {
		a.bad("encode", ev.pos(), "compression does not start at the beginning of the file")
	}
	if c, ok := ev.args[3].isConst(); !ok || int(c) != size {
		a.bad("encode", ev.pos(), "the encoder is given a wrong size")
	}
	st.set("p:"+h, strconv.Itoa(size))
	content := a.f.bytes(e, st, ino, 0, size)
	a.r.count("files compressed", 1)
	tag := fmt.Sprintf("m%d", len(a.mem))
	m := &member{kind: 'f', method: fmt.Sprintf("-lh%d-", meth), data: content, used: -1}
	orig := size
	n := size/2 + 1
	crc := ofBits(m.crc(e))
	if a.over {
		n, orig = size, size-1
		crc = e.symInt(tag+".crc", 0, 65535, 16)
	}
	for i := 0; i < n; i++ {
		m.packed = append(m.packed, vInt(int64(i*17+3)&255))
	}
	if n > 0 {
		m.packed[0] = e.symInt(tag+"p", 0, 255, 8)
	}
	a.mem[tag+"p"], a.mem[tag] = m, m
	if !a.f.writeTo(ev, st, iface(2), m.packed) {
		a.bad("encode", ev.pos(), "compressed to an unknown place")
		return nil
	}
	e.store(st, ev.args[4], types.Typ[types.Int], vInt(int64(orig)))
	e.store(st, ev.args[5], types.Typ[types.Int], vInt(int64(n)))
	for i, c := range byteVals(m.method) {
		e.store(st, e.indexAddr(ev.args[7], vInt(int64(i))), types.Typ[types.Byte], c)
	}
	return []*Out{{st: st, res: []*V{crc, vNilErr()}}}
}

// table makes the CRC table, as the command line tool does first
func (a *archRun) table() {
	fn := a.run.fn("MakeCrcTable")
	if fn == nil {
		a.r.bad("anchor", "MakeCrcTable", "not found", nil)
		return
	}
	outs := a.run.call(fn)
	if len(outs) == 1 {
		a.run.st = outs[0].st.clone()
	}
}

// call runs an entry that must have one outcome, without failure
func (a *archRun) call(name string, args ...*V) (*Out, bool) {
	fn := a.run.fn(name)
	if fn == nil {
		a.r.bad("anchor", name, "API entry not found", nil)
		return nil, false
	}
	outs := a.run.call(fn, args...)
	a.r.absorb(a.run)
	a.r.count("operations", 1)
	if len(outs) != 1 {
		var tr []string
		for _, o := range outs {
			tr = append(tr, fmt.Sprintf("outcome: %v %s", o.res, o.st.get("bad")))
			tr = append(tr, o.st.trace(30)...)
		}
		a.r.bad("outcome", fnName(fn), fmt.Sprintf("%s: %d outcomes", a.what, len(outs)), tr)
		return nil, false
	}
	o := outs[0]
	if x := o.st.get("bad"); x != "" {
		a.r.bad("outcome", fnName(fn), a.what+": "+x, o.st.trace(30))
		return nil, false
	}
	if o.panic {
		a.r.bad("outcome", fnName(fn), a.what+": panics", o.st.trace(30))
		return nil, false
	}
	if v := errOf(fn, o); v != nil && v.mayNonNil() {
		if a.mayFail {
			return nil, false
		}
		a.r.bad("outcome", fnName(fn), a.what+": fails", o.st.trace(30))
		return nil, false
	}
	a.run.st = o.st.clone()
	return o, true
}

func (a *archRun) sameBytes(at, what string, got, want []*V) bool {
	if len(got) != len(want) {
		a.bad("content", at, "%s has %d bytes instead of %d", what, len(got), len(want))
		return false
	}
	for i := range got {
		if !a.e.sameByte(got[i], want[i]) {
			a.bad("content", at, "byte %d of %s is not the byte it should be", i, what)
			return false
		}
	}
	return true
}

func (e *Engine) sameByte(x, y *V) bool {
	if x == y {
		return true
	}
	a, b := e.getBits(types.Typ[types.Byte], x), e.getBits(types.Typ[types.Byte], y)
	if len(a) < 8 || len(b) < 8 {
		return false
	}
	for i := 0; i < 8; i++ {
		if a[i].top || b[i].top || !bEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (a *archRun) fileIs(at, name string, want []*V) bool {
	st := a.run.st
	i := a.f.ino(st, name)
	if i == "" || st.get("k:"+i) != "f" {
		a.bad("content", at, "%s is not there", name)
		return false
	}
	return a.sameBytes(at, name, a.f.bytes(a.e, st, i, 0, a.f.size(st, i)), want)
}
