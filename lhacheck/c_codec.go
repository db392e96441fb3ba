package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = &check{
		rule: "abstract interpretation of the decoders over packed members written by the format's definition (literals are symbols, lengths and offsets of matches are enumerated around the limits of the format and the ends of the window): every byte handed to the output is traced to the literal it must be a copy of, the checksum delivered is the CRC-16 of the bytes delivered, the packed bytes consumed are those of the member",
		assume: []string{"reading and writing succeed (failures are the subject of C11)",
			"the adaptive trees of -lh1-, -lh2- and -pm2- are not interpreted: the literals and lengths of -lh1- and the literals and matches of the others are taken as given",
			"block structures, code lengths and matches are the enumerated ones"},
		run: decoding,
	}
}

// tok is a literal or a match
type tok struct {
	lit      *V
	len, off int
}

// packing of a method
type lzMethod struct {
	name    string
	num     int
	bits    int // of the window
	minLen  int
	maxLen  int
	np, pnb int // offset codes and the bits of their count
	stub    []string
}

var (
	allGiven = []string{"decodeMethodStart", "decodeMethodC", "decodeMethodP"}
	cGiven   = []string{"decodeCDyn"}
)

var lzMethods = []lzMethod{
	{"lh1", 1, 12, 3, 60, 0, 0, cGiven}, {"lh2", 2, 13, 3, 256, 0, 0, allGiven}, {"lh3", 3, 13, 3, 256, 0, 0, nil},
	{"lh4", 4, 12, 3, 256, 14, 4, nil}, {"lh5", 5, 13, 3, 256, 14, 4, nil}, {"lh6", 6, 15, 3, 256, 16, 5, nil}, {"lh7", 7, 16, 3, 256, 17, 5, nil},
	{"lzs", 8, 11, 2, 17, 0, 0, nil}, {"lz5", 9, 12, 3, 18, 0, 0, nil}, {"pm2", 13, 13, 2, 256, 0, 0, allGiven},
}

// fill is the content of the window before the first byte
func (m *lzMethod) fill(i int) int64 {
	if m.name != "lz5" {
		return ' '
	}
	i -= 18
	switch {
	case i < 0:
		return ' '
	case i < 256*13:
		return int64(i / 13)
	case i < 256*13+256:
		return int64(i - 256*13)
	case i < 256*13+512:
		return int64(255 - (i - 256*13 - 256))
	case i < 256*13+512+128:
		return 0
	}
	return ' '
}

// expand is what the tokens stand for
func (m *lzMethod) expand(ts []tok) []*V {
	var r []*V
	w := 1 << m.bits
	for _, t := range ts {
		if t.lit != nil {
			r = append(r, t.lit)
			continue
		}
		for i := 0; i < t.len; i++ {
			k := len(r) - t.off
			if k >= 0 {
				r = append(r, r[k])
			} else {
				r = append(r, vInt(m.fill(((k%w)+w)%w)))
			}
		}
	}
	return r
}

type bitsOut struct{ b []Bit }

func (o *bitsOut) num(v, n int) {
	for i := n - 1; i >= 0; i-- {
		o.b = append(o.b, bConst(uint8(v>>i&1)))
	}
}
func (o *bitsOut) val(e *Engine, v *V, n int) {
	b := e.getBits(types.Typ[types.Uint16], v)
	for i := n - 1; i >= 0; i-- {
		o.b = append(o.b, b[i])
	}
}

// bytes of the bits, the last one filled with zeros
func (o *bitsOut) bytes() []*V {
	for len(o.b)%8 != 0 {
		o.b = append(o.b, bConst(0))
	}
	var r []*V
	for i := 0; i < len(o.b); i += 8 {
		x := make([]Bit, 8)
		for k := range x {
			x[k] = o.b[i+7-k]
		}
		r = append(r, ofBits(x))
	}
	return r
}

// canonical codes of code lengths
func canonical(lens []int) []int {
	code := make([]int, len(lens))
	next := 0
	for l := 1; l <= 16; l++ {
		for s, n := range lens {
			if n == l {
				code[s] = next
				next++
			}
		}
		next <<= 1
	}
	return code
}

// chain gives the used symbols a complete code of lengths 1, 2, ... k-1, k-1, or a flat one if there are more than max
func chain(n int, used []int, max int) []int {
	lens := make([]int, n)
	sort.Ints(used)
	for i, s := range used {
		lens[s] = i + 1
		if i == len(used)-1 {
			lens[s] = i
		}
	}
	if len(used) > max {
		for i, k := range flat(len(used)) {
			lens[used[i]] = k
		}
	}
	return lens
}

// writeLens writes the lengths of a code for code lengths or for offsets
func (o *bitsOut) writeLens(lens []int, nbit, special int) {
	n := len(lens)
	for n > 0 && lens[n-1] == 0 {
		n--
	}
	o.num(n, nbit)
	for i := 0; i < n; {
		k := lens[i]
		i++
		if k <= 6 {
			o.num(k, 3)
		} else {
			o.num(7, 3)
			for j := 7; j < k; j++ {
				o.num(1, 1)
			}
			o.num(0, 1)
		}
		if i == special {
			z := 0
			for i < 6 && i < n && lens[i] == 0 {
				i++
				z++
			}
			o.num(z, 2)
		}
	}
}

type block struct {
	toks  []tok
	cLens []int // of 510 symbols; nil: a single symbol
	only  int
	pLens []int // of the offset codes; nil: a single one
	ponly int
	fixed bool // -lh3-: the fixed code of offsets
}

func bitLen(p int) int {
	n := 0
	for p > 0 {
		n++
		p >>= 1
	}
	return n
}

// writeBlock writes a block of -lh4- to -lh7-
func (o *bitsOut) writeBlock(e *Engine, m *lzMethod, b *block) {
	o.num(len(b.toks), 16)
	if b.cLens == nil {
		o.num(0, 5)
		o.num(0, 5)
		o.num(0, 9)
		o.num(b.only, 9)
	} else {
		n := len(b.cLens)
		for n > 0 && b.cLens[n-1] == 0 {
			n--
		}
		type run struct{ sym, extra, bits int }
		var rs []run
		used := map[int]bool{}
		for i := 0; i < n; {
			if b.cLens[i] != 0 {
				rs = append(rs, run{b.cLens[i] + 2, 0, 0})
				i++
				continue
			}
			k := 0
			for i < n && b.cLens[i] == 0 {
				i++
				k++
			}
			switch {
			case k <= 2:
				for ; k > 0; k-- {
					rs = append(rs, run{0, 0, 0})
				}
			case k <= 18:
				rs = append(rs, run{1, k - 3, 4})
			case k == 19:
				rs = append(rs, run{0, 0, 0}, run{1, 15, 4})
			default:
				rs = append(rs, run{2, k - 20, 9})
			}
		}
		var us []int
		for _, x := range rs {
			if !used[x.sym] {
				used[x.sym] = true
				us = append(us, x.sym)
			}
		}
		if len(us) == 1 {
			o.num(0, 5)
			o.num(us[0], 5)
			o.num(n, 9)
			for _, x := range rs {
				o.num(x.extra, x.bits)
			}
		} else {
			t := chain(19, us, 17)
			o.writeLens(t, 5, 3)
			code := canonical(t)
			o.num(n, 9)
			for _, x := range rs {
				o.num(code[x.sym], t[x.sym])
				o.num(x.extra, x.bits)
			}
		}
	}
	if b.pLens == nil {
		o.num(0, m.pnb)
		o.num(b.ponly, m.pnb)
	} else {
		o.writeLens(b.pLens, m.pnb, -1)
	}
	var cc, pc []int
	if b.cLens != nil {
		cc = canonical(b.cLens)
	}
	if b.pLens != nil {
		pc = canonical(b.pLens)
	}
	for _, t := range b.toks {
		s := -1
		if t.lit == nil {
			s = t.len + 256 - 3
		} else if c, ok := t.lit.isConst(); ok {
			s = int(c)
		}
		switch {
		case b.cLens == nil:
		case s >= 0:
			o.num(cc[s], b.cLens[s])
		default:
			// a symbol: its code must consist of a fixed part and its bits
			l := b.cLens[0]
			for k := 0; k < 256; k++ {
				if b.cLens[k] != l || cc[k] != cc[0]+k || cc[0]&255 != 0 {
					panic("not a code for symbolic literals")
				}
			}
			o.num(cc[0]>>8, l-8)
			o.val(e, t.lit, 8)
		}
		if t.lit != nil {
			continue
		}
		p := t.off - 1
		j := bitLen(p)
		if b.pLens != nil {
			o.num(pc[j], b.pLens[j])
		}
		if j > 1 {
			o.num(p&(1<<(j-1)-1), j-1)
		}
	}
}

// the fixed codes of offsets: positions (in 64 bytes) at which the code becomes one bit longer
func fixedP(n, first int, at ...int) []int {
	lens := make([]int, n)
	k := first
	for i := range lens {
		for len(at) > 0 && at[0] == i {
			k++
			at = at[1:]
		}
		lens[i] = k
	}
	return lens
}

var (
	fixedLh1 = fixedP(64, 3, 0x01, 0x04, 0x0c, 0x18, 0x30)
	fixedLh3 = fixedP(128, 2, 0x01, 0x01, 0x03, 0x06, 0x0d, 0x1f, 0x4e)
)

// writeOff64 writes an offset as the code of its upper part and six bits
func (o *bitsOut) writeOff64(lens []int, only, off int) {
	p := off - 1
	if lens != nil {
		o.num(canonical(lens)[p>>6], lens[p>>6])
	} else if only != p>>6 {
		panic("not the only offset")
	}
	o.num(p&63, 6)
}

// writeBlock3 writes a block of -lh3-: 286 symbols, the last one with eight bits more
func (o *bitsOut) writeBlock3(e *Engine, b *block) {
	o.num(len(b.toks), 16)
	if b.cLens == nil {
		for i := 0; i < 3; i++ {
			o.num(1, 1)
			o.num(0, 4)
		}
		o.num(min(b.only, 285), 9)
	} else {
		for _, k := range b.cLens {
			if k == 0 {
				o.num(0, 1)
			} else {
				o.num(1, 1)
				o.num(k-1, 4)
			}
		}
	}
	pl := b.pLens
	switch {
	case b.fixed:
		o.num(0, 1)
		pl = fixedLh3
	case pl == nil:
		o.num(1, 1)
		for i := 0; i < 3; i++ {
			o.num(1, 4)
		}
		o.num(b.ponly, 7)
	default:
		o.num(1, 1)
		for _, k := range pl {
			o.num(k, 4)
		}
	}
	var cc []int
	if b.cLens != nil {
		cc = canonical(b.cLens)
	}
	for _, t := range b.toks {
		s := -1
		if t.lit == nil {
			s = t.len + 256 - 3
		} else if c, ok := t.lit.isConst(); ok {
			s = int(c)
		}
		switch {
		case b.cLens == nil:
		case s >= 0:
			o.num(cc[min(s, 285)], b.cLens[min(s, 285)])
		default:
			o.num(cc[0]>>8, b.cLens[0]-8)
			o.val(e, t.lit, 8)
		}
		if s >= 285 {
			o.num(s-285, 8)
		}
		if t.lit == nil {
			o.writeOff64(pl, b.ponly, t.off)
		}
	}
}

// block3 makes a block with codes for the lengths that occur; symbols are literals of nine bits
func block3(ts []tok) *block {
	b := &block{toks: ts, cLens: make([]int, 286), fixed: true}
	used := map[int]bool{}
	for _, t := range ts {
		if t.lit == nil {
			used[min(t.len+253, 285)] = true
		}
	}
	for s := 285; len(used) < 2; s-- {
		used[s] = true
	}
	var us []int
	for s := range used {
		us = append(us, s)
	}
	for s, k := range chain(286, us, 15) {
		b.cLens[s] = k
		if k > 0 {
			b.cLens[s] = k + 1
		}
	}
	for i := 0; i < 256; i++ {
		b.cLens[i] = 9
	}
	return b
}

// pack as -lzs- or -lz5-; positions of the ring buffer start at its size minus the longest match
func (m *lzMethod) larc(e *Engine, ts []tok) []*V {
	w := 1 << m.bits
	pos := 0
	if m.name == "lzs" {
		o := &bitsOut{}
		for _, t := range ts {
			if t.lit != nil {
				o.num(1, 1)
				o.val(e, t.lit, 8)
				pos++
				continue
			}
			o.num(0, 1)
			o.num(((pos-t.off-17)%w+w)%w, 11)
			o.num(t.len-2, 4)
			pos += t.len
		}
		return o.bytes()
	}
	var r []*V
	for i := 0; i < len(ts); i += 8 {
		flag := int64(0)
		var body []*V
		for k := i; k < len(ts) && k < i+8; k++ {
			t := ts[k]
			if t.lit != nil {
				flag |= 1 << (k - i)
				body = append(body, t.lit)
				pos++
				continue
			}
			at := ((pos-t.off-18)%w + w) % w
			body = append(body, vInt(int64(at&255)), vInt(int64(at>>4&0xf0|(t.len-3))))
			pos += t.len
		}
		r = append(append(r, vInt(flag)), body...)
	}
	return r
}

// a run of a decoder
type codecRun struct {
	p    *Program
	r    *Report
	w    *World
	run  *Run
	st0  *State
	cap  *Obj
	data []*V
	toks []tok
	stub []string // functions replaced: the tokens are given

	minLen int
	forks  int // branches not decided
	forkAt string
}

func newCodecRun(p *Program, r *Report) *codecRun {
	w := exactWorld(p, r)
	w.realTable = true
	w.fields["ExtractBrokenArchive"] = vBool(false)
	c := &codecRun{p: p, r: r, w: w}
	w.cfg.Before = func(ev *Ev) {
		if ev.op == "write" {
			capture(ev, c.cap)
		}
	}
	w.cfg.After = func(ev *Ev, o *Out) bool {
		switch ev.op {
		case "write":
			return o.tag == "ok"
		case "read", "readfull":
			pos, _ := strconv.Atoi(ev.st.get("pos"))
			s := ev.args[len(ev.args)-1]
			if n, ok := s.ln.isConst(); ok && pos+int(n) > len(c.data) {
				return o.tag != "ok"
			}
			if o.tag != "ok" {
				return false
			}
			return feed(ev, o, func(i int) *V { return c.data[i] })
		}
		return true
	}
	enter := w.cfg.Enter
	w.cfg.Enter = func(ev *Ev) []*Out {
		if len(c.stub) > 0 {
			if outs := c.given(ev); outs != nil {
				return outs
			}
		}
		if enter != nil {
			return enter(ev)
		}
		return nil
	}
	w.cfg.OnBranch = func(ev *Ev, cond ssa.Value, v *V) {
		if v.k == KInt && v.lo == v.hi {
			return
		}
		if c.forks++; c.forkAt == "" {
			c.forkAt = ev.pos()
		}
		if c.forks > 500 {
			panic(stopErr{"decode", c.forkAt, "the course of decoding an intact member is not decided by its structure"})
		}
	}
	c.run = w.start()
	if c.run == nil {
		return nil
	}
	c.cap = c.run.e.obj("captured", func(o *Obj) {})
	c.run.setGlobal("VerifyMode", vBool(false))
	if mk := c.run.fn("MakeCrcTable"); mk != nil {
		if outs := c.run.call(mk); len(outs) == 1 && !outs[0].panic {
			c.run.st = outs[0].st.clone()
		}
	}
	c.st0 = c.run.st.clone()
	return c
}

// given stands for the entropy decoders of a method: they deliver the tokens
func (c *codecRun) given(ev *Ev) []*Out {
	for _, n := range c.stub {
		if !isMethodOf(ev.fn, "Lha", n) {
			continue
		}
		st := ev.st.clone()
		st.set("hit", "y")
		k, _ := strconv.Atoi(st.get("tok"))
		if n == "decodeMethodStart" {
			return []*Out{{st: st}}
		}
		if n == "decodeMethodC" || n == "decodeCDyn" {
			if k >= len(c.toks) {
				st.set("bad", ev.pos())
				return []*Out{{st: st, res: []*V{vInt(0)}}}
			}
			st.set("tok", strconv.Itoa(k+1))
			t := c.toks[k]
			if t.lit != nil {
				return []*Out{{st: st, res: []*V{c.run.e.convInt(types.Typ[types.Byte], types.Typ[types.Uint16], t.lit)}}}
			}
			return []*Out{{st: st, res: []*V{vInt(int64(256 + t.len - c.minLen))}}}
		}
		return []*Out{{st: st, res: []*V{vInt(int64(c.toks[k-1].off - 1))}}}
	}
	return nil
}

// decode a member and compare what is delivered
func (c *codecRun) decode(what string, m *lzMethod, packed []*V, ts []tok) {
	e, r := c.run.e, c.r
	r.ob("%s: %s", m.name, what)
	r.count("members", 1)
	want := m.expand(ts)
	c.run.st = c.st0.clone()
	c.forks, c.forkAt = 0, ""
	c.run.st.set("pos", "0")
	c.run.st.set("wpos", "0")
	c.run.st.set("tok", "0")
	c.data, c.toks, c.stub, c.minLen = packed, ts, m.stub, m.minLen
	fn := c.run.method("Lha", "DecodeLzhuf")
	if fn == nil || len(fn.Params) != 8 {
		r.bad("anchor", "DecodeLzhuf", "not found", nil)
		return
	}
	ro := e.obj("readsize", func(o *Obj) {})
	outs := c.run.call(fn, c.run.lha, ifaceOf(c.run, "member-input"), ifaceOf(c.run, "member-output"), vInt(int64(len(want))), vInt(int64(len(packed))), vStr("name"), vInt(int64(m.num)), vPtr(Addr{ro.id, 0}))
	at := fnName(fn)
	if len(outs) != 1 || outs[0].panic {
		var tr []string
		if len(outs) > 0 {
			tr = outs[0].st.trace(30)
			for _, o := range outs {
				if o.panic {
					tr = o.st.trace(30)
				}
			}
		}
		r.bad("decode", at, fmt.Sprintf("%s, %s: the decoding of an intact member has %d outcomes", m.name, what, len(outs)), tr)
		return
	}
	st := outs[0].st
	if x := st.get("bad"); x != "" {
		r.bad("decode", x, fmt.Sprintf("%s, %s: how much is read or written depends on the data", m.name, what), nil)
		return
	}
	if ce := e.fieldOf(c.p, st, c.run.lha, "Lha", "codecErr"); ce == nil || ce.mayNonNil() {
		r.bad("decode", at, fmt.Sprintf("%s, %s: an intact member is reported as broken", m.name, what), st.trace(30))
		return
	}
	if len(c.stub) > 0 && st.get("hit") == "" && len(ts) > 0 {
		r.bad("anchor", "decodeMethodC", "the decoders of literals and matches are not found", nil)
		return
	}
	n, _ := strconv.Atoi(st.get("wpos"))
	if n != len(want) {
		r.bad("decode", at, fmt.Sprintf("%s, %s: %d bytes are delivered, the member has %d", m.name, what, n, len(want)), nil)
		return
	}
	bt := types.Typ[types.Byte]
	for i := 0; i < n; i++ {
		g := e.readCell(st, Addr{c.cap.id, e.path(0, 'i', int64(i))}, nil, bt)
		if !bitsEq(e.getBits(bt, g), e.getBits(bt, want[i])) {
			r.bad("decode", at, fmt.Sprintf("%s, %s: byte %d of %d delivered is not the byte the literals and matches stand for (%s instead of %s)", m.name, what, i, n, g, want[i]), nil)
			return
		}
	}
	r.count("bytes traced", n)
	r.count("branches not decided", c.forks)
	crc := e.getBits(types.Typ[types.Uint16], e.convInt(types.Typ[types.Int], types.Typ[types.Uint16], outs[0].res[0]))
	if !bitsEq(crc, crcBits(e, want)) {
		r.bad("crc", at, fmt.Sprintf("%s, %s: the checksum returned is not that of the bytes delivered", m.name, what), nil)
		return
	}
	rs := e.load(st, vPtr(Addr{ro.id, 0}), types.Typ[types.Int])
	k, _ := strconv.Atoi(st.get("pos"))
	if x, ok := rs.isConst(); !ok || int(x) != k || k > len(packed) || k < len(packed)-2 {
		r.bad("count", at, fmt.Sprintf("%s, %s: %d of %d packed bytes are read and %s recorded", m.name, what, k, len(packed), rs), nil)
	}
}

// wraps is a sequence of tokens that fills the window more than once: matches as short
// and as long as possible, as near and as far as possible, before, at and behind its end
func (m *lzMethod) wraps(lit func(int) tok, rounds int) []tok {
	w := 1 << m.bits
	ts := []tok{lit(0), {len: m.maxLen, off: w}, lit(1), {len: m.minLen, off: 1}, lit(2), {len: m.minLen + 1, off: 2}, {len: m.maxLen, off: m.maxLen + 7}}
	n := 3 + 2*m.maxLen + 2*m.minLen + 1
	long := func(to int) { // copies up to a position, with some literals in between
		for to-n >= m.maxLen+m.minLen+1 {
			ts = append(ts, tok{len: m.maxLen, off: min(n, w-1)})
			n += m.maxLen
			if len(ts)%7 == 0 {
				ts = append(ts, lit(len(ts)%3))
				n++
			}
		}
		for to-n >= m.minLen && to-n != m.maxLen+1 {
			l := min(to-n, m.maxLen)
			if to-n > m.maxLen && to-n < m.maxLen+m.minLen {
				l = m.minLen
			}
			ts = append(ts, tok{len: l, off: 3})
			n += l
		}
		for n < to {
			ts = append(ts, lit(n%3))
			n++
		}
	}
	for r := 1; r <= rounds; r++ {
		long(r*w - 1 - m.minLen)
		ts = append(ts, lit(0), tok{len: m.minLen, off: 1}) // ends with the window
		n += 1 + m.minLen
		ts = append(ts, tok{len: m.minLen, off: w}, lit(1), tok{len: m.maxLen, off: w - 1}) // begins with it, reads across its end
		n += 1 + m.minLen + m.maxLen
		long((r+1)*w - 2)
		ts = append(ts, tok{len: m.maxLen, off: m.maxLen + 3}) // written across the end
		n += m.maxLen
	}
	return append(ts, lit(2), tok{len: m.maxLen, off: w}, lit(0))
}

func decoding(p *Program, r *Report) {
	var jobs []func(*Report)
	job := func(f func(c *codecRun, lit func(int) tok)) {
		jobs = append(jobs, func(r *Report) {
			c := newCodecRun(p, r)
			if c == nil {
				return
			}
			f(c, func(i int) tok { return tok{lit: c.run.e.symInt(fmt.Sprintf("lit%d", i), 0, 255, 8)} })
			r.absorb(c.run)
		})
	}
	rounds := 1
	if r.tier == "thorough" {
		rounds = 3
	}
	for i := len(lzMethods) - 1; i >= 0; i-- {
		m := &lzMethods[i]
		w := 1 << m.bits
		job(func(c *codecRun, lit func(int) tok) {
			ts := m.wraps(lit, rounds)
			c.decode("matches over several windows", m, m.pack(c.run.e, ts), ts)
		})
		job(func(c *codecRun, lit func(int) tok) {
			c.decode("nothing", m, nil, nil)
			c.decode("one literal", m, m.pack(c.run.e, []tok{lit(0)}), []tok{lit(0)})
			for _, t := range []tok{{len: m.minLen, off: 1}, {len: m.maxLen, off: w}, {len: m.minLen, off: w}, {len: m.maxLen, off: w - 1}, {len: m.minLen + 1, off: 2}} {
				ts := []tok{lit(0), t, lit(1)}
				c.decode(fmt.Sprintf("one match %d %d", t.len, t.off), m, m.pack(c.run.e, ts), ts)
				ts = []tok{t, t}
				c.decode(fmt.Sprintf("matches only %d %d", t.len, t.off), m, m.pack(c.run.e, ts), ts)
			}
		})
		if m.name == "lh3" {
			job(func(c *codecRun, lit func(int) tok) { c.lh3(m, lit) })
		}
		if m.np == 0 {
			continue
		}
		// every length and every offset code, with its smallest and largest offset
		job(func(c *codecRun, lit func(int) tok) {
			var ts []tok
			used := make([]int, m.np)
			for j := range used {
				used[j] = j
			}
			for l := m.minLen; l <= m.maxLen; l++ {
				j := l % m.np
				off := 1
				if j > 0 {
					off = 1<<(j-1) + 1
					if l%2 == 0 {
						off = 1 << j
					}
				}
				if off > w {
					off = w
				}
				ts = append(ts, tok{lit: vInt(int64(l * 7 % 256))})
				ts = append(ts, tok{len: l, off: off})
			}
			b := &block{toks: ts, cLens: make([]int, 510), pLens: chain(m.np, used, 17)}
			for s := range b.cLens {
				b.cLens[s] = 9
				if s >= 508 {
					b.cLens[s] = 8
				}
			}
			c.decode("every length and offset code", m, m.packed(c.run.e, b), ts)
			if m.np <= 16 {
				b.pLens = flat(m.np)
				c.decode("every length, flat offset code", m, m.packed(c.run.e, b), ts)
			}
		})
		// several blocks, each with its own codes; blocks of one symbol
		job(func(c *codecRun, lit func(int) tok) {
			b1 := m.block([]tok{lit(0), {len: 3, off: 1}, lit(1), {len: 9, off: 300}, lit(2)})
			b2 := m.block([]tok{{len: 256, off: 7}, lit(2), lit(0), {len: 12, off: 7}})
			b3 := &block{toks: []tok{{lit: vInt(65)}, {lit: vInt(65)}, {lit: vInt(65)}}, only: 65}
			b4 := &block{toks: []tok{{len: 4, off: 2}, {len: 4, off: 2}}, only: 257, ponly: 1}
			b5 := &block{toks: []tok{{len: 30, off: 2}, {len: 30, off: 1}, {len: 30, off: 130}}, only: 253 + 30, pLens: chain(m.np, []int{0, 1, 8}, 17)}
			b6 := m.block([]tok{lit(1), lit(2)})
			for _, bs := range [][]*block{{b1, b2, b3, b4, b5, b6}, {b3, b1}, {b6, b5, b4}, {b1, b1, b1}, {b6, b6, b3, b2}} {
				var ts []tok
				for _, b := range bs {
					ts = append(ts, b.toks...)
				}
				c.decode(fmt.Sprintf("%d blocks", len(bs)), m, m.packed(c.run.e, bs...), ts)
			}
		})
		// codes of up to 16 bits, code lengths with runs of zeros of every kind
		job(func(c *codecRun, lit func(int) tok) {
			var all []*block
			for k, syms := range [][]int{
				{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 255, 256},
				{3, 4, 7, 11, 16, 35, 55, 76, 98, 200, 256, 300, 400, 500, 507, 508, 509},
				{0, 509}, {97, 98, 509}, {255, 256, 257, 509}, {0, 20, 41, 60, 256},
				{10, 11, 12, 13, 40, 41, 42, 256, 275, 294, 314, 315, 335, 509},
			} {
				for rev := 0; rev < 2; rev++ {
					cl := chain(510, syms, 17)
					if rev == 1 { // the longest codes for the first symbols
						for i, j := 0, len(syms)-1; i < j; i, j = i+1, j-1 {
							cl[syms[i]], cl[syms[j]] = cl[syms[j]], cl[syms[i]]
						}
					}
					var ts []tok
					for round := 0; round < 2; round++ {
						for i, s := range syms {
							if s < 256 {
								ts = append(ts, tok{lit: vInt(int64(s))})
							} else {
								ts = append(ts, tok{len: s - 253, off: []int{1, 2, 40, 257}[(i+round)%4]})
							}
						}
					}
					b := m.block(nil)
					b.toks, b.cLens, b.pLens = ts, cl, chain(m.np, []int{0, 1, 6, 9}, 17)
					all = append(all, b)
					c.decode(fmt.Sprintf("codes %d.%d", k, rev), m, m.packed(c.run.e, b), ts)
				}
			}
			// each after each other: nothing of a code is left for the next block
			for step := 1; step < 6; step += 2 {
				var bs []*block
				var ts []tok
				for i := range all {
					b := all[(i*step+step)%len(all)]
					bs = append(bs, b)
					ts = append(ts, b.toks...)
				}
				c.decode(fmt.Sprintf("blocks of all codes, step %d", step), m, m.packed(c.run.e, bs...), ts)
			}
		})
	}
	for _, num := range []int{0, 10, 12} {
		m := &lzMethod{name: fmt.Sprintf("stored %d", num), num: num}
		job(func(c *codecRun, lit func(int) tok) {
			for _, n := range []int{0, 1, 2, 2047, 2048, 2049, 5000} {
				var ts []tok
				var b []*V
				for _, v := range symData(c.run.e, "data", n) {
					ts = append(ts, tok{lit: v})
					b = append(b, v)
				}
				c.decode(fmt.Sprintf("%d bytes", n), m, b, ts)
			}
		})
	}
	r.parallel(jobs...)
	r.need("members", 200)
	r.need("bytes traced", 400000)
}

// lh3 decodes blocks with fixed, own and single codes
func (c *codecRun) lh3(m *lzMethod, lit func(int) tok) {
	var every []tok
	for l := m.minLen; l <= m.maxLen; l++ {
		every = append(every, tok{lit: vInt(int64(l * 7 % 256))}, tok{len: l, off: 1 + (l-m.minLen)*33%8192}, tok{len: m.minLen, off: 64*(l%128) + 64})
	}
	flat286 := flat(286)
	own := func(b block, lens []int) *block {
		b.fixed, b.pLens = false, lens
		return &b
	}
	be := &block{toks: every, cLens: flat286, fixed: true}
	b1 := block3([]tok{lit(0), {len: 3, off: 1}, lit(1), {len: 35, off: 300}, lit(2)})
	b2 := own(*block3([]tok{lit(0), {len: 256, off: 7}, lit(2), {len: 12, off: 8192}, lit(1)}), flat(128))
	b3 := &block{toks: []tok{{lit: vInt(65)}, {lit: vInt(65)}}, only: 65, fixed: true}
	b4 := &block{toks: []tok{{len: 40, off: 70}, {len: 33, off: 128}, {len: 32, off: 65}}, only: 285, ponly: 1}
	b5 := &block{toks: []tok{{len: 4, off: 70}, {len: 4, off: 6000}}, only: 257, pLens: flat(128)}
	b6 := own(*block3([]tok{lit(0), {len: 3, off: 1}, lit(1), {len: 31, off: 65}, lit(0), {len: 31, off: 64*6 + 1}}), chain(128, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 127}, 15))
	b7 := own(*block3([]tok{lit(0), {len: 3, off: 8192}, lit(1)}), nil)
	b7.ponly = 127
	for _, bs := range [][]*block{{be}, {own(*be, flat(128))}, {b1}, {b2}, {b3, b1}, {b4, b2}, {b7}, {b5}, {b6}, {b7, b6}, {b6, b5, b4, b3, b2, b1}, {b2, b1, b7, b1}} {
		o := &bitsOut{}
		var ts []tok
		for _, b := range bs {
			o.writeBlock3(c.run.e, b)
			ts = append(ts, b.toks...)
		}
		c.decode(fmt.Sprintf("%d blocks", len(bs)), m, o.bytes(), ts)
	}
}

func flat(n int) []int {
	// n symbols of lengths k and k+1
	k := 0
	for 1<<(k+1) <= n {
		k++
	}
	r := make([]int, n)
	for i := range r {
		r[i] = k
		if i >= 2*(1<<k)-n {
			r[i] = k + 1
		}
	}
	return r
}

func (m *lzMethod) packed(e *Engine, bs ...*block) []*V {
	o := &bitsOut{}
	for _, b := range bs {
		o.writeBlock(e, m, b)
	}
	return o.bytes()
}

// pack writes the tokens in one block, with a code for those that occur
func (m *lzMethod) pack(e *Engine, ts []tok) []*V {
	switch {
	case m.np > 0:
		return m.packed(e, m.block(ts))
	case m.name == "lzs", m.name == "lz5":
		return m.larc(e, ts)
	case m.name == "lh3":
		o := &bitsOut{}
		o.writeBlock3(e, block3(ts))
		return o.bytes()
	case m.name == "lh1": // the literals and lengths are given
		o := &bitsOut{}
		for _, t := range ts {
			if t.lit == nil {
				o.writeOff64(fixedLh1, 0, t.off)
			}
		}
		return o.bytes()
	}
	return nil // given as tokens
}

func (m *lzMethod) block(ts []tok) *block {
	var lens, offs []int
	hl, ho := map[int]bool{}, map[int]bool{}
	for _, t := range ts {
		if t.lit == nil {
			if !hl[t.len] {
				hl[t.len] = true
				lens = append(lens, t.len)
			}
			if j := bitLen(t.off - 1); !ho[j] {
				ho[j] = true
				offs = append(offs, j)
			}
		}
	}
	b := &block{toks: ts, cLens: make([]int, 510)}
	for i := 0; i < 256; i++ {
		b.cLens[i] = 8
		if len(lens) > 0 {
			b.cLens[i] = 9 // the other half of the codes is for the lengths
		}
	}
	n := 1
	for 1<<(n-1) < len(lens) {
		n++
	}
	for l := 256; len(lens) > 0 && len(lens) < 1<<(n-1); l-- {
		if !hl[l] {
			lens = append(lens, l)
		}
	}
	for _, l := range lens {
		b.cLens[253+l] = n
	}
	switch len(offs) {
	case 0:
		b.ponly = 0
	case 1:
		b.ponly = offs[0]
	default:
		b.pLens = chain(m.np, offs, 17)
	}
	return b
}
