package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = &check{
		rule:   "bit-provenance dataflow: for every sequence of widths (three codes of 0 to 16 bits), with codes and stream bytes that are symbols, each bit handed to the output is traced to the bit of the code it must be (most significant first, no gap, no overlap), each bit of a value read is traced to the bit of the stream it must be; the bytes written or consumed and the recorded counts agree; beyond the member's bytes nothing is read and zeros are delivered; a member that does not fit its limit is marked and nothing more is written",
		assume: []string{"reading and writing succeed (failures are the subject of C11)", "the bit position is reached by one or two codes before the one observed"},
		run:    bitStreams,
	}
}

// exactWorld analyses with exact numbers, bits and memory
func exactWorld(p *Program, r *Report) *World {
	w := newWorld(p, r)
	w.fresh, w.keep, w.realHeader, w.realWrite, w.realCodec = true, true, true, true, true
	w.cfg.Terms, w.cfg.Bits, w.cfg.Mod, w.cfg.Exact = true, true, true, true
	w.cfg.Fast = false
	w.cfg.Unroll = func(*ssa.Function) int { return 1 << 20 }
	w.fields["DumpLzss"] = vBool(false)
	w.globals["Quiet"] = vBool(true)
	return w
}

func bitStreams(p *Program, r *Report) {
	var jobs []func(*Report)
	widths := []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	third := []int64{0, 1, 4, 7, 8, 9, 13, 16}
	if r.tier == "thorough" {
		third = widths
	}
	for _, a := range widths {
		jobs = append(jobs, func(r *Report) {
			wr, rd := newBitRun(p, r), newBitRun(p, r)
			if wr == nil || rd == nil {
				return
			}
			for _, b := range widths {
				for _, c := range third {
					wr.put([]int64{a, b, c}, false, 1000)
					if b == 16 || b == 5 {
						wr.put([]int64{a, b, c}, true, 1000)
						for lim := int64(0); lim < 6; lim++ {
							wr.put([]int64{a, b, c}, false, lim)
						}
					}
					rd.get([]int64{a, b, c}, 20)
					if b == 16 || b == 3 {
						for k := int64(0); k < 6; k++ {
							rd.get([]int64{a, b, c}, k)
						}
					}
				}
			}
			r.absorb(wr.run)
			r.absorb(rd.run)
		})
	}
	r.parallel(jobs...)
	r.need("sequences written", 17*17*len(third))
	r.need("sequences read", 17*17*len(third))
}

type bitRun struct {
	p   *Program
	r   *Report
	w   *World
	run *Run
	st0 *State
	cap *Obj
}

func newBitRun(p *Program, r *Report) *bitRun {
	w := exactWorld(p, r)
	b := &bitRun{p: p, r: r, w: w}
	w.cfg.Before = func(ev *Ev) {
		if ev.op == "write" {
			capture(ev, b.cap)
		}
	}
	w.cfg.After = func(ev *Ev, o *Out) bool {
		switch ev.op {
		case "write":
			return o.tag == "ok"
		case "read", "readfull":
			if o.tag != "ok" {
				return false
			}
			return feed(ev, o, func(i int) *V { return ev.e.symInt(fmt.Sprintf("in%d", i), 0, 255, 8) })
		}
		return true
	}
	b.run = w.start()
	if b.run == nil {
		return nil
	}
	b.cap = b.run.e.obj("captured", func(o *Obj) {})
	set := func(f string, v *V) {
		if !b.run.e.setField(p, b.run.st, b.run.lha, "Lha", f, v) {
			r.bad("anchor", "Lha."+f, "no such field", nil)
		}
	}
	set("infile", ifaceOf(b.run, "member-input"))
	set("outfile", ifaceOf(b.run, "member-output"))
	set("unpackable", vBool(false))
	b.st0 = b.run.st.clone()
	return b
}

// capture appends the bytes of a write to an object
func capture(ev *Ev, cap *Obj) {
	s := ev.args[len(ev.args)-1]
	if cap == nil || s.k != KSlice || s.ln == nil {
		return
	}
	n, ok := s.ln.isConst()
	if _, ok2 := s.off.isConst(); !ok || !ok2 {
		ev.st.set("bad", ev.pos())
		return
	}
	pos, _ := strconv.Atoi(ev.st.get("wpos"))
	for i := int64(0); i < n; i++ {
		v := ev.e.load(ev.st, ev.e.indexAddr(s, vInt(i)), types.Typ[types.Byte])
		ev.e.writeCell(ev.st, Addr{cap.id, ev.e.path(0, 'i', int64(pos)+i)}, nil, types.Typ[types.Byte], v, true)
	}
	ev.st.set("wpos", strconv.Itoa(pos+int(n)))
}

// feed delivers stream bytes to a read of a known amount
func feed(ev *Ev, o *Out, at func(i int) *V) bool {
	s := ev.args[len(ev.args)-1]
	n, ok := s.ln.isConst()
	if _, ok2 := s.off.isConst(); !ok || !ok2 {
		o.st.set("bad", ev.pos())
		return true
	}
	pos, _ := strconv.Atoi(o.st.get("pos"))
	for i := int64(0); i < n; i++ {
		ev.e.store(o.st, ev.e.indexAddr(s, vInt(i)), types.Typ[types.Byte], at(pos+int(i)))
	}
	if len(o.res) > 0 && o.res[0].k == KInt {
		o.res[0] = vInt(n)
	}
	o.st.set("pos", strconv.Itoa(pos+int(n)))
	return true
}

// call a method of the handle that has a single outcome
func (b *bitRun) call(what, name string, args ...*V) (*Out, bool) {
	fn := b.run.fn(name)
	if fn == nil {
		b.r.bad("anchor", name, "not found", nil)
		return nil, false
	}
	as := append([]*V{b.run.lha}, args...)
	if len(as) != len(fn.Params) {
		b.r.bad("anchor", name, "unexpected parameters", nil)
		return nil, false
	}
	outs := b.run.call(fn, as...)
	if len(outs) != 1 || outs[0].panic {
		var tr []string
		if len(outs) > 0 {
			tr = outs[0].st.trace(30)
		}
		b.r.bad("bits", fnName(fn), fmt.Sprintf("%s: %d outcomes of one call, depending on the data", what, len(outs)), tr)
		return nil, false
	}
	b.run.st = outs[0].st.clone()
	return outs[0], true
}

func (b *bitRun) field(n string) *V {
	return b.run.e.fieldOf(b.p, b.run.st, b.run.lha, "Lha", n)
}

// bitsOf v, most significant of the n low bits first
func (b *bitRun) msb(v *V, n int64, t types.Type) []Bit {
	x := b.run.e.getBits(t, v)
	var r []Bit
	for i := n - 1; i >= 0; i-- {
		r = append(r, x[i])
	}
	return r
}

func (b *bitRun) put(ws []int64, code bool, limit int64) {
	e := b.run.e
	name := "putbits"
	if code {
		name = "putcode"
	}
	what := fmt.Sprintf("%s %v, limit %d", name, ws, limit)
	b.run.st = b.st0.clone()
	b.run.st.set("wpos", "0")
	e.setField(b.p, b.run.st, b.run.lha, "Lha", "origsize", vInt(limit))
	e.setField(b.p, b.run.st, b.run.lha, "Lha", "compsize", vInt(0))
	if _, ok := b.call(what, "initPutbits"); !ok {
		return
	}
	b.r.count("sequences written", 1)
	b.r.ob("%s", what)
	var want []Bit
	u16 := types.Typ[types.Uint16]
	check := func(at string) bool {
		if x := b.run.st.get("bad"); x != "" {
			b.r.bad("bits", x, what+": how much is written depends on the data", nil)
			return false
		}
		n, _ := strconv.Atoi(b.run.st.get("wpos"))
		exp := len(want) / 8
		over := int64(exp) > limit
		if over {
			exp = int(limit)
		}
		if n != exp {
			b.r.bad("bits", at, fmt.Sprintf("%s: %d bytes are written after %d bits", what, n, len(want)), nil)
			return false
		}
		for i := 0; i < n*8; i++ {
			v := e.readCell(b.run.st, Addr{b.cap.id, e.path(0, 'i', int64(i/8))}, nil, types.Typ[types.Byte])
			g := e.getBits(types.Typ[types.Byte], v)[7-i%8]
			if g.top || !bEq(g, want[i]) {
				b.r.bad("bits", at, fmt.Sprintf("%s: bit %d of the stream is not the bit of the code it should be", what, i), nil)
				return false
			}
		}
		if c, ok := b.field("compsize").isConst(); !ok || c != int64(n) {
			b.r.bad("count", at, fmt.Sprintf("%s: the recorded packed size is not the %d bytes written", what, n), nil)
			return false
		}
		u := b.field("unpackable")
		if u.lo != u.hi || (u.lo == 1) != over {
			b.r.bad("limit", at, fmt.Sprintf("%s: the mark `does not fit' is wrong after %d bits", what, len(want)), nil)
			return false
		}
		return true
	}
	fn := fnName(b.run.fn(name))
	for i, n := range ws {
		var x *V
		if code {
			bs := make([]Bit, 16)
			s := symBits(e.sym(fmt.Sprintf("code%d", i), 16), 16)
			for j := range bs {
				bs[j] = bConst(0)
				if int64(j) >= 16-n {
					bs[j] = s[j]
				}
			}
			x = &V{k: KInt, lo: 0, hi: 65535, bits: bs}
			if n == 0 {
				x = vInt(0)
			}
			want = append(want, b.msb(x, 16, u16)[:n]...)
		} else {
			x = e.symInt(fmt.Sprintf("code%d", i), 0, 65535, 16)
			want = append(want, b.msb(x, n, u16)...)
		}
		if _, ok := b.call(what, name, vInt(n), x); !ok || !check(fn) {
			return
		}
	}
	// the end of a member: what is pending goes out
	for i := 0; i < 7; i++ {
		want = append(want, bConst(0))
	}
	if _, ok := b.call(what, "putbits", vInt(7), vInt(0)); ok {
		check(fn)
	}
}

func (b *bitRun) get(ws []int64, avail int64) {
	e := b.run.e
	what := fmt.Sprintf("getbits %v of %d bytes", ws, avail)
	b.run.st = b.st0.clone()
	b.run.st.set("pos", "0")
	e.setField(b.p, b.run.st, b.run.lha, "Lha", "compsize", vInt(avail))
	if _, ok := b.call(what, "initGetbits"); !ok {
		return
	}
	b.r.count("sequences read", 1)
	b.r.ob("%s", what)
	at := fnName(b.run.fn("getbits"))
	stream := func(i int64) Bit {
		if i/8 >= avail {
			return bConst(0)
		}
		return e.symInt(fmt.Sprintf("in%d", i/8), 0, 255, 8).bits[7-i%8]
	}
	same := func(v *V, n, from int64, f string) bool {
		g := b.msb(v, n, types.Typ[types.Uint16])
		for i := range g {
			if g[i].top || !bEq(g[i], stream(from+int64(i))) {
				b.r.bad("bits", f, fmt.Sprintf("%s: bit %d of the stream is not delivered where it belongs", what, from+int64(i)), nil)
				return false
			}
		}
		if v.hi >= 1<<n && n < 16 {
			for _, x := range e.getBits(types.Typ[types.Uint16], v)[n:] {
				if !x.zero() {
					b.r.bad("bits", f, fmt.Sprintf("%s: more than %d bits are delivered", what, n), nil)
					return false
				}
			}
		}
		return true
	}
	pos := int64(0)
	for _, n := range ws {
		if fn := b.run.method("Lha", "peekbits"); fn != nil && n > 0 {
			if o, ok := b.call(what, "peekbits", vInt(n)); !ok || !same(o.res[0], n, pos, fnName(fn)) {
				return
			}
		}
		o, ok := b.call(what, "getbits", vInt(n))
		if !ok || !same(o.res[0], n, pos, at) {
			return
		}
		pos += n
		if x := b.run.st.get("bad"); x != "" {
			b.r.bad("bits", x, what+": how much is read depends on the data", nil)
			return
		}
		k, _ := strconv.ParseInt(b.run.st.get("pos"), 10, 64)
		if k > avail {
			b.r.bad("count", at, fmt.Sprintf("%s: %d bytes are read, the member has %d", what, k, avail), nil)
			return
		}
		if c, ok := b.field("compsize").isConst(); !ok || c != avail-k {
			b.r.bad("count", at, fmt.Sprintf("%s: the count of remaining bytes does not match the %d bytes read", what, k), nil)
			return
		}
	}
}
