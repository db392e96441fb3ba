package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = &check{
		rule:   "byte-provenance dataflow over the encoder: the source is a sequence of symbols of which only is known which are equal, so that one abstract path stands for every content of that pattern; every literal and match emitted is expanded as the format defines it and each byte must be the very symbol of the source; lengths and distances keep to the method's limits, the CRC-16 returned is that of the source",
		assume: []string{"reading and writing succeed (failures are the subject of C11)", "sources are of the enumerated patterns of equal bytes and lengths"},
		run:    encoding,
	}
}

type encRun struct {
	p      *Program
	r      *Report
	run    *Run
	st0    *State
	src    []*V
	isIn   map[string]bool // the bytes of the source, by their bits
	kept   *State          // the state to begin with, if not a new one
	last   *State          // the state after the last source
	tokC   *Obj
	tokP   *Obj
	cap    *Obj
	pick   map[string]int64
	same   bool // all unknown indices are one
	forks  int
	forkAt string
}

func newEncRun(p *Program, r *Report) *encRun {
	w := exactWorld(p, r)
	w.realTable = true
	w.cfg.NoFill = true
	c := &encRun{p: p, r: r}
	w.cfg.Before = func(ev *Ev) {
		if ev.op == "write" {
			capture(ev, c.cap)
		}
	}
	w.cfg.After = func(ev *Ev, o *Out) bool {
		switch ev.op {
		case "write":
			return o.tag == "ok"
		case "read", "readfull":
			pos, _ := strconv.Atoi(ev.st.get("pos"))
			s := ev.args[len(ev.args)-1]
			n, ok := s.ln.isConst()
			if !ok {
				o.st.set("bad", ev.pos())
				return o.tag == "ok"
			}
			left := len(c.src) - pos
			m, tag := int(n), "ok"
			switch {
			case n > 0 && left == 0:
				m, tag = 0, "eof"
			case left < int(n) && ev.op == "readfull":
				m, tag = left, "ueof"
			case left < int(n):
				m = left
			}
			if o.tag != tag {
				return false
			}
			for i := 0; i < m; i++ {
				ev.e.store(o.st, ev.e.indexAddr(s, vInt(int64(i))), types.Typ[types.Byte], c.src[pos+i])
			}
			o.res[0] = vInt(int64(m))
			o.st.set("pos", strconv.Itoa(pos+m))
		}
		return true
	}
	w.cfg.Decide = func(op token.Token, a, b *V) int {
		// bytes of the source are equal only where the pattern says so
		if op != token.EQL && op != token.NEQ || !c.isSrc(a) || !c.isSrc(b) {
			return 2
		}
		if op == token.EQL {
			return 0
		}
		return 1
	}
	w.cfg.Pick = func(ix *V) (int64, bool) {
		if len(ix.bits) == 0 || anyTop(ix.bits) || ix.hi < 256 { // tables of bytes are looked up as they are
			return 0, false
		}
		if c.same {
			return 0, true
		}
		k := bitsKey(ix.bits)
		n, ok := c.pick[k]
		if !ok {
			n = int64(len(c.pick)) * 7 % 32768
			c.pick[k] = n
		}
		return n, true
	}
	w.cfg.OnBranch = func(ev *Ev, cond ssa.Value, v *V) {
		if v.k == KInt && v.lo == v.hi {
			return
		}
		if c.forks++; c.forkAt == "" {
			c.forkAt = ev.pos()
		}
		if c.forks > 500 {
			panic(stopErr{"encode", c.forkAt, "the course of encoding is not decided by which bytes are equal"})
		}
	}
	enter := w.cfg.Enter
	w.cfg.Enter = func(ev *Ev) []*Out {
		if outs := c.emitted(ev); outs != nil {
			return outs
		}
		if enter != nil {
			return enter(ev)
		}
		return nil
	}
	c.run = w.start()
	if c.run == nil {
		return nil
	}
	e := c.run.e
	c.cap = e.obj("captured", func(o *Obj) {})
	c.tokC = e.obj("emitted codes", func(o *Obj) {})
	c.tokP = e.obj("emitted offsets", func(o *Obj) {})
	if mk := c.run.fn("MakeCrcTable"); mk != nil {
		if outs := c.run.call(mk); len(outs) == 1 && !outs[0].panic {
			c.run.st = outs[0].st.clone()
		}
	}
	c.st0 = c.run.st.clone()
	return c
}

// isSrc tells whether a value is a byte of the source or a space
func (c *encRun) isSrc(v *V) bool {
	if n, ok := v.isConst(); ok {
		return n == ' '
	}
	return len(v.bits) >= 8 && c.isIn[bitsKey(v.bits[:8])]
}

func (c *encRun) emitted(ev *Ev) []*Out {
	for _, name := range []string{"encodeEnd", "encodeEndSt1", "encodeEndDyn"} {
		if isMethodOf(ev.fn, "Lha", name) && ev.fn.Signature.Results().Len() == 0 {
			return []*Out{{st: ev.st.clone()}}
		}
	}
	out := false
	for _, name := range []string{"encodeOuput", "encodeOutput", "outputSt1", "outputDyn"} {
		out = out || isMethodOf(ev.fn, "Lha", name) && ev.fn.Signature.Results().Len() == 0
	}
	if !out || len(ev.args) < 3 {
		return nil
	}
	st := ev.st.clone()
	k, _ := strconv.Atoi(st.get("tok"))
	e := ev.e
	u := types.Typ[types.Uint16]
	e.store(st, vPtr(Addr{c.tokC.id, e.path(0, 'i', int64(k))}), u, ev.args[len(ev.args)-2])
	e.store(st, vPtr(Addr{c.tokP.id, e.path(0, 'i', int64(k))}), u, ev.args[len(ev.args)-1])
	st.set("tok", strconv.Itoa(k+1))
	return []*Out{{st: st}}
}

// encode a source given as numbers of symbols (-1: a space)
func (c *encRun) encode(what string, m *lzMethod, src []int) {
	e, r := c.run.e, c.r
	r.ob("%s: %s, %d bytes", m.name, what, len(src))
	r.count("sources", 1)
	syms := map[int]*V{-1: vInt(' ')}
	c.src, c.isIn = nil, map[string]bool{}
	for _, k := range src {
		if syms[k] == nil {
			syms[k] = e.symInt(fmt.Sprintf("byte%d", k), 0, 255, 8)
		}
		if k >= 0 {
			c.isIn[bitsKey(e.getBits(types.Typ[types.Byte], syms[k]))] = true
		}
		c.src = append(c.src, syms[k])
	}
	c.forks, c.forkAt = 0, ""
	c.run.st = c.st0.clone()
	if c.kept != nil {
		c.run.st = c.kept.clone()
	} else {
		c.pick = map[string]int64{}
	}
	st := c.run.st
	for _, k := range []string{"pos", "wpos", "tok"} {
		st.set(k, "0")
	}
	if !e.setField(c.p, st, c.run.lha, "Lha", "CompressMethod", vInt(int64(m.num))) {
		r.bad("anchor", "CompressMethod", "no such setting", nil)
		return
	}
	fn := c.run.method("Lha", "EncodeLzhuf")
	if fn == nil || len(fn.Params) != 8 {
		r.bad("anchor", "EncodeLzhuf", "not found", nil)
		return
	}
	cell := func(name string, t types.Type, v *V) *V {
		o := e.obj(name, func(o *Obj) {})
		e.store(st, vPtr(Addr{o.id, 0}), t, v)
		return vPtr(Addr{o.id, 0})
	}
	it := fn.Params[1].Type().Underlying().(*types.Pointer).Elem()
	ot := fn.Params[2].Type().Underlying().(*types.Pointer).Elem()
	in, out := cell("in", it, ifaceOf(c.run, "member-input")), cell("out", ot, ifaceOf(c.run, "member-output"))
	on, pn := cell("orig", types.Typ[types.Int], vInt(0)), cell("packed", types.Typ[types.Int], vInt(0))
	hm := c.run.byteSlice("method", "-lh0-", 5)
	outs := c.run.call(fn, c.run.lha, in, out, vInt(int64(len(src))), on, pn, c.run.byteSlice("name", "name", 4), hm)
	at := fnName(fn)
	if len(outs) != 1 || outs[0].panic {
		var tr []string
		for _, o := range outs {
			tr = o.st.trace(30)
		}
		r.bad("encode", at, fmt.Sprintf("%s, %s: compressing has %d outcomes", m.name, what, len(outs)), tr)
		return
	}
	st = outs[0].st
	if x := st.get("bad"); x != "" {
		r.bad("encode", x, fmt.Sprintf("%s, %s: how much is read depends on the data", m.name, what), nil)
		return
	}
	if outs[0].res[1].mayNonNil() {
		r.bad("encode", at, fmt.Sprintf("%s, %s: compressing fails", m.name, what), st.trace(30))
		return
	}
	n, _ := strconv.Atoi(st.get("tok"))
	w := 1 << m.bits
	u := types.Typ[types.Uint16]
	bt := types.Typ[types.Byte]
	var got []*V
	matches := 0
	for k := 0; k < n; k++ {
		code := e.load(st, vPtr(Addr{c.tokC.id, e.path(0, 'i', int64(k))}), u)
		if code.hi < 256 {
			got = append(got, e.convInt(u, bt, code))
			continue
		}
		l, ok := code.isConst()
		off, ok2 := e.load(st, vPtr(Addr{c.tokP.id, e.path(0, 'i', int64(k))}), u).isConst()
		l -= 256 - int64(m.minLen)
		off++
		if !ok || !ok2 || l < int64(m.minLen) || l > int64(m.maxLen) || off > int64(w) {
			r.bad("limits", at, fmt.Sprintf("%s, %s: item %d emitted is a match of length %d and distance %d", m.name, what, k, l, off), nil)
			return
		}
		matches++
		for i := int64(0); i < l; i++ {
			if x := len(got) - int(off); x >= 0 {
				got = append(got, got[x])
			} else {
				got = append(got, vInt(' '))
			}
		}
	}
	if len(got) != len(src) {
		r.bad("encode", at, fmt.Sprintf("%s, %s: what is emitted stands for %d bytes, the source has %d", m.name, what, len(got), len(src)), nil)
		return
	}
	for i, g := range got {
		if g != c.src[i] && !bitsEq(e.getBits(bt, g), e.getBits(bt, c.src[i])) {
			r.bad("encode", at, fmt.Sprintf("%s, %s: byte %d of %d is not the byte of the source", m.name, what, i, len(got)), nil)
			return
		}
	}
	c.last = st
	r.count("bytes traced", len(got))
	r.count("matches", matches)
	crc := e.getBits(u, e.convInt(types.Typ[types.Uint], u, outs[0].res[0]))
	if !bitsEq(crc, crcBits(e, c.src)) {
		r.bad("crc", at, fmt.Sprintf("%s, %s: the checksum returned is not that of the source", m.name, what), nil)
	}
	if x, ok := e.load(st, on, types.Typ[types.Int]).isConst(); !ok || int(x) != len(src) {
		r.bad("count", at, fmt.Sprintf("%s, %s: the size recorded is not that of the source", m.name, what), nil)
	}
}

// debruijn is a sequence in which every triple of k symbols occurs once, cut to n
func debruijn(k, n int) []int {
	var seq []int
	a := make([]int, k*3)
	var db func(t, p int)
	db = func(t, p int) {
		if len(seq) >= n {
			return
		}
		if t > 3 {
			if 3%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	if len(seq) > n {
		seq = seq[:n]
	}
	return seq
}

func encoding(p *Program, r *Report) {
	var jobs []func(*Report)
	job := func(f func(c *encRun)) {
		jobs = append(jobs, func(r *Report) {
			c := newEncRun(p, r)
			if c == nil {
				return
			}
			f(c)
			r.absorb(c.run)
		})
	}
	rep := func(n int, period ...int) []int {
		var s []int
		for i := 0; i < n; i++ {
			s = append(s, period[i%len(period)])
		}
		return s
	}
	join := func(ss ...[]int) []int {
		var s []int
		for _, x := range ss {
			s = append(s, x...)
		}
		return s
	}
	for i := range lzMethods {
		m := &lzMethods[i]
		if m.num != 1 && m.num < 5 || m.num > 7 {
			continue
		}
		w := 1 << m.bits
		deep := r.tier == "thorough"
		longest := 4
		if m.num == 5 || deep {
			longest = 5
		}
		for _, same := range []bool{false, true} {
			job(func(c *encRun) {
				c.same = same
				for n := 1; n <= longest; n++ {
					var all func(s []int, k int)
					all = func(s []int, k int) {
						if len(s) == n {
							c.encode("every pattern", m, s)
							return
						}
						for x := 0; x <= k; x++ {
							all(append(s[:len(s):len(s)], x), max(k, x+1))
						}
					}
					all(nil, 0)
				}
			})
			job(func(c *encRun) {
				c.same = same
				for _, n := range []int{m.maxLen - 2, m.maxLen - 1, m.maxLen, m.maxLen + 1, m.maxLen + 2, m.maxLen + 3, 2*m.maxLen + 1, 600} {
					c.encode("one byte", m, rep(n, 0))
				}
				for _, n := range []int{6, 7, m.maxLen + 1, m.maxLen + 2, m.maxLen + 3} {
					c.encode("two bytes", m, rep(n, 0, 1))
					c.encode("three bytes", m, rep(n, 0, 1, 2))
					c.encode("spaces", m, rep(n, -1))
				}
				c.encode("a run between", m, join([]int{0, 1, 2}, rep(300, 3), []int{0, 1, 2, 3, 3, 3, 3, 1, 2}))
			})
		}
		job(func(c *encRun) {
			// all tokens fall together: the search gives up its first key
			c.same = true
			d := debruijn(8, 400)
			c.encode("one chain", m, join(d, d[100:200], d[50:90]))
		})
		job(func(c *encRun) {
			// one token very often, something else after it every time
			var s []int
			d := debruijn(21, 1300)
			for i := 0; i < 300; i++ {
				s = append(s, 100, 101, 102, d[4*i], d[4*i+1])
			}
			c.encode("a frequent token", m, join(s, s[200:280], s[20:60], []int{100, 101}))
		})
		job(func(c *encRun) {
			// another source before this one leaves nothing behind
			d := debruijn(12, 700)
			other := &lzMethods[7]
			if m.num == 7 {
				other = &lzMethods[5]
			}
			for _, x := range lzMethods {
				if x.num == 7 && m.num != 7 || x.num == 5 && m.num == 7 {
					x := x
					other = &x
				}
			}
			c.encode("first of two", other, join(d[:600], d[100:300]))
			c.kept = c.last
			if c.kept != nil {
				c.encode("second of two", m, join(d[300:500], d[:80], d[350:400]))
			}
			c.kept = nil
		})
		{
			// the window moves on; what repeats is as far away as a match may reach
			for _, dist := range []int{w - 1, w, w + 1} {
				if w > 8192 && dist != w && !deep {
					continue
				}
				job(func(c *encRun) {
					n := 21
					for n*n*n < w+200 {
						n++
					}
					d := debruijn(n, w+200)
					c.encode(fmt.Sprintf("repeats at %d", dist), m, join(d[:dist], d[:m.maxLen+40], d[w/2+5:w/2+35], d[w-300:w-270]))
				})
			}
			if w > 8192 && !deep {
				continue
			}
			job(func(c *encRun) {
				n := 21
				for n*n*n < w+200 {
					n++
				}
				d := debruijn(n, w+200)
				c.encode("longer than twice the window", m, join(d[:w], d[w/2:w], d[:w/2+300]))
			})
		}
	}
	r.parallel(jobs...)
	r.need("sources", 100)
}
