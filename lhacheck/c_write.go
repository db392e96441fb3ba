package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	checks["C04"] = &check{
		rule: "bit-provenance dataflow: with a header record of symbolic numbers and enumerated names, the bytes that WriteHeader hands to the archive are parsed as the format lays them out; every field must hold exactly the bits of the record, the structure (sizes, levels, kinds of extended headers) must be constant and consistent with the number of bytes written, the sum byte must be the sum of the header bytes modulo 256 as a linear form, and the header CRC must be the CRC-16 of the header as GF(2)-linear bits",
		assume: []string{"numbers fit the fields of the format (sizes and time below 2^32, years 1980-2107)", "names are those enumerated (lengths, separators, links)",
			"time.Unix and the calendar methods of time.Time behave as documented"},
		run: writeHeaders,
	}
}

type wcase struct {
	what        string
	level       int
	generic     bool
	upper       bool
	kind        int64 // file type bits
	name        string
	link        string
	group, user string
	pad         bool // names in storage of fixed size
}

func wcases() []wcase {
	var r []wcase
	add := func(c wcase) {
		c.what = fmt.Sprintf("level %d", c.level)
		if c.generic {
			c.what += ", generic"
		}
		if c.link != "" {
			c.what += ", symbolic link"
		}
		n := c.name
		if len(n) > 20 {
			n = fmt.Sprintf("%s... (%d bytes)", n[:8], len(n))
		}
		c.what += fmt.Sprintf(", name %q", n)
		r = append(r, c)
	}
	long := strings.Repeat("n", 1000)
	for lv := 0; lv <= 2; lv++ {
		for _, g := range []bool{false, true} {
			for _, pad := range []bool{false, true} {
				add(wcase{level: lv, generic: g, kind: 0100000, name: "a.txt", pad: pad})
				add(wcase{level: lv, generic: g, kind: 0100000, name: "d/e/a.txt", pad: pad})
			}
			add(wcase{level: lv, generic: g, upper: true, kind: 0100000, name: "d/Mixed.txt", pad: true})
			add(wcase{level: lv, generic: g, kind: 0040000, name: "some/dir/", pad: true})
			add(wcase{level: lv, generic: g, kind: 0040000, name: "dir", pad: true})
		}
		add(wcase{level: lv, kind: 0100000, name: "a.txt", group: "staff", user: "joe", pad: true})
		add(wcase{level: lv, kind: 0100000, name: "x/a.txt", group: "g", pad: true})
		add(wcase{level: lv, kind: 0120000, name: "ln", link: "to", pad: true})
		add(wcase{level: lv, kind: 0120000, name: "d/ln", link: "../to/there", pad: true})
		for n := 1; n <= 500; n++ {
			if n > 300 && (lv < 2 && n%50 != 0 || n < 440 || n > 480) {
				continue
			}
			if lv == 0 && n > 219 || n > 40 && n < 150 || n > 10 && n < 150 && n%10 != 0 {
				continue
			}
			add(wcase{level: lv, kind: 0100000, name: long[:n]})
			if n%5 == 0 && n > 10 && !(lv == 0 && n > 210) {
				add(wcase{level: lv, kind: 0100000, name: long[:n-7] + "/" + long[:6]})
				add(wcase{level: lv, generic: true, kind: 0100000, name: long[:n], pad: true})
			}
		}
	}
	return r
}

func writeHeaders(p *Program, r *Report) {
	termMax = 1200
	var jobs []func(*Report)
	cs := wcases()
	for i := 0; i < len(cs); i += 20 {
		part := cs[i:min(i+20, len(cs))]
		jobs = append(jobs, func(r *Report) {
			for _, c := range part {
				writeOne(p, r, c)
			}
		})
	}
	r.parallel(jobs...)
	r.need("records", len(cs))
	r.need("written", len(cs))
}

// byteSlice is a slice of constant bytes
func (r *Run) byteSlice(tag, s string, n int) *V {
	e := r.e
	o := e.obj("in:"+tag, func(x *Obj) {})
	for i := 0; i < n; i++ {
		c := 0
		if i < len(s) {
			c = int(s[i])
		}
		e.writeCell(r.st, Addr{o.id, e.path(0, 'i', int64(i))}, nil, types.Typ[types.Byte], vInt(int64(c)), true)
	}
	return &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vInt(int64(n)), cp: vInt(int64(n))}
}

// wrec is a header parsed from what was written
type wrec struct {
	e    *Engine
	b    []*V
	err  string
	num  map[string]*V
	text map[string]string
}

func (w *wrec) fail(f string, a ...any) {
	if w.err == "" {
		w.err = fmt.Sprintf(f, a...)
	}
}
func (w *wrec) n(pos, n int) *V {
	t := types.Typ[types.Int]
	r := vInt(0)
	if pos+n > len(w.b) {
		w.fail("the header ends within a field at byte %d", pos)
		return r
	}
	for i := 0; i < n; i++ {
		b := w.e.convInt(types.Typ[types.Byte], t, w.b[pos+i])
		r = w.e.arith(t, token.ADD, r, w.e.arith(t, token.SHL, b, vInt(int64(8*i))))
	}
	return r
}
func (w *wrec) c(pos, n int) int {
	v, ok := w.n(pos, n).isConst()
	if !ok {
		w.fail("the byte at %d is not fixed by the layout", pos)
		return -1
	}
	return int(v)
}
func (w *wrec) str(pos, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		c := w.c(pos+i, 1)
		if w.err != "" {
			return sb.String()
		}
		sb.WriteByte(byte(c))
	}
	return sb.String()
}

func (w *wrec) exts(pos, end int) {
	dir, file := "", ""
	haveFile := false
	n := w.c(pos-2, 2)
	seen := map[int]bool{}
	for n != 0 && w.err == "" {
		if n < 3 || pos+n > len(w.b) {
			w.fail("extended header size %d at byte %d", n, pos-2)
			return
		}
		k := w.c(pos, 1)
		l := n - 3
		if seen[k] {
			w.fail("extended header 0x%02x occurs twice", k)
		}
		seen[k] = true
		need := func(x int) {
			if l < x {
				w.fail("extended header 0x%02x has %d bytes", k, l)
			}
		}
		switch k {
		case 0:
			need(2)
			w.num["HeaderCrc"] = vInt(int64(pos + 1)) // its position
		case 1:
			file, haveFile = w.str(pos+1, l), true
		case 2:
			dir = w.str(pos+1, l)
		case 0x40:
			need(2)
			w.num["Attribute"] = w.n(pos+1, 1)
		case 0x50:
			need(2)
			w.num["UnixMode"] = w.n(pos+1, 2)
		case 0x51:
			need(4)
			w.num["UnixGid"] = w.n(pos+1, 2)
			w.num["UnixUID"] = w.n(pos+3, 2)
		case 0x52:
			w.text["Group"] = w.str(pos+1, l)
		case 0x53:
			w.text["User"] = w.str(pos+1, l)
		case 0x54:
			need(4)
			w.num["UnixLastModifiedStamp"] = w.n(pos+1, 4)
		}
		pos += n
		n = w.c(pos-2, 2)
	}
	if haveFile {
		w.text["Name"] = file
	}
	w.text["Name"] = dir + w.text["Name"]
	if pos != end && pos+1 != end || pos+1 == end && w.c(20, 1) != 2 {
		w.fail("the extended headers end at byte %d, the header at %d", pos, end)
	}
}

func parseHeader(e *Engine, b []*V) *wrec {
	w := &wrec{e: e, b: b, num: map[string]*V{}, text: map[string]string{}}
	if len(b) < 22 {
		w.fail("only %d bytes are written", len(b))
		return w
	}
	w.text["Method"] = w.str(2, 5)
	w.num["PackedSize"] = w.n(7, 4)
	w.num["OriginalSize"] = w.n(11, 4)
	w.num["Attribute"] = w.n(19, 1)
	lv := w.c(20, 1)
	sum := func(to int) {
		t := types.Typ[types.Int]
		s := vInt(0)
		for i := 2; i < to; i++ {
			s = e.arith(t, token.ADD, s, e.convInt(types.Typ[types.Byte], t, b[i]))
		}
		x, y := e.expand(s.t), e.expand(e.withTerm(b[1]).t)
		if c, ok := b[1].isConst(); ok {
			y = tConst(c)
		}
		if x == nil || y == nil || !x.eq(y) {
			w.fail("the sum byte is not the sum of the bytes of the header")
		}
	}
	switch lv {
	case 0:
		if n := w.c(0, 1); n+2 != len(b) {
			w.fail("recorded header size %d, but %d bytes are written", n, len(b))
			return w
		}
		w.num["dos"] = w.n(15, 4)
		n := w.c(21, 1)
		if w.err != "" || 24+n > len(b) {
			w.fail("name length %d", n)
			return w
		}
		w.text["Name"] = w.str(22, n)
		w.num["Crc"] = w.n(22+n, 2)
		w.num["ExtendType"] = vInt(0)
		if x := len(b) - 24 - n; x > 0 {
			w.num["ExtendType"] = w.n(24+n, 1)
			if w.c(24+n, 1) == 'U' && x >= 12 {
				w.num["UnixLastModifiedStamp"] = w.n(26+n, 4)
				w.num["UnixMode"] = w.n(30+n, 2)
				w.num["UnixUID"] = w.n(32+n, 2)
				w.num["UnixGid"] = w.n(34+n, 2)
			}
		}
		sum(len(b))
	case 1:
		base := w.c(0, 1) + 2
		w.num["dos"] = w.n(15, 4)
		n := w.c(21, 1)
		if w.err != "" || base < 27+n || base > len(b) {
			w.fail("recorded header size %d with a name of %d bytes, %d bytes are written", base-2, n, len(b))
			return w
		}
		w.text["Name"] = w.str(22, n)
		w.num["Crc"] = w.n(22+n, 2)
		w.num["ExtendType"] = w.n(24+n, 1)
		w.exts(base, len(b))
		w.num["skip"] = vInt(int64(len(b) - base))
		sum(base)
	case 2:
		if n := w.c(0, 2); n != len(b) {
			w.fail("recorded header size %d, but %d bytes are written", n, len(b))
			return w
		}
		if w.c(0, 1) == 0 {
			w.fail("the first byte of the header is zero, which marks the end of the archive")
		}
		w.num["UnixLastModifiedStamp"] = w.n(15, 4)
		w.num["Crc"] = w.n(21, 2)
		w.num["ExtendType"] = w.n(23, 1)
		w.exts(26, len(b))
		at, ok := w.num["HeaderCrc"].isConst()
		if w.num["HeaderCrc"] == nil || !ok {
			w.fail("no header CRC")
			return w
		}
		delete(w.num, "HeaderCrc")
		crc := make([]Bit, 16)
		for i := range crc {
			crc[i] = bConst(0)
		}
		for i := range b {
			x := e.getBits(types.Typ[types.Byte], b[i])
			if int64(i) == at || int64(i) == at+1 {
				x = e.getBits(types.Typ[types.Byte], vInt(0))
			}
			crc = crcStep(crc, x)
		}
		got := extend(w.n(int(at), 2).bits, 16, false)
		if c, ok := w.n(int(at), 2).isConst(); ok {
			got = e.getBits(types.Typ[types.Uint16], vInt(c))
		}
		for i := range crc {
			if got == nil || got[i].top || crc[i].top || !bEq(got[i], crc[i]) {
				w.fail("the header CRC is not the CRC-16 of the header")
				break
			}
		}
	default:
		w.fail("level %d", lv)
	}
	return w
}

func writeOne(p *Program, r *Report, c wcase) {
	w, table := headerWorld(p, r)
	w.globals["GenericFormat"] = vBool(c.generic)
	w.globals["ConvertCase"] = vBool(c.upper)
	var cap *Obj
	w.cfg.Before = func(ev *Ev) {
		if ev.op != "write" || cap == nil {
			return
		}
		b := ev.args[len(ev.args)-1]
		if b.k != KSlice || b.ln == nil {
			return
		}
		n, ok := b.ln.isConst()
		if _, ok2 := b.off.isConst(); !ok || !ok2 {
			ev.st.set("bad", ev.pos())
			return
		}
		pos, _ := strconv.Atoi(ev.st.get("wpos"))
		for i := int64(0); i < n; i++ {
			v := ev.e.load(ev.st, ev.e.indexAddr(b, vInt(i)), types.Typ[types.Byte])
			ev.e.writeCell(ev.st, Addr{cap.id, ev.e.path(0, 'i', int64(pos)+i)}, nil, types.Typ[types.Byte], v, true)
		}
		ev.st.set("wpos", strconv.Itoa(pos+int(n)))
	}
	w.cfg.After = func(ev *Ev, o *Out) bool { return ev.op != "write" || o.tag == "ok" }
	var stamp *V
	cal := map[string][3]int64{"Year": {1980, 2107, 11}, "Month": {1, 12, 4}, "Day": {1, 31, 5}, "Hour": {0, 23, 5}, "Minute": {0, 59, 6}, "Second": {0, 59, 6}}
	sym := func(e *Engine, n string) *V { q := cal[n]; return e.symInt("cal"+n, q[0], q[1], int(q[2])) }
	w.cfg.Ext = func(ev *Ev) []*Out {
		one := func(v ...*V) []*Out { return []*Out{{st: ev.st, res: v}} }
		switch ev.name {
		case "time.Unix":
			v := vUnknown(resTypes(ev.instr, ev.com, ev.fn)[0], 0)
			v.id = "other"
			if ns, ok := ev.args[1].isConst(); ok && ns == 0 && ev.e.sameNum(ev.args[0], stamp) {
				v.id = "local"
			}
			return one(v)
		case "(time.Time).Local", "(time.Time).In":
			return one(ev.args[0])
		case "(time.Time).Date":
			if ev.args[0].id == "local" {
				return one(sym(ev.e, "Year"), sym(ev.e, "Month"), sym(ev.e, "Day"))
			}
		case "(time.Time).Clock":
			if ev.args[0].id == "local" {
				return one(sym(ev.e, "Hour"), sym(ev.e, "Minute"), sym(ev.e, "Second"))
			}
		default:
			m := strings.TrimPrefix(ev.name, "(time.Time).")
			if _, ok := cal[m]; ok && m != ev.name && ev.args[0].id == "local" {
				return one(sym(ev.e, m))
			}
		}
		return nil
	}
	run := w.start()
	if run == nil {
		return
	}
	table(run)
	e := run.e
	fn := run.fn("WriteHeader")
	if fn == nil || len(fn.Params) != 2 {
		r.bad("anchor", "WriteHeader", "not found", nil)
		return
	}
	cap = e.obj("captured", func(o *Obj) {})
	ho := e.obj("argHeader", func(o *Obj) { o.lazy = true; o.typ = p.lib.Type("LzHeader").Type() })
	hdr := vPtr(Addr{ho.id, 0})
	num := map[string]*V{
		"PackedSize":            e.symInt("packed", 0, 1<<32-1, 32),
		"OriginalSize":          e.symInt("original", 0, 1<<32-1, 32),
		"UnixLastModifiedStamp": e.symInt("stamp", 0, 1<<32-1, 32),
		"Crc":                   e.symInt("crc", 0, 65535, 16),
		"UnixUID":               e.symInt("uid", 0, 65535, 16),
		"UnixGid":               e.symInt("gid", 0, 65535, 16),
		"Attribute":             e.symInt("attribute", 0, 255, 8),
		"HeaderLevel":           vInt(int64(c.level)),
		"ExtendType":            vInt('U'),
		"HasCrc":                vBool(true),
	}
	stamp = num["UnixLastModifiedStamp"]
	it := types.Typ[types.Int]
	num["UnixMode"] = e.arith(it, token.ADD, e.symInt("perm", 0, 07777, 12), vInt(c.kind))
	for f, v := range num {
		if !e.setField(p, run.st, hdr, "LzHeader", f, v) {
			r.bad("anchor", "LzHeader."+f, "no such field", nil)
			return
		}
	}
	ln := func(s string, n int) int {
		if c.pad {
			return n
		}
		return len(s) + 1
	}
	for f, s := range map[string]string{"Name": c.name, "Realname": c.link, "Group": c.group, "User": c.user} {
		n := 1024
		if f == "Group" || f == "User" {
			n = 256
		}
		e.setField(p, run.st, hdr, "LzHeader", f, run.byteSlice(f, s, ln(s, n)))
	}
	method := "-lh5-"
	if c.kind != 0100000 {
		method = "-lhd-"
	}
	e.setField(p, run.st, hdr, "LzHeader", "Method", run.byteSlice("Method", method, 5))
	wv := e.obj("writerVar", func(o *Obj) {})
	e.store(run.st, vPtr(Addr{wv.id, 0}), fn.Params[0].Type().Underlying().(*types.Pointer).Elem(), ifaceOf(run, "archive"))
	run.st.set("wpos", "0")
	outs := run.call(fn, vPtr(Addr{wv.id, 0}), hdr)
	r.count("records", 1)
	r.absorb(run)
	for _, o := range outs {
		at := fnName(fn)
		r.ob("%s: outcome %s", c.what, o.st.tsk)
		if o.panic {
			r.bad("write", at, c.what+": writing the header panics", o.st.trace(40))
			continue
		}
		if errOf(fn, o).nn&nonNil != 0 {
			r.bad("write", at, c.what+": writing the header may fail although the archive accepts all bytes", o.st.trace(40))
			continue
		}
		if x := o.st.get("bad"); x != "" {
			r.bad("structure", x, c.what+": how many bytes are written is not fixed by the layout", o.st.trace(40))
			continue
		}
		r.count("written", 1)
		n, _ := strconv.Atoi(o.st.get("wpos"))
		var b []*V
		for i := 0; i < n; i++ {
			b = append(b, e.readCell(o.st, Addr{cap.id, e.path(0, 'i', int64(i))}, nil, types.Typ[types.Byte]))
		}
		g := parseHeader(e, b)
		if g.err != "" {
			r.bad("structure", at, c.what+": "+g.err, o.st.trace(40))
			continue
		}
		h := &hexp{e: e}
		expect := func(f string, want *V) {
			got := g.num[f]
			if got == nil {
				r.bad("field", "LzHeader."+f, c.what+": not recorded", o.st.trace(40))
			} else if !e.sameNum(got, want) {
				r.bad("field", "LzHeader."+f, fmt.Sprintf("%s: records %s, not %s", c.what, h.show(got), h.show(want)), o.st.trace(40))
			}
		}
		ps := num["PackedSize"]
		if s := g.num["skip"]; s != nil {
			ps = e.arith(it, token.AND, e.arith(it, token.ADD, ps, s), vInt(1<<32-1))
		}
		expect("PackedSize", ps)
		expect("OriginalSize", num["OriginalSize"])
		expect("Crc", num["Crc"])
		if c.level == 0 {
			expect("Attribute", num["Attribute"])
		}
		if c.level < 2 {
			add := func(a *V, n string, sh int64) *V {
				return e.arith(it, token.ADD, a, e.arith(it, token.SHL, sym(e, n), vInt(sh)))
			}
			d := e.arith(it, token.SHL, e.arith(it, token.SUB, sym(e, "Year"), vInt(1980)), vInt(25))
			d = add(add(add(add(d, "Month", 21), "Day", 16), "Hour", 11), "Minute", 5)
			d = e.arith(it, token.ADD, d, e.arith(it, token.QUO, sym(e, "Second"), vInt(2)))
			got := g.num["dos"]
			if !e.sameNum(got, d) {
				r.bad("field", "LzHeader.UnixLastModifiedStamp", c.what+": the MS-DOS time is not that of the time stamp", o.st.trace(40))
			}
		}
		if c.generic {
			if c.level == 2 {
				expect("UnixLastModifiedStamp", num["UnixLastModifiedStamp"])
			}
			expect("ExtendType", vInt(0))
		} else {
			expect("ExtendType", vInt('U'))
			for _, f := range []string{"UnixLastModifiedStamp", "UnixMode", "UnixUID", "UnixGid"} {
				expect(f, num[f])
			}
		}
		name := c.name
		if c.kind == 0120000 {
			name += "|" + c.link
		}
		if c.generic && c.upper {
			name = strings.ToUpper(name)
		}
		txt := map[string]string{"Method": method, "Name": name}
		if c.level > 0 && !c.generic {
			txt["Group"], txt["User"] = c.group, c.user
		}
		for f, want := range txt {
			got := g.text[f]
			if f == "Name" {
				got = conv(got)
			}
			if got != want {
				r.bad("field", "LzHeader."+f, fmt.Sprintf("%s: records %q, not %q", c.what, got, want), o.st.trace(40))
			}
		}
	}
}
