package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C03"] = &check{
		rule: "bit-provenance dataflow: with a header of every level and layout whose structure bytes are fixed and whose numbers, checksums and reserved bytes are symbols named after their position, each field of the header record holds, on every path that accepts the header, exactly the bits of the bytes the format assigns to it; the path accepts only under the equation `sum of the header bytes = recorded sum' (levels 0, 1) or `CRC-16 of the header with its CRC zeroed = recorded CRC' (levels 2, 3), rejects only when that equation fails, and has read exactly the bytes of the header",
		assume: []string{"io.ReadFull delivers the bytes asked for (failures are the subject of C11)", "name bytes and structure (sizes, levels, kinds of extended headers) are those of the enumerated layouts",
			"time.Date converts a calendar date as documented"},
		run: readHeaders,
	}
}

// skel is a header layout: constant bytes and symbolic ones (-1)
type skel struct {
	what   string
	b      []int
	total  int
	sum    int // position of the sum byte, -1 if none
	sumLo  int
	sumHi  int
	crcAt  int // position of the header CRC, -1 if none
	want   map[string]func(h *hexp) *V
	text   map[string]string // expected names
	dosAt  int               // position of an MS-DOS time stamp that decides the stamp, -1
	reject bool
}

// hexp builds expected values from positions
type hexp struct {
	e *Engine
	s *skel
}

func (h *hexp) byteAt(i int) *V {
	if h.s.b[i] >= 0 {
		return vInt(int64(h.s.b[i]))
	}
	return h.e.symInt(fmt.Sprintf("h%d", i), 0, 255, 8)
}

// num is the little endian number at pos
func (h *hexp) num(pos, n int) *V {
	t := types.Typ[types.Int]
	r := vInt(0)
	for i := 0; i < n; i++ {
		b := h.e.convInt(types.Typ[types.Byte], t, h.byteAt(pos+i))
		r = h.e.arith(t, token.ADD, r, h.e.arith(t, token.SHL, b, vInt(int64(8*i))))
	}
	return r
}

// sameNum: do two values denote the same number?
func (e *Engine) sameNum(got, want *V) bool {
	if got == nil || want == nil || got.k != KInt {
		return false
	}
	if c, ok := want.isConst(); ok {
		d, ok := got.isConst()
		return ok && c == d
	}
	if got.t != nil && want.t != nil && got.t.eq(want.t) {
		return true
	}
	a, b := extend(got.bits, 64, false), extend(want.bits, 64, false)
	if len(got.bits) == 0 || len(want.bits) == 0 {
		return false
	}
	for i := range a {
		if a[i].top || b[i].top || !bEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (s *skel) put(bs ...int) { s.b = append(s.b, bs...) }
func (s *skel) str(t string)  { s.put(bytesOf(t)...) }
func (s *skel) word(n int)    { s.put(n&255, n>>8&255) }
func (s *skel) long(n int)    { s.put(n&255, n>>8&255, n>>16&255, n>>24&255) }
func (s *skel) syms(n int) int {
	p := len(s.b)
	for i := 0; i < n; i++ {
		s.b = append(s.b, -1)
	}
	return p
}
func bytesOf(t string) []int {
	var r []int
	for i := 0; i < len(t); i++ {
		r = append(r, int(t[i]))
	}
	return r
}
func (s *skel) wantNum(f string, pos, n int) {
	s.want[f] = func(h *hexp) *V { return h.num(pos, n) }
}
func (s *skel) wantConst(f string, c int64) {
	s.want[f] = func(h *hexp) *V { return vInt(c) }
}

func newSkel(what string) *skel {
	return &skel{what: what, sum: -1, crcAt: -1, dosAt: -1, want: map[string]func(*hexp) *V{}, text: map[string]string{}}
}

// conv is what reading does to a recorded path name
func conv(n string) string {
	n = strings.ReplaceAll(n, "\xff", "/")
	return strings.ReplaceAll(n, "\\", "/")
}

func (s *skel) common(method string, level int, dos bool) {
	s.str(method)
	p := s.syms(4)
	s.wantNum("PackedSize", p, 4)
	p = s.syms(4)
	s.wantNum("OriginalSize", p, 4)
	p = s.syms(4)
	if dos {
		s.dosAt = p
	} else {
		s.wantNum("UnixLastModifiedStamp", p, 4)
	}
	p = s.syms(1)
	s.wantNum("Attribute", p, 1)
	s.put(level)
	s.wantConst("HeaderLevel", int64(level))
	s.text["Method"] = method
	s.wantConst("UnixMode", 0100666)
	s.wantConst("UnixUID", 0)
	s.wantConst("UnixGid", 0)
	s.wantConst("HasCrc", 1)
}

func level0(what, method, name string, ext string) *skel {
	s := newSkel("level 0 " + what)
	s.put(0)
	s.sum = s.syms(1)
	s.common(method, 0, true)
	s.put(len(name))
	s.str(name)
	s.text["Name"] = conv(name)
	s.wantConst("ExtendType", 0)
	switch ext {
	case "nocrc":
		s.wantConst("HasCrc", 0)
	case "none":
		s.wantNum("Crc", s.syms(2), 2)
	default:
		s.wantNum("Crc", s.syms(2), 2)
		s.put(int(ext[0]))
		s.wantConst("ExtendType", int64(ext[0]))
		if ext[0] == 'U' {
			s.wantNum("MinorVersion", s.syms(1), 1)
			s.wantNum("UnixLastModifiedStamp", s.syms(4), 4)
			s.dosAt = -1
			mode(s, ext)
			s.wantNum("UnixUID", s.syms(2), 2)
			s.wantNum("UnixGid", s.syms(2), 2)
			ext = "U"
		}
		s.syms(len(ext) - 1)
	}
	s.b[0] = len(s.b) - 2
	s.total = len(s.b)
	s.sumLo, s.sumHi = 2, len(s.b)
	s.wantConst("HeaderSize", int64(s.total))
	if strings.Contains(ext, "|") {
		splitLink(s)
	}
	return s
}

// mode bytes: the type is fixed, the permissions are not
func mode(s *skel, kind string) {
	p := s.syms(1)
	t := 0x81
	if strings.HasPrefix(kind, "Ulink") {
		t = 0xa1
	}
	if strings.HasPrefix(kind, "Udir") {
		t = 0x41
	}
	s.put(t)
	s.wantNum("UnixMode", p, 2)
	if t == 0xa1 {
		splitLink(s)
	}
}

func splitLink(s *skel) {
	n := s.text["Name"]
	if i := strings.Index(n, "|"); i >= 0 {
		s.text["Name"], s.text["Realname"] = n[:i], n[i+1:]
	}
}

// extended headers, in the order given
func (s *skel) exts(w int, list []string) {
	var dir, file string
	haveFile := false
	tstamp := false
	size := func(n int) {
		if w == 2 {
			s.word(n)
		} else {
			s.long(n)
		}
	}
	ln := func(x string) int {
		k, arg, _ := strings.Cut(x, ":")
		n := map[string]int{"crc": 2, "crcinfo": 3, "attr": 2, "mode": 2, "linkmode": 2, "dirmode": 2, "ids": 4, "time": 4, "wintime": 24, "junk": 5, "empty": 0, "size64": 16}[k]
		switch k {
		case "name", "dir", "group", "user":
			n = len(arg)
		}
		return n + 1 + w
	}
	first := 0
	if len(list) > 0 {
		first = ln(list[0])
	}
	size(first)
	for i, x := range list {
		k, arg, _ := strings.Cut(x, ":")
		switch k {
		case "crc", "crcinfo":
			s.put(0)
			s.crcAt = s.syms(2)
			if k == "crcinfo" {
				s.syms(1)
			}
		case "name":
			s.put(1)
			s.str(arg)
			file, haveFile = arg, true
		case "dir":
			s.put(2)
			s.str(arg)
			dir = arg
		case "attr":
			s.put(0x40)
			p := s.syms(2)
			s.wantNum("Attribute", p, 1)
		case "mode", "linkmode", "dirmode":
			s.put(0x50)
			mode(s, map[string]string{"mode": "U", "linkmode": "Ulink", "dirmode": "Udir"}[k])
		case "ids":
			s.put(0x51)
			s.wantNum("UnixGid", s.syms(2), 2)
			s.wantNum("UnixUID", s.syms(2), 2)
		case "group":
			s.put(0x52)
			s.str(arg)
			s.text["Group"] = arg
		case "user":
			s.put(0x53)
			s.str(arg)
			s.text["User"] = arg
		case "time":
			s.put(0x54)
			s.wantNum("UnixLastModifiedStamp", s.syms(4), 4)
			s.dosAt = -1
			tstamp = true
		case "wintime":
			s.put(0x41)
			s.syms(24)
			if w == 2 && s.dosAt >= 0 && !tstamp {
				s.dosAt = -1 // decides the stamp; its conversion is not followed
			}
		case "size64":
			s.put(0x42)
			s.syms(16)
		case "junk":
			s.put(0x39)
			s.syms(5)
		case "empty":
			s.put(0x3f)
		}
		if i+1 < len(list) {
			size(ln(list[i+1]))
		} else {
			size(0)
		}
	}
	n := s.text["Name"]
	if haveFile {
		n = file
	}
	s.text["Name"] = conv(dir + n)
	for _, x := range list {
		if x == "linkmode" {
			splitLink(s)
		}
	}
}

func level1(what, method, name string, os byte, extra int, list ...string) *skel {
	s := newSkel("level 1 " + what)
	s.put(0)
	s.sum = s.syms(1)
	s.common(method, 1, true)
	s.put(len(name))
	s.str(name)
	s.text["Name"] = name
	s.wantNum("Crc", s.syms(2), 2)
	s.put(int(os))
	s.wantConst("ExtendType", int64(os))
	s.syms(extra)
	base := len(s.b) + 2
	s.exts(2, list)
	s.b[0] = base - 2
	s.total = len(s.b)
	s.sumLo, s.sumHi = 2, base
	ext := s.total - base
	s.want["PackedSize"] = func(h *hexp) *V {
		return h.e.arith(types.Typ[types.Int], token.SUB, h.num(7, 4), vInt(int64(ext)))
	}
	s.wantConst("HeaderSize", int64(s.total))
	return s
}

func level2(what, method string, os byte, pad int, list ...string) *skel {
	s := newSkel("level 2 " + what)
	s.word(0)
	s.common(method, 2, false)
	s.wantNum("Crc", s.syms(2), 2)
	s.put(int(os))
	s.wantConst("ExtendType", int64(os))
	s.exts(2, list)
	s.syms(pad)
	s.total = len(s.b)
	s.b[0], s.b[1] = s.total&255, s.total>>8
	s.wantConst("HeaderSize", int64(s.total))
	return s
}

func level3(what, method string, os byte, list ...string) *skel {
	s := newSkel("level 3 " + what)
	s.word(4)
	s.common(method, 3, false)
	s.wantNum("Crc", s.syms(2), 2)
	s.put(int(os))
	s.wantConst("ExtendType", int64(os))
	at := len(s.b)
	s.long(0)
	s.exts(4, list)
	s.total = len(s.b)
	for i := 0; i < 4; i++ {
		s.b[at+i] = s.total >> (8 * i) & 255
	}
	s.wantConst("HeaderSize", int64(s.total))
	return s
}

func layouts() []*skel {
	long := strings.Repeat("n", 180)
	return []*skel{
		level0("plain", "-lh5-", "A.TXT", "none"),
		level0("without CRC", "-lh1-", "OLD.LZH", "nocrc"),
		level0("with directory", "-lh0-", "DIR\\SUB\\B.C", "none"),
		level0("with 0xff separators", "-lh6-", "dir\xffsub\xffb.c", "M"),
		level0("of another system with extra bytes", "-lz5-", "X", "Mabc"),
		level0("of Unix", "-lh7-", "readme", "U"),
		level0("of Unix, directory", "-lhd-", "dir\xff", "Udir"),
		level0("of Unix, symbolic link", "-lhd-", "ln|to/there", "Ulink"),
		level0("of Unix, long name", "-lh5-", long, "U"),
		level1("without extended headers", "-lh5-", "a.txt", 'U', 0),
		level1("with padding", "-lh5-", "a.txt", 'M', 3),
		level1("of Unix", "-lh5-", "a.txt", 'U', 0, "dir:d\xffe\xff", "mode", "ids", "group:staff", "user:joe", "time"),
		level1("in another order", "-lh6-", "a.txt", 'U', 0, "time", "ids", "junk", "mode", "dir:d\xff"),
		level1("with header CRC and long name", "-lh7-", "", 'U', 2, "crc", "name:"+long, "dir:dir\xff"),
		level1("name after directory", "-lh7-", "x", 'w', 0, "dir:dir\xff", "name:longer name.txt", "attr"),
		level1("of Windows", "-lh5-", "a.txt", 'w', 0, "wintime", "time"),
		level1("symbolic link", "-lhd-", "ln|to", 'U', 0, "linkmode", "ids"),
		level1("directory", "-lhd-", "", 'U', 0, "dir:some\xffdir\xff", "dirmode"),
		level2("small", "-lh5-", 'U', 0, "crc", "name:a.txt"),
		level2("of Unix", "-lh5-", 'U', 0, "crc", "name:a.txt", "dir:d\xffe\xff", "mode", "ids", "group:staff", "user:joe"),
		level2("in another order", "-lh6-", 'M', 1, "dir:d\xff", "attr", "name:b.c", "junk", "crcinfo", "empty"),
		level2("CRC last", "-lh0-", 'J', 0, "name:b.c", "ids", "mode", "time", "size64", "crc"),
		level2("of Windows", "-lh7-", 'w', 1, "crc", "wintime", "name:c.d"),
		level2("symbolic link", "-lhd-", 'U', 0, "crc", "name:ln|to\xffit", "dir:d\xff", "linkmode"),
		level2("long name", "-lh5-", 'U', 0, "crc", "name:"+long, "dir:"+long+"\xff", "mode"),
		level3("small", "-lh5-", 'U', "crc", "name:a.txt"),
		level3("of Unix", "-lh5-", 'U', "name:a.txt", "crc", "dir:d\xff", "mode", "ids", "time", "group:staff", "user:joe"),
		level3("with junk", "-pm2-", 'w', "attr", "junk", "crcinfo", "name:a.txt", "empty", "wintime"),
	}
}

// refCRC is the CRC-16 of a header, CRC field taken as zero
func (h *hexp) refCRC(n int) []Bit {
	crc := make([]Bit, 16)
	for i := range crc {
		crc[i] = bConst(0)
	}
	for i := 0; i < n; i++ {
		b := h.e.getBits(types.Typ[types.Byte], h.byteAt(i))
		if h.s.crcAt >= 0 && (i == h.s.crcAt || i == h.s.crcAt+1) {
			b = h.e.getBits(types.Typ[types.Byte], vInt(0))
		}
		crc = crcStep(crc, b)
	}
	return crc
}

func crcStep(crc, b []Bit) []Bit {
	c := append([]Bit(nil), crc...)
	for k := 0; k < 8; k++ {
		c[k] = bXor(c[k], b[k])
	}
	for k := 0; k < 8; k++ {
		l := c[0]
		n := make([]Bit, 16)
		for j := 0; j < 16; j++ {
			if j < 15 {
				n[j] = c[j+1]
			} else {
				n[j] = bConst(0)
			}
			if 0xA001>>j&1 != 0 {
				n[j] = bXor(n[j], l)
			}
		}
		c = n
	}
	return c
}

// expand replaces the symbols that stand for remainders
func (e *Engine) expand(t *Term) *Term {
	if t == nil {
		return nil
	}
	r := tConst(t.c)
	for _, x := range t.m {
		u := tSym(x.s)
		if m := e.modOf[x.s]; m != nil {
			u = e.expand(m)
		}
		r = tAdd(r, tScale(u, x.k), 1)
	}
	if r == nil {
		return nil
	}
	n := &Term{c: r.c & 255}
	for _, x := range r.m {
		if k := x.k & 255; k != 0 {
			n.m = append(n.m, tm{x.s, k})
		}
	}
	return n
}

func readHeaders(p *Program, r *Report) {
	termMax = 600
	var jobs []func(*Report)
	for _, s := range layouts() {
		jobs = append(jobs, func(r *Report) { readHeader(p, r, s) })
	}
	r.parallel(jobs...)
	r.need("layouts", len(layouts()))
	r.need("accepted", len(layouts()))
}

// headerWorld is an engine set up for header reading and writing
func headerWorld(p *Program, r *Report) (*World, func(*Run)) {
	w := newWorld(p, r)
	w.fresh, w.keep, w.realHeader, w.realWrite = true, true, true, true
	w.cfg.Terms, w.cfg.Bits, w.cfg.Mod = true, true, true
	w.cfg.Fast = false
	w.cfg.Unroll = func(*ssa.Function) int { return 5000 }
	return w, func(run *Run) {
		en := w.cfg.Enter
		w.cfg.Enter = nil
		fn := run.fn("MakeCrcTable")
		if fn == nil {
			r.bad("anchor", "MakeCrcTable", "not found", nil)
			return
		}
		outs := run.call(fn)
		w.cfg.Enter = en
		if len(outs) != 1 {
			r.bad("crc table", "MakeCrcTable", "the table is not a constant", nil)
			return
		}
		run.st = outs[0].st.clone()
	}
}

func readHeader(p *Program, r *Report, s *skel) {
	w, table := headerWorld(p, r)
	var h *hexp
	var wantSum *Term
	var wantCRC []Bit
	w.cfg.OnCmp = func(st *State, op token.Token, a, b *V) {
		if h == nil || op != token.EQL && op != token.NEQ {
			return
		}
		if os.Getenv("HDBG") != "" {
			fmt.Println("CMP", op, a, b, a.bits != nil, b.bits != nil)
		}
		v := map[bool]string{true: "eq", false: "ne"}[op == token.EQL]
		if wantSum != nil && a.t != nil && b.t != nil {
			d := h.e.expand(tAdd(a.t, b.t, -1))
			if d != nil && (d.eq(wantSum) || d.eq(h.e.expand(tScale(wantSum, -1)))) {
				st.set("sum", v)
				return
			}
		}
		if wantCRC != nil && len(a.bits) > 0 && len(b.bits) > 0 {
			x, y := extend(a.bits, 64, false), extend(b.bits, 64, false)
			same := true
			for i := range x {
				d := bXor(x[i], y[i])
				if i < 16 && (d.top || !bEq(d, wantCRC[i])) || i >= 16 && !d.zero() {
					same = false
				}
			}
			if same {
				st.set("sum", v)
			}
		}
	}
	w.cfg.After = func(ev *Ev, o *Out) bool {
		switch ev.op {
		case "readfull":
			if o.tag != "ok" {
				return false
			}
			b := ev.args[1]
			n, ok1 := b.ln.isConst()
			if _, ok2 := b.off.isConst(); !ok1 || !ok2 {
				r.bad("amount read", ev.pos(), s.what+": how much is read depends on something else than the sizes in the header", o.st.trace(30))
				return false
			}
			pos, _ := strconv.Atoi(o.st.get("pos"))
			for i := int64(0); i < n; i++ {
				if pos+int(i) >= s.total {
					r.bad("amount read", ev.pos(), fmt.Sprintf("%s: the header has %d bytes, but more are read as part of it", s.what, s.total), o.st.trace(30))
					return false
				}
				ev.e.store(o.st, ev.e.indexAddr(b, vInt(i)), types.Typ[types.Byte], h.byteAt(pos+int(i)))
			}
			o.st.set("pos", strconv.Itoa(pos+int(n)))
		}
		return true
	}
	dateOK := ""
	w.cfg.Ext = func(ev *Ev) []*Out {
		switch ev.name {
		case "time.Date":
			v := vUnknown(resTypes(ev.instr, ev.com, ev.fn)[0], 0)
			v.id = "other"
			if s.dosAt >= 0 && len(ev.args) == 8 {
				ok := true
				parts := [][3]int64{{25, 7, 1980}, {21, 4, 0}, {16, 5, 0}, {11, 5, 0}, {5, 6, 0}}
				for i, q := range parts {
					if !h.e.sameNum(ev.args[i], h.part(s.dosAt, q[0], q[1], q[2], 1)) {
						ok = false
					}
				}
				if !h.e.sameNum(ev.args[5], h.part(s.dosAt, 0, 5, 0, 2)) {
					ok = false
				}
				if c, isc := ev.args[6].isConst(); !isc || c != 0 {
					ok = false
				}
				if ok {
					v.id = "dos"
				} else {
					dateOK = ev.pos()
				}
			}
			return []*Out{{st: ev.st, res: []*V{v}}}
		case "(time.Time).Unix":
			if ev.args[0].id == "dos" {
				return []*Out{{st: ev.st, res: []*V{ev.e.symInt("dosstamp", negInf, posInf, 64)}}}
			}
		}
		return nil
	}
	run := w.start()
	if run == nil {
		return
	}
	table(run)
	h = &hexp{run.e, s}
	if s.sum >= 0 {
		t := tConst(0)
		for i := s.sumLo; i < s.sumHi; i++ {
			t = tAdd(t, h.byteAt(i).t, 1)
		}
		wantSum = run.e.expand(tAdd(t, h.byteAt(s.sum).t, -1))
	} else {
		wantCRC = h.refCRC(s.total)
		c := extend(h.num(s.crcAt, 2).bits, 16, false)
		for i := range wantCRC {
			wantCRC[i] = bXor(wantCRC[i], c[i])
		}
	}
	run.st.set("pos", "0")
	outs := hdrCall(w, run)
	r.count("layouts", 1)
	r.absorb(run)
	fn := run.fn("GetHeader")
	hdr := vPtr(Addr{run.e.objByKey["argHeader"].id, 0})
	for _, o := range outs {
		r.ob("%s: outcome %s", s.what, o.st.tsk)
		if o.panic {
			r.bad("accept", fnName(fn), s.what+": reading a well-formed header panics", o.st.trace(40))
			continue
		}
		var ok *V
		for i, x := range o.res {
			if isBoolType(fn.Signature.Results().At(i).Type()) {
				ok = x
			}
		}
		err := errOf(fn, o)
		accepted := err.nn&isNil != 0 && ok.hi == 1
		if err.nn&nonNil != 0 || ok.lo == 0 {
			if o.st.get("sum") != "ne" && !(s.want["PackedSize"] != nil && strings.HasPrefix(s.what, "level 1")) {
				r.bad("accept", fnName(fn), s.what+": a well-formed header may be rejected or taken for the end of the archive", o.st.trace(40))
			}
		}
		if !accepted {
			continue
		}
		r.count("accepted", 1)
		if o.st.get("sum") != "eq" {
			what := "the sum of the header bytes equals the recorded one"
			if s.crcAt >= 0 && s.sum < 0 {
				what = "the CRC-16 of the header equals the recorded one"
			}
			r.bad("integrity", fnName(fn), s.what+": the header is accepted on a path where nothing established that "+what, o.st.trace(40))
		}
		if o.st.get("pos") != strconv.Itoa(s.total) {
			r.bad("amount read", fnName(fn), fmt.Sprintf("%s: %s of the %d header bytes are read", s.what, o.st.get("pos"), s.total), o.st.trace(40))
		}
		for f, want := range s.want {
			got := run.e.fieldOf(p, o.st, hdr, "LzHeader", f)
			if got == nil {
				r.bad("anchor", "LzHeader."+f, "no such field", nil)
				continue
			}
			if wv := want(h); !run.e.sameNum(got, wv) {
				r.bad("field", "LzHeader."+f, fmt.Sprintf("%s: holds %s, not %s", s.what, h.show(got), h.show(wv)), o.st.trace(40))
			}
		}
		if s.dosAt >= 0 {
			got := run.e.fieldOf(p, o.st, hdr, "LzHeader", "UnixLastModifiedStamp")
			if !run.e.sameNum(got, run.e.symInt("dosstamp", negInf, posInf, 64)) {
				r.bad("field", "LzHeader.UnixLastModifiedStamp", fmt.Sprintf("%s: does not hold the MS-DOS time of the header %s", s.what, dateOK), o.st.trace(40))
			}
		}
		for f, want := range s.text {
			got := run.e.fieldOf(p, o.st, hdr, "LzHeader", f)
			txt, ok := run.e.textOf(o.st, got)
			if !ok || txt != want {
				r.bad("field", "LzHeader."+f, fmt.Sprintf("%s: holds %q, not %q", s.what, txt, want), o.st.trace(40))
			}
		}
	}
}

// part is (bits of the number at pos) * mul + add
func (h *hexp) part(pos int, lo, n, add, mul int64) *V {
	t := types.Typ[types.Int]
	v := h.num(pos, 4)
	v = h.e.arith(t, token.SHR, v, vInt(lo))
	v = h.e.arith(t, token.AND, v, vInt(1<<n-1))
	v = h.e.arith(t, token.MUL, v, vInt(mul))
	return h.e.arith(t, token.ADD, v, vInt(add))
}

func (h *hexp) show(v *V) string {
	if v == nil || v.k != KInt {
		return "something else"
	}
	if c, ok := v.isConst(); ok {
		return fmt.Sprint(c)
	}
	if v.t != nil {
		var sb []string
		if v.t.c != 0 {
			sb = append(sb, fmt.Sprint(v.t.c))
		}
		for _, x := range v.t.m {
			sb = append(sb, fmt.Sprintf("%d*%s", x.k, h.e.symName[x.s]))
		}
		return strings.Join(sb, "+")
	}
	var sb []string
	for i, b := range v.bits {
		if i%8 == 0 && !b.top && len(b.s) > 0 {
			var q []string
			for _, x := range b.s {
				q = append(q, fmt.Sprintf("%s.%d", h.e.symName[x>>8], x&255))
			}
			sb = append(sb, strings.Join(q, "^"))
		}
	}
	if len(sb) > 0 {
		return "bits from " + strings.Join(sb, ", ")
	}
	return "an unknown number"
}

// textOf is the constant text in a byte slice up to its terminator
func (e *Engine) textOf(st *State, v *V) (string, bool) {
	if v == nil || v.k != KSlice || v.ln == nil {
		return "", false
	}
	n, ok := v.ln.isConst()
	if !ok {
		return "", false
	}
	var sb strings.Builder
	for i := int64(0); i < n; i++ {
		c, ok := e.elemOf(st, v, i, types.Typ[types.Byte]).isConst()
		if !ok {
			return sb.String() + "?", false
		}
		if c == 0 {
			break
		}
		sb.WriteByte(byte(c))
	}
	return sb.String(), true
}
