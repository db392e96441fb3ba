package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"
)

func init() {
	byteModel := []string{"the operating system's file operations succeed and do what they document (failures are the subject of C09 and C11)",
		"the codecs honour their contract: a decoder consumes at most the packed bytes of its member and delivers its content (bit streams: C20; damage: C02, C12)",
		"names, sizes and layouts are those of the enumerated archives; contents, permissions and times are symbols"}
	checks["C17"] = &check{
		rule:   "byte-provenance dataflow over a model of the file system: for archives of members of every header level, kind and method, with sizes around the copy buffer and decoders that leave part of a member unread, every reading entry visits each member exactly where the previous one ends: the headers returned, the sizes and method given to the decoder, and every byte delivered (to files, to memory, to standard output) are traced to the member they belong to, and the entry has a single outcome, success",
		assume: byteModel,
		run:    func(p *Program, r *Report) { walkArchives(p, r, false) },
	}
	checks["C23"] = &check{
		rule:   "provenance dataflow over a model of the file system: after extracting archives of members of every header level and kind, the permissions and the modification time of every file and directory are, bit for bit, those of its header, each link holds the target recorded, each directory exists, and nothing else is created",
		assume: byteModel,
		run:    func(p *Program, r *Report) { walkArchives(p, r, true) },
	}
}

type mspec struct {
	level  int
	kind   byte
	name   string
	target string
	method string
	n      int // size of the content
	packed int
	used   int
}

type aspec struct {
	what   string
	ms     []mspec
	noEnd  bool
	name   string
	prefix string
}

func archives(thorough bool) []aspec {
	f := func(level int, name, method string, n, packed, used int) mspec {
		return mspec{level: level, kind: 'f', name: name, method: method, n: n, packed: packed, used: used}
	}
	var as []aspec
	as = append(as,
		aspec{what: "levels 2, 1, 0", ms: []mspec{f(2, "one.txt", "-lh0-", 2049, 0, 0), f(1, "two.txt", "-lh5-", 30, 20, 18), f(0, "three.txt", "-lh0-", 5, 0, 0)}},
		aspec{what: "levels 0, 3, 2, 1", ms: []mspec{f(0, "x1", "-lh5-", 4, 7, 3), f(3, "x2", "-lh0-", 3, 0, 0), f(2, "x3", "-lh7-", 100, 40, 40), f(1, "x4", "-lh0-", 1, 0, 0)}},
		aspec{what: "empty files", ms: []mspec{f(2, "e2", "-lh0-", 0, 0, 0), f(1, "e1", "-lh0-", 0, 0, 0), f(0, "e0", "-lh0-", 0, 0, 0), f(2, "last", "-lh0-", 2, 0, 0)}},
		aspec{what: "directories and links", ms: []mspec{{level: 2, kind: 'd', name: "dir", method: "-lhd-"}, f(2, "dir/in.txt", "-lh0-", 3, 0, 0), {level: 1, kind: 'l', name: "ln1", target: "in.txt", method: "-lhd-"},
			{level: 0, kind: 'l', name: "ln0", target: "../x/y", method: "-lhd-"}, {level: 2, kind: 'l', name: "ln2", target: "t/u", method: "-lhd-"}, {level: 0, kind: 'd', name: "dir0", method: "-lhd-"}, {level: 1, kind: 'd', name: "dir1", method: "-lhd-"}, f(0, "end", "-lh6-", 9, 8, 1)}},
		aspec{what: "block sizes", ms: []mspec{f(2, "b1", "-lh0-", 2047, 0, 0), f(2, "b2", "-lh0-", 2048, 0, 0), f(2, "b3", "-lh0-", 4097, 0, 0), f(0, "b4", "-lh0-", 4096, 0, 0)}},
		aspec{what: "no end mark", noEnd: true, ms: []mspec{f(2, "n1", "-lh0-", 3, 0, 0), f(0, "n2", "-lh5-", 3, 2, 2)}},
		aspec{what: "large members", ms: []mspec{f(2, "g1", "-lh5-", 66001, 66000, 65900), f(0, "g2", "-lh0-", 66002, 0, 0), f(1, "g3", "-lh0-", 2, 0, 0)}},
		aspec{what: "no member"},
		aspec{what: "every method", ms: []mspec{f(2, "m0", "-lh0-", 3, 0, 0), f(2, "m1", "-lh1-", 9, 5, 5), f(2, "m2", "-lh2-", 9, 6, 5), f(2, "m3", "-lh3-", 9, 5, 4), f(2, "m4", "-lh4-", 9, 5, 5), f(2, "m5", "-lh5-", 9, 5, 5), f(2, "m6", "-lh6-", 9, 5, 5), f(2, "m7", "-lh7-", 9, 5, 5),
			f(2, "ms", "-lzs-", 9, 5, 5), f(2, "mz5", "-lz5-", 9, 5, 5), f(2, "mz4", "-lz4-", 9, 0, 0), f(2, "mp0", "-pm0-", 9, 0, 0), f(2, "mp2", "-pm2-", 9, 5, 5)}},
		aspec{what: "self-extracting", name: "a.exe", prefix: "MZ\x90\x00\x03 not yet -lh5- here either -lh \x20\x00-lzs- and a tail longer than a header", ms: []mspec{f(1, "s1", "-lh0-", 3, 0, 0), f(2, "s2", "-lh5-", 9, 6, 5)}},
	)
	return as
}

func (a *archRun) build(s aspec) []*member {
	var ms []*member
	for _, x := range s.ms {
		m := &member{level: x.level, kind: x.kind, name: x.name, target: x.target, method: x.method}
		a.packedMember(m, x.n, x.packed, x.used)
		ms = append(ms, m)
	}
	n := s.name
	if n == "" {
		n = "a.lzh"
	}
	var b []*V
	b = append(b, byteVals(s.prefix)...)
	for _, m := range ms {
		b = append(b, m.encode(a.e)...)
	}
	if !s.noEnd {
		b = append(b, vInt(0))
	}
	a.f.file(a.e, a.run.st, n, b)
	return ms
}

// place is where a member is extracted
func place(dir string, m *member) string {
	return path.Join(dir, path.Base(strings.TrimRight(m.name, "/")))
}

func walkArchives(p *Program, r *Report, meta bool) {
	var jobs []func(*Report)
	as := archives(r.tier == "thorough")
	for _, s := range as {
		name := s.name
		if name == "" {
			name = "a.lzh"
		}
		prep := func(r *Report, what string) (*archRun, []*member) {
			a := newArch(p, r, s.what+", "+what)
			a.f.w.fields["archiveName"] = vStr(name)
			if !a.start() {
				return nil, nil
			}
			ms := a.build(s)
			r.ob("%s", a.what)
			return a, ms
		}
		// everything, into some directory
		for _, dir := range []string{"", "out", "out/deep"} {
			jobs = append(jobs, func(r *Report) {
				a, ms := prep(r, "CommandExtract into \""+dir+"\"")
				if a == nil {
					return
				}
				a.set("ExtractDirectory", vStr(dir))
				a.table()
				if _, ok := a.call("CommandExtract", vStr(name), a.run.lha); ok {
					a.extracted("CommandExtract", name, dir, ms, ms, meta)
				}
			})
		}
		// a selection
		for i := range s.ms {
			jobs = append(jobs, func(r *Report) {
				a, ms := prep(r, fmt.Sprintf("CommandExtract of member %d", i))
				if a == nil {
					return
				}
				n := ms[i].name
				if ms[i].kind == 'd' {
					n += "/"
				}
				a.set("CmdFilev", a.run.strSlice("sel", vStr(n)))
				a.set("CmdFilec", vInt(1))
				a.set("ExtractDirectory", vStr("out"))
				a.table()
				if _, ok := a.call("CommandExtract", vStr(name), a.run.lha); ok {
					a.extracted("CommandExtract", name, "out", ms, ms[i:i+1], meta)
				}
			})
		}
		if s.prefix == "" {
			jobs = append(jobs, func(r *Report) {
				a, ms := prep(r, "Headers, then each member")
				if a == nil {
					return
				}
				hs := a.headers("Headers", ms, !meta)
				if hs == nil {
					return
				}
				st0 := a.run.st.clone()
				for i, h := range hs {
					a.run.st = st0.clone()
					a.set("ExtractDirectory", vStr("out"))
					if _, ok := a.call("Decompress", a.run.lha, h); ok {
						a.extracted("Decompress", name, "out", ms, ms[i:i+1], meta)
					}
					if ms[i].kind != 'f' || meta {
						continue
					}
					a.run.st = st0.clone()
					if o, ok := a.call("DecompresBytes", a.run.lha, h); ok {
						b, ok := a.slice(o.st, o.res[0])
						if !ok {
							a.bad("content", "DecompresBytes", "how much is returned is not fixed")
							continue
						}
						a.sameBytes("DecompresBytes", "the result for "+ms[i].name, b, ms[i].data)
						a.untouched("DecompresBytes", name)
					}
				}
			})
		}
		if meta {
			continue
		}
		jobs = append(jobs, func(r *Report) {
			a, ms := prep(r, "CommandExtract to standard output")
			if a == nil {
				return
			}
			a.set("OutputToStdout", vBool(true))
			a.table()
			if _, ok := a.call("CommandExtract", vStr(name), a.run.lha); ok {
				var want []*V
				for _, m := range ms {
					if m.kind == 'f' {
						want = append(want, m.data...)
					}
				}
				st := a.run.st
				a.sameBytes("CommandExtract", "standard output", a.f.bytes(a.e, st, "os.stdout", 0, a.f.size(st, "os.stdout")), want)
				a.untouched("CommandExtract", name)
			}
		})
		jobs = append(jobs, func(r *Report) {
			a, _ := prep(r, "testing")
			if a == nil {
				return
			}
			a.run.setGlobal("VerifyMode", vBool(true))
			a.table()
			if _, ok := a.call("CommandExtract", vStr(name), a.run.lha); ok {
				a.untouched("CommandExtract", name)
			}
		})
		if s.prefix == "" {
			jobs = append(jobs, func(r *Report) {
				a, _ := prep(r, "CommandList")
				if a == nil {
					return
				}
				a.table()
				if _, ok := a.call("CommandList", vStr(name), a.run.lha); ok {
					a.untouched("CommandList", name)
				}
			})
		}
	}
	r.parallel(jobs...)
	r.need("operations", len(as)*5)
	r.need("members compared", 30)
}

func (a *archRun) slice(st *State, v *V) ([]*V, bool) {
	if v.k != KSlice || v.ln == nil {
		return nil, v.k == KSlice
	}
	if v.nn == isNil {
		return nil, true
	}
	n, ok := v.ln.isConst()
	if !ok {
		return nil, false
	}
	r := make([]*V, n)
	for i := range r {
		r[i] = a.e.load(st, a.e.indexAddr(v, vInt(int64(i))), types.Typ[types.Byte])
	}
	return r, true
}

// untouched: nothing but the archive exists
func (a *archRun) untouched(at, name string) {
	for _, n := range a.f.names(a.run.st) {
		if n != name {
			a.bad("content", at, "%s appears", n)
		}
	}
}

// extracted compares the file system with the members extracted
func (a *archRun) extracted(at, name, dir string, all, ms []*member, meta bool) {
	st := a.run.st
	want := map[string]bool{name: true}
	for d := dir; len(ms) > 0 && d != "" && d != "."; d = path.Dir(d) {
		want[d] = true
	}
	for _, m := range ms {
		n := place(dir, m)
		want[n] = true
		a.r.count("members compared", 1)
		i := a.f.ino(st, n)
		if i == "" {
			a.bad("content", at, "%s is not there", n)
			continue
		}
		if k := st.get("k:" + i); k != string(m.kind) {
			a.bad("kind", at, "%s is of kind %s instead of %c", n, k, m.kind)
			continue
		}
		if m.kind == 'l' {
			if meta && st.get("l:"+i) != m.target {
				a.bad("link", at, "%s points to %q instead of %q", n, st.get("l:"+i), m.target)
			}
			continue
		}
		if m.kind == 'f' && !meta {
			a.fileIs(at, n, m.data)
		}
		if !meta {
			continue
		}
		if !a.same(a.f.getMeta(a.e, st, i, "mode"), m.perm, 9) {
			a.bad("mode", at, "the permissions of %s are not those recorded", n)
		}
		if !a.same(a.f.getMeta(a.e, st, i, "time"), m.time, 31) {
			a.bad("time", at, "the modification time of %s is not the one recorded", n)
		}
	}
	for _, n := range a.f.names(st) {
		if !want[n] {
			a.bad("content", at, "%s appears", n)
		}
	}
}

func (a *archRun) same(x, y *V, n int) bool {
	if x == nil || y == nil || x.k != KInt {
		return false
	}
	if x == y {
		return true
	}
	t := types.Typ[types.Int64]
	p, q := a.e.getBits(t, x), a.e.getBits(t, y)
	for i := 0; i < 64; i++ {
		if i >= len(p) || i >= len(q) {
			return false
		}
		if i >= n && q[i].top {
			q[i] = bConst(0)
		}
		if p[i].top || q[i].top || !bEq(p[i], q[i]) {
			return false
		}
	}
	return true
}

// headers calls an entry that returns the headers of the archive
func (a *archRun) headers(entry string, ms []*member, full bool) []*V {
	o, ok := a.call(entry, a.run.lha)
	if !ok {
		return nil
	}
	v := o.res[0]
	n := int64(-1)
	if v.k == KSlice && v.ln != nil {
		n, _ = v.ln.isConst()
	}
	if n != int64(len(ms)) {
		a.bad("headers", entry, "%d headers are returned for %d members", n, len(ms))
		return nil
	}
	e, st := a.e, a.run.st
	ht := types.NewPointer(a.p.lib.Type("LzHeader").Type())
	var hs []*V
	for i, m := range ms {
		h := e.load(st, e.indexAddr(v, vInt(int64(i))), ht)
		hs = append(hs, h)
		if !full {
			continue
		}
		name := m.name
		if m.kind == 'd' {
			name += "/"
		}
		get := func(f string) *V { return e.fieldOf(a.p, st, h, "LzHeader", f) }
		for f, w := range map[string]string{"Name": name, "Method": m.method} {
			if t, ok := e.textOf(st, get(f)); !ok || t != w {
				a.bad("headers", entry, "%s of member %d is %q instead of %q", f, i, t, w)
			}
		}
		for f, w := range map[string]int{"PackedSize": len(m.packed), "OriginalSize": len(m.data), "HeaderLevel": m.level} {
			if c, ok := get(f).isConst(); !ok || c != int64(w) {
				a.bad("headers", entry, "%s of member %d (%s) is %v instead of %d", f, i, name, get(f), w)
			}
		}
		if !a.same(get("Crc"), ofBits(m.crc(e)), 16) {
			a.bad("headers", entry, "the CRC of member %d (%s) is not the one recorded", i, name)
		}
	}
	a.untouched(entry, "a.lzh")
	return hs
}
