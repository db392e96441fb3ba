package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"slices"
	"strings"
)

func init() {
	assume := []string{"the operating system's file operations succeed and do what they document (failures are the subject of C09, C10 and C11)",
		"the encoder honours its contract: it reads the file from the beginning, writes its packed form where the output stands, and reports both sizes and the CRC, or reports that packing does not pay",
		"names, sizes and layouts are those enumerated; contents, permissions and times are symbols"}
	checks["C19"] = &check{
		rule:   "byte-provenance dataflow over a model of the file system: after adding a file, an empty file, a directory, a link or bytes in memory, with every header level, with and without compression and when packing does not pay, the archive parses, byte for byte, as well-formed headers each followed by exactly its packed data and one final zero; the new header records the method, the sizes and the CRC-16 of the very bytes of the file, its name, permissions, kind and time; stored data are the bytes of the file, from the first to the last",
		assume: assume,
		run:    addMembers,
	}
	checks["C21"] = &check{
		rule:   "byte-provenance dataflow over a model of the file system: after adding to an archive (one file, several, a directory recursively, bytes in memory; sorted or not; updating only newer files; with a backup; from a self-extracting archive; twice with one handle), every byte of every old member is found again in the new archive, in order, except of the member replaced under the rule that applies, and the new members lie where the order puts them",
		assume: assume,
		run:    keepMembers,
	}
	checks["C01"] = &check{
		rule:   "byte-provenance dataflow over a model of the file system, composing the adding and the extracting entries: for every pair of entries, header level, kind and size around the buffer size, each byte, permission bit and time bit of the extracted file is traced to the same one of the file archived",
		assume: append([]string{"a decoder delivers the content the matching encoder was given (what the codecs do to the data is covered in part by C05, C20 and C24)"}, assume...),
		run:    roundTrips,
	}
}

// pmember is a member found in an archive
type pmember struct {
	h     *wrec
	start int
	bytes []*V // header and data
	data  []*V
}

// parse cuts an archive into members
func (a *archRun) parse(at, name string) ([]*pmember, bool) {
	st, e := a.run.st, a.e
	i := a.f.ino(st, name)
	if i == "" {
		a.bad("archive", at, "%s does not exist", name)
		return nil, false
	}
	b := a.f.bytes(e, st, i, 0, a.f.size(st, i))
	var ms []*pmember
	pos := 0
	for !a.ends(b, pos) {
		m, ok := a.memberAt(at, b, pos)
		if !ok {
			return nil, false
		}
		ms = append(ms, m)
		pos += len(m.bytes)
	}
	if pos != len(b)-1 {
		a.bad("archive", at, "%d bytes follow the last member instead of one zero", len(b)-pos)
		return nil, false
	}
	a.r.count("members parsed", len(ms))
	return ms, true
}

func (a *archRun) ends(b []*V, pos int) bool {
	return pos == len(b)-1 && a.isZero(b[pos])
}

// memberAt parses the header at a place of an archive
func (a *archRun) memberAt(at string, b []*V, pos int) (*pmember, bool) {
	if pos >= len(b) {
		a.bad("archive", at, "the archive has no end mark")
		return nil, false
	}
	if pos+22 > len(b) {
		a.bad("archive", at, "byte %d is neither a header nor the end mark", pos)
		return nil, false
	}
	n := 0
	get := func(p int) int {
		if p >= len(b) {
			return 0
		}
		c, ok := b[p].isConst()
		if !ok {
			return 0
		}
		return int(c)
	}
	switch get(pos + 20) {
	case 0:
		n = get(pos) + 2
	case 1:
		n = get(pos) + 2
		for x := get(pos+n-2) | get(pos+n-1)<<8; x != 0 && pos+n+x <= len(b); {
			n += x
			x = get(pos+n-2) | get(pos+n-1)<<8
		}
	case 2:
		n = get(pos) | get(pos+1)<<8
	}
	if n < 22 || pos+n > len(b) {
		a.bad("archive", at, "no header at byte %d", pos)
		return nil, false
	}
	h := parseHeader(a.e, b[pos:pos+n])
	if h.err != "" {
		a.bad("archive", at, "the header at byte %d: %s", pos, h.err)
		return nil, false
	}
	p, ok := h.num["PackedSize"].isConst()
	if s := h.num["skip"]; s != nil {
		p -= s.lo
	}
	if !ok || p < 0 || pos+n+int(p) > len(b) {
		a.bad("archive", at, "the packed size of the member at byte %d is not that of its data", pos)
		return nil, false
	}
	return &pmember{h: h, start: pos, bytes: b[pos : pos+n+int(p)], data: b[pos+n : pos+n+int(p)]}, true
}

func (a *archRun) isConst(v *V) bool { _, ok := v.isConst(); return ok }
func (a *archRun) isZero(v *V) bool  { c, ok := v.isConst(); return ok && c == 0 }

// source is something to archive
type source struct {
	kind   byte
	name   string
	target string
	data   []*V
	perm   *V
	time   *V
}

func (a *archRun) source(kind byte, name string, n int) *source {
	tag := "src" + strings.ReplaceAll(name, "/", "_")
	s := &source{kind: kind, name: name, target: "../to/" + path.Base(name)}
	if path.Base(name)[0] == 'L' { // longer than a header can hold
		s.target = strings.Repeat("dir/", 400) + "file"
	}
	s.perm = a.e.symInt(tag+".perm", 0, 0777, 9)
	s.time = a.e.symInt(tag+".time", 1, 1<<31-1, 31)
	st := a.run.st
	switch kind {
	case 'f':
		s.data = symData(a.e, tag, n)
		a.f.file(a.e, st, name, s.data)
	case 'd':
		a.f.dir(st, name)
	case 'l':
		a.f.link(a.e, st, name, s.target)
		// what a link points to has a kind, permissions and time of its own
		to := path.Join(path.Dir(name), s.target)
		switch path.Base(name)[0] {
		case 'F':
			a.f.file(a.e, st, to, symData(a.e, tag+".to", 7))
		case 'D':
			a.f.dir(st, to)
		default:
			to = ""
		}
		if to != "" {
			i := a.f.ino(st, to)
			a.f.setMeta(a.e, st, i, "mode", a.e.symInt(tag+".to.perm", 0, 0777, 9))
			a.f.setMeta(a.e, st, i, "time", a.e.symInt(tag+".to.time", 1, 1<<31-1, 31))
		}
	}
	i := a.f.ino(st, name)
	a.f.setMeta(a.e, st, i, "mode", s.perm)
	a.f.setMeta(a.e, st, i, "time", s.time)
	return s
}

// recorded compares a new member with what was archived
func (a *archRun) recorded(at string, m *pmember, s *source, level int, method int, bytes bool) {
	e := a.e
	a.r.count("members compared", 1)
	num := func(f string, want *V, n int) {
		g := m.h.num[f]
		if s := m.h.num["skip"]; f == "PackedSize" && s != nil && g != nil {
			g = e.arith(types.Typ[types.Int], token.SUB, g, s)
		}
		if g == nil || !a.same(g, want, n) {
			a.bad("record", at, "%s of %s is recorded as %v instead of %v", f, s.name, g, want)
		}
	}
	base := path.Base(s.name)
	want := "-lh0-"
	wn := []string{base}
	switch s.kind {
	case 'f':
		if method > 0 && len(s.data)/2+1 < len(s.data) && !a.over {
			want = fmt.Sprintf("-lh%d-", method)
		}
	case 'd':
		want = "-lhd-"
		wn = []string{base, base + "/"}
	case 'l':
		want = "-lhd-"
		wn = []string{base + "|" + s.target}
	}
	if g := m.h.text["Method"]; g != want {
		a.bad("record", at, "the method of %s is %q instead of %q", s.name, g, want)
	}
	okName := false
	for _, x := range wn {
		okName = okName || conv(m.h.text["Name"]) == x
	}
	if !okName {
		a.bad("record", at, "%s is recorded as %q", s.name, m.h.text["Name"])
	}
	num("OriginalSize", vInt(int64(len(s.data))), 32)
	num("Crc", ofBits(crcBits(e, s.data)), 16)
	if lv, ok := m.bytes[20].isConst(); !ok || int(lv) != level {
		a.bad("record", at, "the header of %s has level %v instead of %d", s.name, m.bytes[20], level)
	}
	perm := s.perm
	if s.kind == 'l' || bytes {
		perm = vInt(0777)
	}
	num("UnixMode", e.arith(types.Typ[types.Uint16], token.OR, perm, vInt(kindBits[s.kind])), 16)
	if !bytes {
		num("UnixLastModifiedStamp", s.time, 31)
	}
	switch {
	case want == "-lhd-" || len(s.data) == 0:
		num("PackedSize", vInt(0), 32)
	case want == "-lh0-":
		a.sameBytes(at, "the data of "+s.name, m.data, s.data)
	default:
		var pm *member
		for k, x := range a.mem {
			if strings.HasSuffix(k, "p") && len(m.data) > 0 && e.sameByte(m.data[0], e.symInt(k, 0, 255, 8)) {
				pm = x
			}
		}
		if pm == nil || len(pm.data) != len(s.data) {
			a.bad("record", at, "the data of %s are not its packed form", s.name)
			return
		}
		a.sameBytes(at, "the packed form of "+s.name, m.data, pm.packed)
	}
}

func methods(r *Report) []int {
	if r.tier == "thorough" {
		return []int{0, 1, 5, 6, 7}
	}
	return []int{0, 5}
}

func addMembers(p *Program, r *Report) {
	termMax = 1200
	var jobs []func(*Report)
	sizes := []int{0, 1, 3, 2047, 2048, 2049}
	if r.tier == "thorough" {
		sizes = append(sizes, 2, 4095, 4096, 4097, 6145)
	}
	type kase struct {
		entry string
		kind  byte
		size  int
		level int
		meth  int
		over  bool
		name  string
	}
	var ks []kase
	for level := 0; level < 3; level++ {
		for _, meth := range methods(r) {
			for _, over := range []bool{false, true} {
				if over && meth == 0 {
					continue
				}
				for i, size := range sizes {
					if size == 0 && over {
						continue
					}
					for _, entry := range []string{"Compress", "CommandAdd", "CompressBytes"} {
						if entry != "Compress" && i != 2 && i != 5 && i != 0 {
							continue
						}
						ks = append(ks, kase{entry, 'f', size, level, meth, over, ""})
					}
				}
			}
		}
		ks = append(ks, kase{"Compress", 'f', 66000 + level, level, 5 * (level & 1), false, ""})
		ks = append(ks, kase{"Compress", 'd', 0, level, 5, false, ""}, kase{"CommandAdd", 'd', 0, level, 0, false, ""}, kase{"Compress", 'l', 0, level, 5, false, ""})
		ks = append(ks, kase{"CommandAdd", 'l', 0, level, 0, false, "in/Flink"}, kase{"Compress", 'l', 0, level, 5, false, "in/Dlink"}, kase{"CommandAdd", 'l', 0, level, 5, false, "in/Long"})
	}
	for _, k := range ks {
		if k.name == "" {
			k.name = "in/new.txt"
		}
		for _, old := range []bool{false, true} {
			jobs = append(jobs, func(r *Report) {
				a := newArch(p, r, fmt.Sprintf("%s of %s of kind %c, %d bytes, level %d, method %d, packing pays: %v, existing archive: %v", k.entry, k.name, k.kind, k.size, k.level, k.meth, !k.over, old))
				a.over = k.over
				a.mayFail = path.Base(k.name)[0] == 'L'
				if !a.start() {
					return
				}
				r.ob("%s", a.what)
				n := 1
				if old {
					a.build(aspec{ms: []mspec{{level: 1, kind: 'f', name: "old", method: "-lh5-", n: 9, packed: 7, used: 7}}})
					n++
				}
				s, ok := a.add(k.entry, k.kind, k.name, k.size, k.level, k.meth)
				if !ok {
					if a.mayFail { // refused, which is better than recorded wrongly
						r.count("members compared", 1)
					}
					return
				}
				ms, ok := a.parse(k.entry, "a.lzh")
				if !ok {
					return
				}
				if len(ms) != n {
					a.bad("archive", k.entry, "the archive has %d members instead of %d", len(ms), n)
					return
				}
				a.recorded(k.entry, ms[n-1], s, k.level, k.meth, k.entry == "CompressBytes")
			})
		}
	}
	r.parallel(jobs...)
	r.need("members compared", len(jobs))
}

// add archives one thing
func (a *archRun) add(entry string, kind byte, name string, size, level, meth int) (*source, bool) {
	var s *source
	if entry == "CompressBytes" {
		s = &source{kind: 'f', name: name, data: symData(a.e, "body", size)}
		o := a.e.obj("in:body", func(*Obj) {})
		a.e.putBytes(a.run.st, Addr{o.id, 0}, 0, s.data)
		body := &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vInt(int64(size)), cp: vInt(int64(size))}
		_, ok := a.call(entry, a.run.lha, vStr(name), body, vInt(int64(meth)), vInt(int64(level)))
		return s, ok
	}
	s = a.source(kind, name, size)
	if entry == "Compress" {
		_, ok := a.call(entry, a.run.lha, vStr(name), vInt(int64(meth)), vInt(int64(level)))
		return s, ok
	}
	a.set("CmdFilev", a.run.strSlice("files", vStr(name)))
	a.set("CmdFilec", vInt(1))
	a.set("HeaderLevel", vInt(int64(level)))
	a.set("CompressMethod", vInt(int64(meth)))
	a.table()
	_, ok := a.call(entry, vStr("a.lzh"), a.run.lha)
	return s, ok
}

// asource is something to archive in a scenario
type asource struct {
	kind byte
	name string
	n    int
	time int64 // 0 for a symbol
}

// akase is a way of adding to an archive
type akase struct {
	what    string
	old     []mspec
	oldTime []int64 // 0 for symbols
	noOld   bool
	prefix  string
	noEnd   bool
	src     []asource
	files   []string // as given to CommandAdd
	api     string   // Compress or CompressBytes: one call for each file
	flags   []string
	exclude []string
	want    []string // names of old (=name) and new (+path) members, in order
	gone    []string // files removed
	level   int
	meth    int
}

func addKases(thorough bool) []akase {
	fm := func(level int, name, method string, n, packed int) mspec {
		return mspec{level: level, kind: 'f', name: name, method: method, n: n, packed: packed, used: packed}
	}
	old := []mspec{fm(2, "b", "-lh5-", 9, 7), fm(1, "d", "-lh0-", 2049, 0), {level: 2, kind: 'd', name: "dd", method: "-lhd-"}, fm(0, "f", "-lh7-", 4000, 2060), {level: 1, kind: 'l', name: "g", target: "b", method: "-lhd-"}, fm(2, "h", "-lh0-", 0, 0), fm(3, "j", "-lh5-", 20, 10)}
	all := []string{"=b", "=d", "=dd", "=f", "=g", "=h", "=j"}
	with := func(at int, x ...string) []string {
		return append(append(append([]string{}, all[:at]...), x...), all[at:]...)
	}
	but := func(at int, x ...string) []string {
		return append(append(append([]string{}, all[:at]...), x...), all[at+1:]...)
	}
	f1 := func(names ...string) []asource {
		var r []asource
		for _, n := range names {
			r = append(r, asource{kind: 'f', name: n, n: 3})
		}
		return r
	}
	sorted := []string{"SortContents"}
	var ks []akase
	add := func(k akase) { ks = append(ks, k) }
	for _, api := range []string{"Compress", "CompressBytes"} {
		add(akase{what: "one file, unsorted", api: api, old: old, src: f1("in/c"), files: []string{"in/c"}, want: with(7, "+in/c")})
		add(akase{what: "one file of a name that exists, unsorted", api: api, old: old, src: f1("in/d"), files: []string{"in/d"}, want: with(7, "+in/d")})
		add(akase{what: "two calls, unsorted", api: api, old: old, src: f1("in/z", "in/a"), files: []string{"in/z", "in/a"}, want: with(7, "+in/z", "+in/a")})
		for i, n := range []string{"a", "b", "c", "d", "e", "f", "h", "i", "j", "k"} {
			w := map[string][]string{"a": with(0, "+in/a"), "b": but(0, "+in/b"), "c": with(1, "+in/c"), "d": but(1, "+in/d"), "e": with(3, "+in/e"), "f": but(3, "+in/f"), "h": but(5, "+in/h"), "i": with(6, "+in/i"), "j": but(6, "+in/j"), "k": with(7, "+in/k")}[n]
			if api == "CompressBytes" && i%3 != 0 {
				continue
			}
			add(akase{what: "one file, sorted", api: api, flags: sorted, old: old, src: f1("in/" + n), files: []string{"in/" + n}, want: w})
		}
		add(akase{what: "two calls, sorted, the second replaces what the first added", api: api, flags: sorted, old: old, src: f1("in/c"), files: []string{"in/c", "in/c"}, want: with(1, "+in/c")})
		add(akase{what: "two calls, sorted, descending", api: api, flags: sorted, old: old, src: f1("in/c", "in/a"), files: []string{"in/c", "in/a"}, want: []string{"+in/a", "=b", "+in/c", "=d", "=dd", "=f", "=g", "=h", "=j"}})
		add(akase{what: "a new archive instead of the old one", api: api, flags: []string{"NewArchive"}, old: old, src: f1("in/c"), files: []string{"in/c"}, want: []string{"+in/c"}})
		add(akase{what: "no archive before", api: api, noOld: true, src: f1("in/c"), files: []string{"in/c"}, want: []string{"+in/c"}})
		add(akase{what: "with a backup", api: api, flags: []string{"BackupOldArchive"}, old: old, src: f1("in/c"), files: []string{"in/c"}, want: with(7, "+in/c")})
		add(akase{what: "an archive without end mark", api: api, noEnd: true, old: old, src: f1("in/c"), files: []string{"in/c"}, want: with(7, "+in/c")})
		add(akase{what: "an archive without members", api: api, src: f1("in/c"), files: []string{"in/c"}, want: []string{"+in/c"}})
		add(akase{what: "a self-extracting archive", api: api, prefix: "MZ\x90\x00\x03 not yet -lh5- here either -lh \x20\x00-lzs- and a tail longer than a header", old: old[1:], src: f1("in/c"), files: []string{"in/c"}, want: append(append([]string{}, all[1:]...), "+in/c")})
		add(akase{what: "the archive itself", api: api, old: old, files: []string{"a.lzh"}, want: all})
		add(akase{what: "an excluded file", api: api, old: old, exclude: []string{"x", "C"}, src: f1("in/c"), files: []string{"in/c"}, want: all})
	}
	add(akase{what: "three files, unsorted", old: old, src: f1("in/z", "in/a", "in/d"), files: []string{"in/z", "in/a", "in/d"}, want: with(7, "+in/z", "+in/a", "+in/d")})
	add(akase{what: "three files, sorted", flags: sorted, old: old, src: f1("in/a", "in/d", "in/z"), files: []string{"in/a", "in/d", "in/z"}, want: []string{"+in/a", "=b", "+in/d", "=dd", "=f", "=g", "=h", "=j", "+in/z"}})
	add(akase{what: "all replaced, sorted", flags: sorted, old: []mspec{old[0], old[1], old[3]}, src: f1("in/b", "in/d", "in/f"), files: []string{"in/b", "in/d", "in/f"}, want: []string{"+in/b", "+in/d", "+in/f"}})
	add(akase{what: "neighbours replaced, sorted", flags: sorted, old: old, src: f1("in/h", "in/j"), files: []string{"in/h", "in/j"}, want: []string{"=b", "=d", "=dd", "=f", "=g", "+in/h", "+in/j"}})
	add(akase{what: "a directory and a link, each twice, sorted", api: "Compress", flags: sorted, noOld: true, src: []asource{{kind: 'd', name: "in/dd"}, {kind: 'l', name: "in/l"}}, files: []string{"in/dd", "in/l", "in/l", "in/dd"}, want: []string{"+in/dd", "+in/l"}})
	add(akase{what: "a link added, sorted", flags: sorted, old: old, src: []asource{{kind: 'l', name: "in/gg"}}, files: []string{"in/gg"}, want: with(5, "+in/gg")})
	add(akase{what: "a missing file among others", old: old, src: f1("in/a", "in/d"), files: []string{"in/a", "in/none", "in/d"}, want: with(7, "+in/a", "+in/d")})
	add(akase{what: "the archive itself among others", old: old, src: f1("in/a", "in/d"), files: []string{"in/a", "a.lzh", "in/d"}, want: with(7, "+in/a", "+in/d")})
	add(akase{what: "the archive itself first and last", old: old, src: f1("in/a", "in/d"), files: []string{"a.lzh", "in/a", "in/d", "a.lzh"}, want: with(7, "+in/a", "+in/d")})
	add(akase{what: "an excluded file among others", old: old, exclude: []string{"A"}, src: f1("in/a", "in/d"), files: []string{"in/a", "in/d"}, want: with(7, "+in/d")})
	add(akase{what: "moving files", flags: []string{"DeleteAfterAppend"}, old: old, exclude: []string{"e"}, src: f1("in/a", "in/d", "in/e"), files: []string{"in/a", "in/d", "in/e", "in/none"}, want: with(7, "+in/a", "+in/d"), gone: []string{"in/a", "in/d"}})
	tree := append(f1("in/x", "in/b", "in/s/z", "in/s/c"), asource{kind: 'd', name: "in/s"}, asource{kind: 'd', name: "in/s/e"}, asource{kind: 'l', name: "in/l"}, asource{kind: 'd', name: "in"})
	add(akase{what: "a directory recursively", flags: []string{"RecursiveArchiving"}, old: old, src: tree, files: []string{"in"}, want: with(7, "+in", "+in/b", "+in/l", "+in/s", "+in/s/c", "+in/s/e", "+in/s/z", "+in/x")})
	add(akase{what: "a directory, not recursively", old: old, src: tree, files: []string{"in"}, want: with(7, "+in")})
	add(akase{what: "a directory recursively with an exclusion", flags: []string{"RecursiveArchiving"}, exclude: []string{"L", "c"}, old: old, src: tree, files: []string{"in", "in/x"}, want: with(7, "+in", "+in/b", "+in/s", "+in/s/e", "+in/s/z", "+in/x", "+in/x")})
	add(akase{what: "a large old member", api: "Compress", old: []mspec{fm(1, "big", "-lh5-", 9, 66001), old[0]}, src: f1("in/c"), files: []string{"in/c"}, want: []string{"=big", "=b", "+in/c"}})
	times := []int64{1000, 1000, 1000, 1000, 1000, 1000, 1000}
	u := []string{"SortContents", "UpdateIfNewer"}
	for i, dt := range []int64{-1, 0, 1} {
		nu := [][]string{all, all, but(1, "+in/d")}[i]
		for _, api := range []string{"", "Compress"} {
			add(akase{what: fmt.Sprintf("update of a member by a file of age difference %d", dt), api: api, flags: u, old: old, oldTime: times, src: []asource{{kind: 'f', name: "in/d", n: 5, time: 1000 + dt}}, files: []string{"in/d"}, want: nu})
		}
	}
	add(akase{what: "update of a member from memory", api: "CompressBytes", flags: u, old: old, oldTime: times, src: f1("in/d"), files: []string{"in/d"}, want: but(1, "+in/d")})
	add(akase{what: "update with older, newer and new files", flags: u, old: old, oldTime: times, src: []asource{{'f', "in/b", 4, 999}, {'f', "in/c", 4, 10}, {'f', "in/d", 4, 2000}, {'f', "in/f", 4, 1000}, {'f', "in/h", 4, 1001}},
		files: []string{"in/b", "in/c", "in/d", "in/f", "in/h"}, want: []string{"=b", "+in/c", "+in/d", "=dd", "=f", "=g", "+in/h", "=j"}})
	add(akase{what: "update of whatever exists", flags: u, old: old, oldTime: times, src: []asource{{'f', "b", 4, 999}, {'f', "c", 4, 10000}, {'f', "d", 4, 2000}, {'f', "j", 4, 1001}},
		want: []string{"=b", "+d", "=dd", "=f", "=g", "=h", "+j"}})
	add(akase{what: "update when nothing exists", flags: u, old: old, oldTime: times, want: all})
	sfx := "MZ\x90\x00\x03 not yet -lh5- here either -lh \x20\x00-lzs- and a tail longer than a header"
	for _, api := range []string{"", "Compress", "CompressBytes"} {
		add(akase{what: "a self-extracting archive, sorted", api: api, prefix: sfx, flags: sorted, old: old, src: f1("in/c"), files: []string{"in/c"}, want: with(1, "+in/c")})
		add(akase{what: "a self-extracting archive, sorted, replaced", api: api, prefix: sfx, flags: sorted, old: old, src: f1("in/f"), files: []string{"in/f"}, want: but(3, "+in/f")})
	}
	add(akase{what: "update in a self-extracting archive", prefix: sfx, flags: u, old: old, oldTime: times, src: []asource{{'f', "in/b", 4, 999}, {'f', "in/d", 4, 2000}}, files: []string{"in/b", "in/d"}, want: but(1, "+in/d")})
	cased := []mspec{fm(2, "B", "-lh5-", 9, 7), fm(1, "D.TXT", "-lh0-", 5, 0), fm(2, "aa", "-lh5-", 9, 7), fm(1, "d.txt2", "-lh0-", 5, 0)}
	for _, api := range []string{"", "Compress"} {
		add(akase{what: "names that differ in case only, sorted", api: api, flags: sorted, old: cased, src: f1("in/b"), files: []string{"in/b"}, want: []string{"=B", "=D.TXT", "=aa", "+in/b", "=d.txt2"}})
		add(akase{what: "a name that is the beginning of another, sorted", api: api, flags: sorted, old: cased, src: f1("in/d.txt"), files: []string{"in/d.txt"}, want: []string{"=B", "=D.TXT", "=aa", "+in/d.txt", "=d.txt2"}})
		add(akase{what: "a capital name, sorted", api: api, flags: sorted, old: cased, src: f1("in/AA"), files: []string{"in/AA"}, want: []string{"+in/AA", "=B", "=D.TXT", "=aa", "=d.txt2"}})
	}
	// header levels and methods of what is added must not matter to what is kept
	for _, level := range []int{0, 2} {
		for _, meth := range []int{0, 5} {
			add(akase{what: fmt.Sprintf("level %d, method %d, between two members", level, meth), flags: sorted, old: old, src: []asource{{kind: 'f', name: "in/c", n: 2049}, {kind: 'f', name: "in/e", n: 0}, {kind: 'f', name: "in/f", n: 4096}},
				files: []string{"in/c", "in/e", "in/f"}, want: []string{"=b", "+in/c", "=d", "=dd", "+in/e", "+in/f", "=g", "=h", "=j"}, level: level + 1, meth: meth + 1})
		}
	}
	return ks
}

func keepMembers(p *Program, r *Report) {
	termMax = 1200
	var jobs []func(*Report)
	ks := addKases(r.tier == "thorough")
	for _, k := range ks {
		overs := []bool{false}
		if r.tier == "thorough" || k.meth > 1 {
			overs = append(overs, true)
		}
		for _, over := range overs {
			jobs = append(jobs, func(r *Report) { keepOne(p, r, k, over) })
		}
	}
	r.parallel(jobs...)
	r.need("operations", len(jobs))
	r.need("old members found again", 4*len(jobs))
}

func keepOne(p *Program, r *Report, k akase, over bool) {
	entry := k.api
	if entry == "" {
		entry = "CommandAdd"
	}
	a := newArch(p, r, fmt.Sprintf("%s, %v", k.what, k.files))
	a.over = over
	arch := "a.lzh"
	if k.prefix != "" {
		arch = "a.exe"
		a.f.w.fields["archiveName"] = vStr(arch)
	}
	if !a.start() {
		return
	}
	r.ob("%s: %s", entry, a.what)
	level, meth := 1, 5
	if k.level > 0 {
		level = k.level - 1
	}
	if k.meth > 0 {
		meth = k.meth - 1
	}
	olds := map[string]*member{}
	var oldBytes []*V
	if !k.noOld {
		var b []*V
		for i, x := range k.old {
			m := &member{level: x.level, kind: x.kind, name: x.name, target: x.target, method: x.method}
			if k.oldTime != nil {
				m.time = vInt(k.oldTime[i])
			}
			a.packedMember(m, x.n, x.packed, x.used)
			olds[x.name] = m
			b = append(b, m.encode(a.e)...)
		}
		oldBytes = append(byteVals(k.prefix), b...)
		if !k.noEnd {
			oldBytes = append(oldBytes, vInt(0))
		}
		a.f.file(a.e, a.run.st, arch, oldBytes)
	}
	srcs := map[string]*source{}
	var body []*V
	if k.api == "CompressBytes" {
		for _, x := range k.src {
			srcs[x.name] = &source{kind: 'f', name: x.name, data: symData(a.e, "body", x.n)}
			body = srcs[x.name].data
		}
	} else {
		for _, x := range k.src {
			srcs[x.name] = a.source(x.kind, x.name, x.n)
			if x.time != 0 {
				srcs[x.name].time = vInt(x.time)
				a.f.setMeta(a.e, a.run.st, a.f.ino(a.run.st, x.name), "time", vInt(x.time))
			}
		}
	}
	for _, f := range k.flags {
		a.set(f, vBool(true))
	}
	if len(k.exclude) > 0 {
		var x []*V
		for _, s := range k.exclude {
			x = append(x, vStr(s))
		}
		a.set("ExcludeFiles", a.run.strSlice("excl", x...))
	}
	before := map[string]bool{}
	for _, n := range a.f.names(a.run.st) {
		before[n] = true
	}
	switch k.api {
	case "":
		var x []*V
		for _, s := range k.files {
			x = append(x, vStr(s))
		}
		a.set("CmdFilev", a.run.strSlice("files", x...))
		a.set("CmdFilec", vInt(int64(len(x))))
		a.set("HeaderLevel", vInt(int64(level)))
		a.set("CompressMethod", vInt(int64(meth)))
		a.table()
		if _, ok := a.call(entry, vStr(arch), a.run.lha); !ok {
			return
		}
	case "Compress":
		for _, s := range k.files {
			if _, ok := a.call(entry, a.run.lha, vStr(s), vInt(int64(meth)), vInt(int64(level))); !ok {
				return
			}
		}
	default:
		o := a.e.obj("in:body", func(*Obj) {})
		a.e.putBytes(a.run.st, Addr{o.id, 0}, 0, body)
		v := &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vInt(int64(len(body))), cp: vInt(int64(len(body)))}
		for _, s := range k.files {
			if _, ok := a.call(entry, a.run.lha, vStr(s), v, vInt(int64(meth)), vInt(int64(level))); !ok {
				return
			}
		}
	}
	st := a.run.st
	want := before
	for _, n := range k.gone {
		delete(want, n)
	}
	res := arch
	if k.prefix != "" {
		res = "a.lzh"
		a.fileIs(entry, arch, oldBytes)
	}
	want[res] = true
	if slices.Contains(k.flags, "BackupOldArchive") {
		want[arch+".bak"] = true
		a.fileIs(entry, arch+".bak", oldBytes)
	}
	for _, n := range a.f.names(st) {
		if !want[n] {
			a.bad("files", entry, "%s appears", n)
		}
		delete(want, n)
	}
	for n := range want {
		a.bad("files", entry, "%s is gone", n)
	}
	// what lies where
	i := a.f.ino(st, res)
	if i == "" {
		return
	}
	if len(k.files) == 0 && len(k.src) == 0 { // nothing to do: the archive is left alone
		a.fileIs(entry, res, oldBytes)
		a.r.count("old members found again", len(k.old))
		return
	}
	b := a.f.bytes(a.e, st, i, 0, a.f.size(st, i))
	pos := 0
	for i, w := range k.want {
		if w[0] == '=' {
			m := olds[w[1:]]
			x := m.encode(a.e)
			for j, v := range x {
				if pos+j >= len(b) || !a.e.sameByte(b[pos+j], v) {
					a.bad("members", entry, "byte %d of the old member %q is not found again at byte %d, place %d of %v", j, m.name, pos+j, i, k.want)
					return
				}
			}
			a.r.count("old members found again", 1)
			pos += len(x)
			continue
		}
		s := srcs[w[1:]]
		m, ok := a.memberAt(fmt.Sprintf("%s, place %d of %v", entry, i, k.want), b, pos)
		if !ok {
			return
		}
		a.recorded(entry, m, s, level, meth, k.api == "CompressBytes")
		pos += len(m.bytes)
	}
	if !a.ends(b, pos) {
		a.bad("members", entry, "more follows the members %v, or they do not end with one zero byte", k.want)
	}
	for n, s := range srcs {
		if s.kind == 'f' && k.api != "CompressBytes" && !slices.Contains(k.gone, n) {
			a.fileIs(entry, n, s.data)
		}
	}
}

// trip is something archived and extracted again
type trip struct {
	add, get string
	src      []asource
	level    int
	meth     int
	over     bool
	flags    []string
	one      bool // one call with all the files
}

func roundTrips(p *Program, r *Report) {
	termMax = 1200
	sizes := []int{0, 1, 2, 2048, 2049}
	if r.tier == "thorough" {
		sizes = append(sizes, 3, 2047, 4095, 4096, 4097, 6145)
	}
	var ts []trip
	gets := []string{"CommandExtract", "Decompress", "DecompresBytes"}
	for level := 0; level < 3; level++ {
		for _, meth := range methods(r) {
			for _, over := range []bool{false, true} {
				if over && meth == 0 {
					continue
				}
				for i, n := range sizes {
					if over && n == 0 {
						continue
					}
					for j, add := range []string{"Compress", "CommandAdd", "CompressBytes"} {
						for k, get := range gets {
							if r.tier != "thorough" && (i+j+k+level)%3 != 0 {
								continue
							}
							ts = append(ts, trip{add: add, get: get, src: []asource{{kind: 'f', name: "in/file.bin", n: n}}, level: level, meth: meth, over: over})
						}
					}
				}
			}
		}
		for _, get := range gets[:2] {
			ts = append(ts, trip{add: "Compress", get: get, src: []asource{{kind: 'd', name: "in/dir"}}, level: level, meth: 5},
				trip{add: "CommandAdd", get: get, src: []asource{{kind: 'l', name: "in/link"}}, level: level, meth: 5},
				trip{add: "CommandAdd", get: get, src: []asource{{kind: 'l', name: "in/Flink"}}, level: level, meth: 5},
				trip{add: "Compress", get: get, src: []asource{{kind: 'l', name: "in/Dlink"}}, level: level, meth: 5},
				trip{add: "Compress", get: get, src: []asource{{'f', "in/b", 5, 0}, {'f', "in/a", 2049, 0}, {'d', "in/dir", 0, 0}, {'l', "in/link", 0, 0}, {'f', "in/c", 0, 0}}, level: level, meth: 5},
				trip{add: "CommandAdd", get: get, one: true, src: []asource{{'f', "in/b", 5, 0}, {'f', "in/a", 2049, 0}, {'d', "in/dir", 0, 0}, {'l', "in/link", 0, 0}, {'f', "in/c", 0, 0}}, level: level, meth: 0},
				trip{add: "Compress", get: get, flags: []string{"SortContents"}, src: []asource{{'f', "in/b", 5, 0}, {'f', "in/a", 2049, 0}, {'f', "in/d.dat", 7, 0}, {'f', "in/c", 0, 0}}, level: level, meth: 5})
		}
		ts = append(ts, trip{add: "CompressBytes", get: "DecompresBytes", src: []asource{{'f', "b", 5, 0}, {'f', "a", 2049, 0}, {'f', "c", 0, 0}}, level: level, meth: 5},
			trip{add: "CompressBytes", get: "CommandExtract", flags: []string{"SortContents"}, src: []asource{{'f', "b", 5, 0}, {'f', "a", 2049, 0}, {'f', "c", 0, 0}}, level: level, meth: 0})
	}
	var jobs []func(*Report)
	for _, t := range ts {
		jobs = append(jobs, func(r *Report) { tripOne(p, r, t) })
	}
	r.parallel(jobs...)
	r.need("things compared", len(jobs))
}

func tripOne(p *Program, r *Report, t trip) {
	a := newArch(p, r, fmt.Sprintf("%s then %s of %v, level %d, method %d, packing pays: %v %v", t.add, t.get, t.src, t.level, t.meth, !t.over, t.flags))
	a.over = t.over
	if !a.start() {
		return
	}
	r.ob("%s", a.what)
	for _, f := range t.flags {
		a.set(f, vBool(true))
	}
	var srcs []*source
	if t.one {
		var x []*V
		for _, s := range t.src {
			srcs = append(srcs, a.source(s.kind, s.name, s.n))
			x = append(x, vStr(s.name))
		}
		a.set("CmdFilev", a.run.strSlice("files", x...))
		a.set("CmdFilec", vInt(int64(len(x))))
		a.set("HeaderLevel", vInt(int64(t.level)))
		a.set("CompressMethod", vInt(int64(t.meth)))
		a.table()
		if _, ok := a.call("CommandAdd", vStr("a.lzh"), a.run.lha); !ok {
			return
		}
	} else {
		for _, s := range t.src {
			x, ok := a.add(t.add, s.kind, s.name, s.n, t.level, t.meth)
			if !ok {
				return
			}
			srcs = append(srcs, x)
		}
	}
	if t.add == "CommandAdd" { // the next command starts with its own files
		a.set("CmdFilev", a.run.strSlice("none"))
		a.set("CmdFilec", vInt(0))
	}
	a.set("ExtractDirectory", vStr("out"))
	place := func(s *source) string { return path.Join("out", path.Base(s.name)) }
	arch := a.f.ino(a.run.st, "a.lzh")
	if arch == "" {
		a.bad("archive", t.add, "a.lzh is not made")
		return
	}
	bytes := a.f.bytes(a.e, a.run.st, arch, 0, a.f.size(a.run.st, arch))
	if t.get == "CommandExtract" {
		a.table()
		if _, ok := a.call(t.get, vStr("a.lzh"), a.run.lha); !ok {
			return
		}
	} else {
		o, ok := a.call("Headers", a.run.lha)
		if !ok {
			return
		}
		v := o.res[0]
		if n, ok := v.ln.isConst(); !ok || int(n) != len(srcs) {
			a.bad("members", "Headers", "the archive has %v members instead of %d", v.ln, len(srcs))
			return
		}
		ht := types.NewPointer(a.p.lib.Type("LzHeader").Type())
		keep := a.e.obj("the caller's headers", func(*Obj) {})
		a.e.store(a.run.st, vPtr(Addr{keep.id, 0}), types.NewSlice(ht), v)
		for i := range srcs {
			h := a.e.load(a.run.st, a.e.indexAddr(v, vInt(int64(i))), ht)
			o, ok := a.call(t.get, a.run.lha, h)
			if !ok {
				return
			}
			if t.get == "Decompress" {
				continue
			}
			name, _ := a.e.textOf(a.run.st, a.e.fieldOf(a.p, a.run.st, h, "LzHeader", "Name"))
			for _, s := range srcs {
				if path.Base(s.name) != name {
					continue
				}
				a.r.count("things compared", 1)
				if b, ok := a.slice(o.st, o.res[0]); !ok {
					a.bad("content", t.get, "how much is returned is not fixed")
				} else {
					a.sameBytes(t.get, "the result for "+s.name, b, s.data)
				}
			}
		}
	}
	a.fileIs(t.get, "a.lzh", bytes)
	st := a.run.st
	if t.get != "DecompresBytes" {
		for _, s := range srcs {
			n := place(s)
			a.r.count("things compared", 1)
			i := a.f.ino(st, n)
			if i == "" || st.get("k:"+i) != string(s.kind) {
				a.bad("content", t.get, "%s is not there, or is not of its kind", n)
				continue
			}
			switch s.kind {
			case 'l':
				if st.get("l:"+i) != s.target {
					a.bad("link", t.get, "%s points to %q instead of %q", n, st.get("l:"+i), s.target)
				}
				continue
			case 'f':
				a.fileIs(t.get, n, s.data)
			}
			if t.add == "CompressBytes" {
				continue
			}
			if !a.same(a.f.getMeta(a.e, st, i, "mode"), s.perm, 9) {
				a.bad("mode", t.get, "the permissions of %s are not those it had", n)
			}
			if !a.same(a.f.getMeta(a.e, st, i, "time"), s.time, 31) {
				a.bad("time", t.get, "the modification time of %s is not the one it had", n)
			}
		}
	}
	if t.add != "CompressBytes" {
		for _, s := range srcs {
			if s.kind == 'f' {
				a.fileIs(t.add, s.name, s.data)
			}
		}
	}
}
