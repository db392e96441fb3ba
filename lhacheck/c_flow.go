package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = &check{
		rule:   "path-sensitive dataflow: for every entry that decodes members, over every way a member's computed checksum can differ from the recorded one in one bit, and when the decoder reports a failure, every return of the entry carries a non-nil error",
		assume: []string{"header reading and decoding behave as their contracts say (C01, C11 and C12 decide those)"},
		run:    corrupt,
	}
	checks["C12"] = &check{
		rule:   "exception-flow analysis: a panic raised while a header is read, a header is searched or a member is decoded or compressed reaches the caller of no public entry; the entry returns a non-nil error instead",
		assume: []string{"panics that Go cannot recover (exhausted memory or stack) are outside this property"},
		run:    panics,
	}
	checks["C16"] = &check{
		rule:   "value tracking of the package's settings: for each combination of the quiet and verify settings at entry, every return of every public entry, after success, failure or a recovered panic, leaves both (and the handle's verbose setting) as they were",
		assume: []string{"operations of the standard library do not change the package's variables"},
		run:    restored,
	}
	checks["C15"] = &check{
		rule:   "resource typestate: on every path through every public entry, with every operation failing in turn, each file opened is closed by the time the entry returns and none is opened again at the same place while the former is still open",
		assume: []string{"closing a file releases it even when it reports an error"},
		run:    closed,
	}
}

var decodeEntries = []struct {
	entry string
	f     map[string]*V
	g     map[string]*V
	what  string
}{
	{"CommandExtract", map[string]*V{"OutputToStdout": vBool(false)}, map[string]*V{"VerifyMode": vBool(false)}, "extracting"},
	{"CommandExtract", map[string]*V{"OutputToStdout": vBool(true)}, map[string]*V{"VerifyMode": vBool(false)}, "printing"},
	{"CommandExtract", map[string]*V{"OutputToStdout": vBool(false)}, map[string]*V{"VerifyMode": vBool(true)}, "testing"},
	{"Decompress", map[string]*V{"OutputToStdout": vBool(false)}, map[string]*V{"VerifyMode": vBool(false)}, "extracting"},
	{"DecompresBytes", nil, map[string]*V{"VerifyMode": vBool(false)}, "decoding to memory"},
	{"Headers", nil, nil, "reading headers"},
	{"CommandList", nil, nil, "listing"},
}

var memberFiles = []memberKind{{"file", "-lh5-", 0100644}, {"stored", "-lh0-", 0100644}}

func corrupt(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range decodeEntries {
		for bit := 0; bit < 17; bit++ {
			jobs = append(jobs, func(r *Report) {
				w := newWorld(p, r)
				w.kinds = memberFiles
				w.fields["Noexec"] = vBool(false)
				for k, v := range s.f {
					w.fields[k] = v
				}
				for k, v := range s.g {
					w.globals[k] = v
				}
				w.cfg.Bits = true
				w.hasCrc = vBool(true)
				// any recorded checksum, and one that differs from it in one bit (or in all)
				sum := func(e *Engine, flip uint64) *V {
					v := e.symInt("recorded checksum", 0, 1<<16-1, 64)
					v.t = nil
					for i := range v.bits {
						if i >= 16 {
							v.bits[i] = bConst(0)
						} else if flip>>uint(i)&1 != 0 {
							v.bits[i] = bXor(v.bits[i], bConst(1))
						}
					}
					return v
				}
				flip := uint64(1) << uint(bit)
				if bit == 16 {
					flip = 0xffff
				}
				w.crcOf = func(ev *Ev, st *State) *V {
					if s, ok := ev.e.syms["recorded checksum"]; ok {
						ev.e.killSym(st, s)
					}
					return sum(ev.e, 0)
				}
				w.crcGot = func(ev *Ev) []*V { return []*V{sum(ev.e, 0), sum(ev.e, flip)} }
				w.decode = func(ev *Ev, o *Out, ok bool) {
					switch {
					case !ok:
						o.st.set("bad", "decoding failed at "+ev.pos())
					case len(o.res[0].bits) > 0 && !bitsEq(o.res[0].bits, sum(ev.e, 0).bits):
						o.st.set("bad", "wrong checksum at "+ev.pos())
					default:
						if o.st.get("bad") == "" {
							o.st.set("good", "1")
						}
					}
				}
				w.header = func(ev *Ev, o *Out, kind string) {
					if kind == "error" {
						o.st.set("bad", "a header cannot be read at "+ev.pos())
						r.count("unreadable headers", 1)
					}
				}
				if s.entry == "CommandList" && bit > 0 {
					return
				}
				run, outs := w.run(s.entry)
				if run == nil {
					return
				}
				fn := run.fn(s.entry)
				for _, o := range outs {
					if o.panic {
						continue
					}
					ev := errOf(fn, o)
					if ev == nil {
						r.bad("anchor", s.entry, "has no error result", nil)
						continue
					}
					if ev.nn&isNil != 0 && o.st.get("bad") != "" {
						r.bad("success", s.entry, fmt.Sprintf("%s returns without error although %s (while %s)", s.entry, o.st.get("bad"), s.what), o.st.trace(20))
					}
					if ev.nn&isNil != 0 && o.st.get("good") != "" {
						r.count("successful returns", 1)
					}
					r.ob("%s/%s bit %d: %s%s -> %d", s.entry, s.what, bit, o.st.get("bad"), o.st.get("good"), ev.nn)
				}
			})
		}
	}
	r.parallel(jobs...)
	r.need("decoder calls", 17*6)
	r.need("successful returns", 17*6)
	r.need("entries", 17*6+1)
	r.need("unreadable headers", 17*6)
}

// every public entry with its way of use
type scenario struct {
	entry string
	f     map[string]*V
	g     map[string]*V
	files int
	what  string
}

func allEntries() []scenario {
	t, f := vBool(true), vBool(false)
	out := func(a, b *V) (map[string]*V, map[string]*V) {
		return map[string]*V{"OutputToStdout": a, "Noexec": f}, map[string]*V{"VerifyMode": b}
	}
	var r []scenario
	for _, e := range []string{"CommandExtract", "Decompress"} {
		for i, x := range [][2]*V{{f, f}, {t, f}, {f, t}} {
			a, b := out(x[0], x[1])
			r = append(r, scenario{e, a, b, 0, []string{"to files", "to stdout", "testing"}[i]})
		}
	}
	a, b := out(f, f)
	r = append(r, scenario{"DecompresBytes", a, b, 0, "to memory"})
	r = append(r, scenario{"Headers", map[string]*V{"Noexec": f}, nil, 0, "headers"})
	r = append(r, scenario{"CommandList", map[string]*V{"Noexec": f}, nil, 0, "listing"})
	for _, e := range []string{"CommandAdd", "Compress", "CompressBytes"} {
		r = append(r, scenario{e, map[string]*V{"Noexec": f, "BackupOldArchive": f}, map[string]*V{"VerifyMode": f}, 1, "adding"})
		r = append(r, scenario{e, map[string]*V{"Noexec": f, "BackupOldArchive": t}, map[string]*V{"VerifyMode": f}, 1, "adding with backup"})
	}
	return r
}

func (s scenario) world(p *Program, r *Report) *World {
	w := newWorld(p, r)
	w.kinds = memberKinds
	for k, v := range s.f {
		w.fields[k] = v
	}
	for k, v := range s.g {
		w.globals[k] = v
	}
	if s.files > 0 {
		w.kinds = memberKinds[:4]
		w.cmdFiles = nil
		for i := 0; i < s.files; i++ {
			w.cmdFiles = append(w.cmdFiles, vSymStr(fmt.Sprintf("src%d", i), 0, 0))
		}
	}
	return w
}

// panicking lets the calls that handle untrusted data panic
func panicking(w *World) {
	old := w.enter
	w.enter = func(ev *Ev) []*Out {
		if old != nil {
			if o := old(ev); o != nil {
				return o
			}
		}
		var outs []*Out
		switch {
		case isMethodOf(ev.fn, "LzHeader", "GetHeader"):
			outs = w.stubHeader(ev)
		case isMethodOf(ev.fn, "LzHeader", "SeekLhaHeader"):
			outs = w.stubSeek(ev)
		case isMethodOf(ev.fn, "Lha", "DecodeLzhuf"):
			outs = w.stubDecode(ev)
		case isMethodOf(ev.fn, "Lha", "EncodeLzhuf"):
			outs = w.stubEncode(ev)
		default:
			return nil
		}
		st := ev.st.clone()
		st.note("%s: panic inside %s", ev.pos(), ev.fn.Name())
		st.set("panicked", "1")
		st.pan = &panicInfo{site: ev.fn.Name()}
		w.r.count("panics raised", 1)
		return append(outs, &Out{st: st, panic: true})
	}
}

func panics(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range allEntries() {
		jobs = append(jobs, func(r *Report) {
			w := s.world(p, r)
			panicking(w)
			run, outs := w.run(s.entry)
			if run == nil {
				return
			}
			fn := run.fn(s.entry)
			seen := false
			for _, o := range outs {
				if o.st.get("panicked") == "" {
					continue
				}
				seen = true
				r.ob("%s %s: outcome after a panic (escapes: %v)", s.entry, s.what, o.panic)
				if o.panic {
					r.bad("escape", s.entry, fmt.Sprintf("a panic raised by a malformed archive escapes from %s (%s)", s.entry, s.what), o.st.trace(20))
					continue
				}
				if ev := errOf(fn, o); ev == nil || ev.nn&isNil != 0 {
					r.bad("swallowed", s.entry, fmt.Sprintf("%s (%s) returns without error after a panic", s.entry, s.what), o.st.trace(20))
				}
			}
			if seen {
				r.count("entries with a panic handled", 1)
			}
		})
	}
	r.parallel(jobs...)
	r.need("panics raised", 15)
	r.need("entries with a panic handled", 15)
}

func restored(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range allEntries() {
		for m := 0; m < 8; m++ {
			q, v, vb := vBool(m&1 != 0), vBool(m&2 != 0), vBool(m&4 != 0)
			if x, ok := s.g["VerifyMode"]; ok && (x.lo != 0) != (m&2 != 0) {
				continue
			}
			jobs = append(jobs, func(r *Report) {
				w := s.world(p, r)
				w.globals["Quiet"] = q
				w.globals["VerifyMode"] = v
				w.globals["TextMode"] = vBool(false)
				w.fields["Verbose"] = vb
				panicking(w)
				run, outs := w.run(s.entry)
				if run == nil {
					return
				}
				for _, o := range outs {
					for _, x := range []struct {
						n    string
						want *V
						got  *V
					}{{"Quiet", q, run.getGlobal(o.st, "Quiet")}, {"VerifyMode", v, run.getGlobal(o.st, "VerifyMode")}, {"Verbose", vb, run.e.fieldOf(p, o.st, run.lha, "Lha", "Verbose")}} {
						r.count("settings compared", 1)
						if x.got == nil || x.got.lo != x.want.lo || x.got.hi != x.want.hi {
							r.bad("setting", s.entry+" "+x.n, fmt.Sprintf("%s (%s) returns with %s = %v, it was %v", s.entry, s.what, x.n, x.got, x.want), o.st.trace(20))
						}
						r.ob("%s %s: %s = %v", s.entry, s.what, x.n, x.want)
					}
				}
			})
		}
	}
	// the codecs
	for _, m := range decodeMethods {
		for v := 0; v < 2; v++ {
			jobs = append(jobs, func(r *Report) {
				w := codecWorld(p, r)
				w.globals["VerifyMode"] = vBool(v != 0)
				sameSettings(w, fmt.Sprintf("DecodeLzhuf method %d", m), func(run *Run) []*Out { return decodeCall(w, run, m) })
			})
		}
	}
	for _, m := range encodeMethods {
		jobs = append(jobs, func(r *Report) {
			w := codecWorld(p, r)
			w.globals["VerifyMode"] = vBool(false)
			sameSettings(w, fmt.Sprintf("EncodeLzhuf method %d", m), func(run *Run) []*Out { return encodeCall(w, run, m) })
		})
	}
	r.parallel(jobs...)
	r.need("settings compared", 400)
}

func sameSettings(w *World, what string, call func(run *Run) []*Out) {
	run := w.start()
	if run == nil {
		return
	}
	want := map[string]*V{}
	for _, n := range []string{"Quiet", "VerifyMode"} {
		want[n] = run.getGlobal(run.st, n)
	}
	outs := call(run)
	w.r.absorb(run)
	for _, o := range outs {
		for n, x := range want {
			g := run.getGlobal(o.st, n)
			w.r.count("settings compared", 1)
			w.r.ob("%s: %s", what, n)
			if g == nil || g.lo != x.lo || g.hi != x.hi {
				w.r.bad("setting", what+" "+n, fmt.Sprintf("%s returns with %s = %v, it was %v", what, n, g, x), o.st.trace(20))
			}
		}
	}
}

func encodeCall(w *World, run *Run, m int64) []*Out {
	fn := run.fn("EncodeLzhuf")
	if fn == nil {
		w.r.bad("anchor", "EncodeLzhuf", "not found", nil)
		return nil
	}
	run.e.setField(w.p, run.st, run.lha, "Lha", "CompressMethod", vInt(m))
	var as []*V
	for i, pa := range fn.Params {
		t := pa.Type().String()
		switch {
		case i == 0:
			as = append(as, run.lha)
		case t == "*io.Reader":
			o := run.e.obj("readerVar", func(o *Obj) {})
			run.e.store(run.st, vPtr(Addr{o.id, 0}), pa.Type().Underlying().(*types.Pointer).Elem(), ifaceOf(run, "source"))
			as = append(as, vPtr(Addr{o.id, 0}))
		case t == "*io.Writer":
			o := run.e.obj("writerVar", func(o *Obj) {})
			run.e.store(run.st, vPtr(Addr{o.id, 0}), pa.Type().Underlying().(*types.Pointer).Elem(), ifaceOf(run, "packed"))
			as = append(as, vPtr(Addr{o.id, 0}))
		case t == "*int":
			o := run.e.obj("int:"+pa.Name(), func(o *Obj) { o.lazy = true })
			as = append(as, vPtr(Addr{o.id, 0}))
		case t == "int":
			as = append(as, vRange(0, 1<<32-1))
		case t == "[]byte":
			o := run.e.obj("bytes:"+pa.Name(), func(o *Obj) { o.lazy = true })
			if strings.Contains(strings.ToLower(pa.Name()), "method") {
				o.lazy = false
				for q, c := range []byte(methodName(m)) {
					run.e.writeCell(run.st, Addr{o.id, run.e.path(0, 'i', int64(q))}, nil, types.Typ[types.Byte], vInt(int64(c)), true)
				}
			}
			as = append(as, &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vInt(5)})
		default:
			as = append(as, vUnknown(pa.Type(), 0))
		}
	}
	return run.call(fn, as...)
}

func methodName(m int64) string {
	switch m {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		return fmt.Sprintf("-lh%d-", m)
	}
	return "-???-"
}

func closed(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range allEntries() {
		jobs = append(jobs, func(r *Report) {
			w := s.world(p, r)
			w.fields["RecursiveArchiving"] = vBool(true)
			panicking(w)
			w.cfg.After = func(ev *Ev, o *Out) bool {
				switch ev.op {
				case "open", "create", "openfile", "createtemp":
					if o.tag != "ok" {
						return true
					}
					r.count("files opened", 1)
					r.ob("%s: %s at %s", s.entry, ev.name, ev.pos())
					for _, h := range ev.e.handlesOf(o.st, o.res[0]) {
						k := "h:" + fmt.Sprint(h.id)
						if o.st.get(k) != "" {
							o.st.set("leak", ev.pos())
						}
						o.st.set(k, ev.pos())
					}
				case "close":
					if len(ev.h) == 1 {
						o.st.set("h:"+fmt.Sprint(ev.h[0].id), "")
						r.count("closes", 1)
					}
				}
				return true
			}
			run, outs := w.run(s.entry)
			if run == nil {
				return
			}
			for _, o := range outs {
				r.count("returns examined", 1)
				for k, v := range o.st.ts {
					if strings.HasPrefix(k, "h:") || k == "leak" {
						r.bad("open", s.entry+" opened in "+fnAt(p, v), fmt.Sprintf("%s (%s) can return while the file opened at %s is still open", s.entry, s.what, v), o.st.trace(20))
					}
				}
			}
		})
	}
	r.parallel(jobs...)
	r.need("files opened", 20)
	r.need("returns examined", 60)
}

// the function a position lies in
func fnAt(p *Program, pos string) string {
	for pk := range p.repo {
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok && f.Syntax() != nil && inRange(p, f, pos) {
				return f.Name()
			}
		}
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := p.prog.MethodSets.MethodSet(typ)
				for i := 0; i < ms.Len(); i++ {
					if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Syntax() != nil && inRange(p, f, pos) {
						return f.Name()
					}
				}
			}
		}
	}
	return pos
}

func inRange(p *Program, f *ssa.Function, pos string) bool {
	a, b := p.prog.Fset.Position(f.Syntax().Pos()), p.prog.Fset.Position(f.Syntax().End())
	i := strings.LastIndex(pos, ":")
	if i < 0 || !strings.HasSuffix(a.Filename, pos[:i]) {
		return false
	}
	n := 0
	fmt.Sscan(pos[i+1:], &n)
	return n >= a.Line && n <= b.Line
}
