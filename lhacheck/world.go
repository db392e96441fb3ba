package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kinds of members an archive header may announce
type memberKind struct {
	name, method string
	mode         int64
}

var memberKinds = []memberKind{
	{"file", "-lh5-", 0100644},
	{"stored", "-lh0-", 0100644},
	{"dir", "-lhd-", 0040755},
	{"link", "-lhd-", 0120777},
	{"file as dir", "-lh5-", 0040755},
	{"file as link", "-lh5-", 0120777},
	{"dir as file", "-lhd-", 0100644},
	{"device", "-lh5-", 0020644},
	{"device dir", "-lhd-", 0020644},
	{"unknown method", "-xyz-", 0100644},
}

const (
	labInput uint64 = 1 << iota // bytes of the archive
	labStale                    // left by an earlier operation
	labBody                     // bytes of the files to archive
)

// World runs API entries with header reading and the codecs replaced by their
// contracts (which other checks establish).
type World struct {
	p   *Program
	r   *Report
	cfg *Config

	kinds      []memberKind
	crcHdr     *V // CRC the header records
	crcOf      func(ev *Ev, st *State) *V
	crcGot     func(ev *Ev) []*V
	hasCrc     *V
	realHeader bool // do not replace GetHeader
	realCodec  bool
	realTable  bool          // do not replace MakeCrcTable
	realWrite  bool          // do not replace WriteHeader
	fields     map[string]*V // fields of the handle
	globals    map[string]*V
	keep       bool // private fields of the handle keep their constructor values
	fresh      bool // package variables keep their initial values
	decode     func(ev *Ev, o *Out, ok bool)
	encode     func(ev *Ev, o *Out, ok bool)
	header     func(ev *Ev, o *Out, kind string)
	write      func(ev *Ev, o *Out)
	packed     *V
	byKind     bool            // follow each kind of member separately
	corr       map[string]bool // unknown settings whose value is followed from use to use
	cmdFiles   []*V
	enter      func(ev *Ev) []*Out
	prepare    func(r *Run)
	lhaV       *V
}

func newWorld(p *Program, r *Report) *World {
	w := &World{p: p, r: r, cfg: &Config{InputLab: labInput, StaleLab: labStale}, fields: map[string]*V{}, globals: map[string]*V{}}
	w.cfg.Unroll = func(*ssa.Function) int { return 40 }
	w.cfg.Fast = true
	return w
}

func isMethodOf(fn *ssa.Function, typ, name string) bool {
	if fn.Name() != name {
		return false
	}
	rv := fn.Signature.Recv()
	if rv == nil {
		return false
	}
	t := rv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == typ
}

// error-typed fields of the handle
func (w *World) errFields() []string {
	var r []string
	s := w.p.lib.Type("Lha").Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if isErrorType(s.Field(i).Type()) {
			r = append(r, s.Field(i).Name())
		}
	}
	return r
}

func (w *World) onEnter(ev *Ev) []*Out {
	if w.enter != nil {
		if o := w.enter(ev); o != nil {
			return o
		}
	}
	switch {
	case !w.realHeader && isMethodOf(ev.fn, "LzHeader", "GetHeader"):
		return w.stubHeader(ev)
	case !w.realHeader && isMethodOf(ev.fn, "LzHeader", "SeekLhaHeader"):
		return w.stubSeek(ev)
	case !w.realCodec && isMethodOf(ev.fn, "Lha", "DecodeLzhuf"):
		return w.stubDecode(ev)
	case !w.realCodec && isMethodOf(ev.fn, "Lha", "EncodeLzhuf"):
		return w.stubEncode(ev)
	case !w.realWrite && ev.fn.Name() == "WriteHeader" && ev.fn.Signature.Recv() == nil:
		return w.stubWrite(ev)
	case !w.realTable && ev.fn.Name() == "MakeCrcTable":
		return []*Out{{st: ev.st.clone()}}
	}
	return nil
}

func (w *World) stubSeek(ev *Ev) []*Out {
	a := ev.st.clone()
	b := ev.st.clone()
	b.note("%s: no header found in the archive", ev.pos())
	return []*Out{{st: a, res: []*V{vNilErr(), vBool(true)}}, {st: b, res: []*V{vErr(ecOther), vBool(false)}}}
}

// a header is written in one piece, or writing it fails
func (w *World) stubWrite(ev *Ev) []*Out {
	e := ev.e
	w.r.count("header writes", 1)
	x := *ev
	x.op, x.name = "write", "WriteHeader"
	x.h = nil
	for i, a := range ev.args {
		if pt, ok := ev.fn.Params[i].Type().Underlying().(*types.Pointer); ok && a.k == KPtr {
			if _, isI := pt.Elem().Underlying().(*types.Interface); isI {
				v := e.load(ev.st, a, pt.Elem())
				x.h = append(x.h, e.handlesOf(ev.st, v)...)
			}
		}
	}
	if e.cfg.Before != nil {
		e.cfg.Before(&x)
	}
	a, b := ev.st.clone(), ev.st.clone()
	a.note("%s: header written", ev.pos())
	b.note("%s: writing the header fails", ev.pos())
	var outs []*Out
	for _, o := range []*Out{{st: a, tag: "ok", res: []*V{vNilErr()}}, {st: b, tag: "fail", res: []*V{vErr(ecOther)}}} {
		if w.write != nil {
			w.write(ev, o)
		}
		if e.cfg.After == nil || e.cfg.After(&x, o) {
			outs = append(outs, o)
		}
	}
	return outs
}

func (w *World) bytesField(e *Engine, st *State, ev *Ev, name string, minLen int64) *V {
	o := e.alloc(st, ev.act, ev.instr, "hdr"+name, nil)
	o.lazy = true
	o.lab = labInput
	o.srcName = "member." + name
	return &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vRange(minLen, 1<<20), lab: labInput}
}

func (w *World) stubHeader(ev *Ev) []*Out {
	e := ev.e
	w.r.count("header reads", 1)
	var outs []*Out
	a := ev.st.clone()
	a.note("%s: GetHeader: end of the archive", ev.pos())
	outs = append(outs, &Out{st: a, res: []*V{vNilErr(), vBool(false)}})
	a = ev.st.clone()
	a.note("%s: GetHeader: end of file", ev.pos())
	outs = append(outs, &Out{st: a, res: []*V{vErr(ecEOF), vBool(false)}})
	a = ev.st.clone()
	a.note("%s: GetHeader: error", ev.pos())
	outs = append(outs, &Out{st: a, res: []*V{vErr(ecOther | ecUEOF), vBool(false)}})
	if w.header != nil {
		w.header(ev, outs[0], "end")
		w.header(ev, outs[1], "end")
		w.header(ev, outs[2], "error")
	}
	hs := w.p.lib.Type("LzHeader").Type().Underlying().(*types.Struct)
	for _, k := range w.kinds {
		st := ev.st.clone()
		st.note("%s: GetHeader: member of kind %q", ev.pos(), k.name)
		if w.byKind {
			st.set("member", k.name)
		}
		for i := 0; i < hs.NumFields(); i++ {
			f := hs.Field(i)
			v := vUnknown(f.Type(), labInput)
			switch f.Name() {
			case "Name":
				v = w.bytesField(e, st, ev, "Name", 1)
			case "Realname", "User", "Group":
				v = w.bytesField(e, st, ev, f.Name(), 1)
			case "Method":
				o := e.alloc(st, ev.act, ev.instr, "hdrMethod", nil)
				for q := 0; q < len(k.method); q++ {
					e.writeCell(st, Addr{o.id, e.path(0, 'i', int64(q))}, nil, types.Typ[types.Byte], vInt(int64(k.method[q])), true)
				}
				v = &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vInt(int64(len(k.method))), lab: labInput}
			case "UnixMode":
				v = vInt(k.mode)
			case "PackedSize", "OriginalSize":
				v = &V{k: KInt, lo: 0, hi: 1<<32 - 1, lab: labInput}
				if f.Name() == "PackedSize" && w.packed != nil {
					v = w.packed
				}
			case "HeaderSize":
				v = &V{k: KInt, lo: 1, hi: 1 << 20, lab: labInput}
			case "Crc":
				if w.crcHdr != nil {
					v = w.crcHdr
				}
				if w.crcOf != nil {
					v = w.crcOf(ev, st)
				}
			case "HasCrc":
				if w.hasCrc != nil {
					v = w.hasCrc
				}
			}
			e.store(st, e.fieldAddr(ev.args[0], i), f.Type(), v)
		}
		o := &Out{st: st, res: []*V{vNilErr(), vBool(true)}}
		if w.header != nil {
			w.header(ev, o, k.name)
		}
		outs = append(outs, o)
	}
	return outs
}

func (w *World) stubDecode(ev *Ev) []*Out {
	e := ev.e
	w.r.count("decoder calls", 1)
	var outs []*Out
	crcs := []*V{vUnknown(ev.fn.Signature.Results().At(0).Type(), 0)}
	if w.crcGot != nil {
		crcs = w.crcGot(ev)
	}
	fin := func(st *State, ok bool, crc *V) {
		for _, f := range w.errFields() {
			v := vNilErr()
			if !ok {
				v = vErr(ecOther)
			}
			e.setField(w.p, st, ev.args[0], "Lha", f, v)
		}
		for i, a := range ev.args {
			if i > 0 && a.k == KPtr {
				if pt, isP := ev.fn.Params[i].Type().Underlying().(*types.Pointer); isP {
					if _, _, isI := intInfo(pt.Elem()); isI {
						e.store(st, a, pt.Elem(), &V{k: KInt, lo: 0, hi: 1<<32 - 1})
					}
				}
			}
		}
		o := &Out{st: st, res: []*V{crc}}
		if w.decode != nil {
			w.decode(ev, o, ok)
		}
		outs = append(outs, o)
	}
	for _, c := range crcs {
		st := ev.st.clone()
		st.note("%s: member decoded", ev.pos())
		fin(st, true, c)
	}
	st := ev.st.clone()
	st.note("%s: decoding fails", ev.pos())
	fin(st, false, vUnknown(ev.fn.Signature.Results().At(0).Type(), 0))
	return outs
}

func (w *World) stubEncode(ev *Ev) []*Out {
	e := ev.e
	w.r.count("encoder calls", 1)
	a, b := ev.st.clone(), ev.st.clone()
	a.note("%s: file compressed", ev.pos())
	b.note("%s: compressing fails", ev.pos())
	for i, x := range ev.args {
		if x.k != KPtr || i == 0 {
			continue
		}
		if pt, ok := ev.fn.Params[i].Type().Underlying().(*types.Pointer); ok {
			if _, _, isI := intInfo(pt.Elem()); isI {
				e.store(a, x, pt.Elem(), vRange(0, 1<<40))
			}
		}
	}
	o1 := &Out{st: a, res: []*V{vRange(0, 65535), vNilErr()}}
	o2 := &Out{st: b, res: []*V{vRange(0, 65535), vErr(ecOther)}}
	if w.encode != nil {
		w.encode(ev, o1, true)
		w.encode(ev, o2, false)
	}
	return []*Out{o1, o2}
}

// start makes a run with a handle in any state earlier operations may leave
func (w *World) start() *Run {
	en := w.cfg.Enter
	w.cfg.Enter = func(ev *Ev) []*Out {
		if en != nil {
			if o := en(ev); o != nil {
				return o
			}
		}
		return w.onEnter(ev)
	}
	r := NewRun(w.p, w.cfg, w.fresh)
	r.rep = w.r
	w.cfg.Enter = nil // the constructor is analysed as it is
	ok := r.newLha()
	w.cfg.Enter = func(ev *Ev) []*Out {
		if en != nil {
			if o := en(ev); o != nil {
				return o
			}
		}
		return w.onEnter(ev)
	}
	if !ok {
		w.r.bad("anchor", "NewLha", "the constructor of the handle cannot be analysed", nil)
		return nil
	}
	w.lhaV = r.lha
	s := w.p.lib.Type("Lha").Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if v, ok := w.fields[f.Name()]; ok {
			r.e.setField(w.p, r.st, r.lha, "Lha", f.Name(), v)
			continue
		}
		if f.Exported() || w.keep {
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && !w.keep {
				r.e.setField(w.p, r.st, r.lha, "Lha", f.Name(), vBoolAny())
				if !w.corr[f.Name()] {
					for _, a := range r.e.fieldAddr(r.lha, i).tg {
						r.e.free[a] = true
					}
				}
			}
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Basic, *types.Interface:
			v := vUnknown(f.Type(), labStale)
			if f.Name() == "archiveName" {
				continue
			}
			r.e.setField(w.p, r.st, r.lha, "Lha", f.Name(), v)
		case *types.Pointer:
			o := r.e.obj("stale:"+f.Name(), func(o *Obj) {
				o.lazy, o.lab, o.typ = true, labStale, f.Type().Underlying().(*types.Pointer).Elem()
			})
			r.e.setField(w.p, r.st, r.lha, "Lha", f.Name(), &V{k: KPtr, nn: nonNil, tg: []Addr{{o.id, 0}}, lab: labStale})
		}
	}
	dir := vSymStr("ExtractDirectory", 0, 0)
	dir.id = "ExtractDirectory"
	if _, ok := w.fields["ExtractDirectory"]; !ok {
		r.e.setField(w.p, r.st, r.lha, "Lha", "ExtractDirectory", dir)
	}
	if _, ok := w.globals["Quiet"]; !ok && !w.corr["Quiet"] {
		if g := r.global("Quiet"); g != nil {
			r.e.free[Addr{r.e.globalObj(g).id, 0}] = true
		}
	}
	for n, v := range w.globals {
		if !r.setGlobal(n, v) {
			w.r.bad("anchor", n, "package variable not found", nil)
		}
	}
	if w.cmdFiles != nil {
		r.e.setField(w.p, r.st, r.lha, "Lha", "CmdFilev", r.strSlice("cmdfilev", w.cmdFiles...))
		r.e.setField(w.p, r.st, r.lha, "Lha", "CmdFilec", vInt(int64(len(w.cmdFiles))))
	} else {
		r.e.setField(w.p, r.st, r.lha, "Lha", "CmdFilec", vInt(0))
	}
	if w.prepare != nil {
		w.prepare(r)
	}
	return r
}

// arguments of an API entry, by type
func (w *World) args(r *Run, fn *ssa.Function) []*V {
	var as []*V
	for _, pa := range fn.Params {
		t := pa.Type()
		switch {
		case types.Identical(t, types.NewPointer(w.p.lib.Type("Lha").Type())):
			as = append(as, r.lha)
		case types.Identical(t, types.NewPointer(w.p.lib.Type("LzHeader").Type())):
			o := r.e.obj("argHeader", func(o *Obj) { o.lazy = true; o.typ = w.p.lib.Type("LzHeader").Type() })
			as = append(as, vPtr(Addr{o.id, 0}))
		case isStringType(t):
			n := "arg"
			if strings.Contains(strings.ToLower(pa.Name()), "archive") {
				n = "archive"
			}
			v := vSymStr(n, 0, 0)
			v.id = n
			v.ln = vRange(1, 1<<20)
			as = append(as, v)
		default:
			if sl, ok := t.Underlying().(*types.Slice); ok {
				o := r.e.obj("argSlice:"+pa.Name(), func(o *Obj) { o.lazy = true; o.lab = labBody })
				_ = sl
				as = append(as, &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vRange(0, 1<<40), lab: labBody})
				continue
			}
			as = append(as, vUnknown(t, 0))
		}
	}
	return as
}

// run analyses one API entry and returns its outcomes
func (w *World) run(entry string) (*Run, []*Out) {
	r := w.start()
	if r == nil {
		return nil, nil
	}
	fn := r.fn(entry)
	if fn == nil {
		w.r.bad("anchor", entry, "API entry not found", nil)
		return r, nil
	}
	outs := r.call(fn, w.args(r, fn)...)
	w.r.count("entries", 1)
	w.r.absorb(r)
	if len(outs) == 0 {
		w.r.bad("anchor", entry, "the analysis finds no way through this entry", nil)
	}
	if debugOuts {
		fmt.Printf("-- %s: %d outcomes\n", entry, len(outs))
		for _, o := range outs {
			fmt.Println("   ", o.res, o.panic, o.st.tsk)
		}
	}
	return r, outs
}

var debugOuts = false

// the error result of an outcome: nil, non-nil or both
func errOf(fn *ssa.Function, o *Out) *V {
	rs := fn.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErrorType(rs.At(i).Type()) && i < len(o.res) {
			return o.res[i]
		}
	}
	return nil
}

var mutating = map[string]bool{"create": true, "createtemp": true, "mkdir": true, "remove": true, "removeall": true, "rename": true, "symlink": true, "link": true,
	"chmod": true, "chown": true, "chtimes": true, "truncpath": true, "writefile": true, "truncate": true, "fchmod": true, "chdir": true, "env": true}

// does the operation change the file system?
func (ev *Ev) mutates() bool {
	if mutating[ev.op] {
		return true
	}
	if ev.op == "openfile" {
		if c, ok := ev.args[1].isConst(); ok && c&(1|2|0x40|0x200|0x400) == 0 {
			return false
		}
		return true
	}
	if ev.op == "write" || ev.op == "copy" || ev.op == "copyn" {
		h := ev.h
		if ev.op != "write" {
			h = ev.e.handlesOf(ev.st, ev.args[0])
		}
		for _, o := range h {
			switch o.fileOf {
			case "create", "openfile", "createtemp", "open":
				return true
			}
		}
	}
	return false
}
