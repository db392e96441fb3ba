package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var decodeMethods = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13}
var encodeMethods = []int64{0, 1, 5, 6, 7}

func init() {
	checks["C07"] = &check{
		rule: "effect analysis: from every listing, testing and print-to-stdout entry, over all member kinds and all settings, no operation that changes the file system is reachable; with testing on, the decoder of each method writes nothing to its output",
		assume: []string{"operations of the standard library have the effects listed in the checker's table",
			"standard output is not a file the user expects to be preserved"},
		run: func(p *Program, r *Report) { readOnly(p, r) },
	}
	checks["C08"] = &check{
		rule:   "effect analysis: with the dry-run setting on, no operation that changes the file system is reachable from any adding, extracting or listing entry, over all member kinds and all other settings",
		assume: []string{"operations of the standard library have the effects listed in the checker's table"},
		run:    func(p *Program, r *Report) { dryRun(p, r) },
	}
}

func forbidMutation(w *World, entry, what string) {
	w.cfg.Before = func(ev *Ev) {
		if ev.op == "" || ev.op == "mem" {
			return
		}
		w.r.ob("%s/%s: %s at %s in %s", entry, what, ev.op, ev.pos(), ev.act.fn.Name())
		if ev.mutates() {
			w.r.bad("effect", fmt.Sprintf("%s: %s in %s", entry, ev.name, ev.act.fn.Name()), fmt.Sprintf("%s (%s) is reached %s", ev.pos(), ev.act.chain(), what), ev.st.trace(20))
		}
	}
}

func readOnly(p *Program, r *Report) {
	type sc struct {
		entry string
		f     map[string]*V
		g     map[string]*V
		what  string
	}
	t, f := vBool(true), vBool(false)
	scs := []sc{
		{"CommandList", nil, nil, "while listing"},
		{"Headers", nil, nil, "while reading headers"},
		{"CommandExtract", map[string]*V{"OutputToStdout": f}, map[string]*V{"VerifyMode": t}, "while testing"},
		{"CommandExtract", map[string]*V{"OutputToStdout": t}, map[string]*V{"VerifyMode": f}, "while printing to standard output"},
		{"Decompress", map[string]*V{"OutputToStdout": f}, map[string]*V{"VerifyMode": t}, "while testing"},
		{"Decompress", map[string]*V{"OutputToStdout": t}, map[string]*V{"VerifyMode": f}, "while printing to standard output"},
		{"DecompresBytes", nil, nil, "while decoding to memory"},
	}
	var jobs []func(*Report)
	for _, s := range scs {
		jobs = append(jobs, func(r *Report) {
			w := newWorld(p, r)
			w.kinds = memberKinds
			for k, v := range s.f {
				w.fields[k] = v
			}
			for k, v := range s.g {
				w.globals[k] = v
			}
			forbidMutation(w, s.entry, s.what)
			w.run(s.entry)
		})
	}
	// header reading itself
	jobs = append(jobs, func(r *Report) {
		w := newWorld(p, r)
		w.realHeader = true
		forbidMutation(w, "GetHeader", "while reading a header")
		if run := w.start(); run != nil {
			hdrCall(w, run)
			r.absorb(run)
		}
	})
	// the decoders write nothing while testing
	for _, m := range decodeMethods {
		jobs = append(jobs, func(r *Report) {
			w := codecWorld(p, r)
			w.globals["VerifyMode"] = t
			run := w.start()
			if run == nil {
				return
			}
			w.cfg.Before = func(ev *Ev) {
				if ev.mutates() {
					r.bad("effect", fmt.Sprintf("DecodeLzhuf: %s in %s", ev.name, ev.act.fn.Name()), "changes the file system", ev.st.trace(20))
				}
				if ev.op != "write" && ev.op != "copy" && ev.op != "copyn" {
					return
				}
				h := ev.h
				if ev.op != "write" {
					h = ev.e.handlesOf(ev.st, ev.args[0])
				}
				for _, o := range h {
					if o.fileOf == "member-output" {
						r.bad("effect", fmt.Sprintf("testing writes in %s", ev.act.fn.Name()), fmt.Sprintf("%s (%s) writes member data while testing, method %d", ev.pos(), ev.act.chain(), m), ev.st.trace(20))
					}
				}
				r.ob("method %d: write at %s", m, ev.pos())
			}
			decodeCall(w, run, m)
			r.absorb(run)
			r.count("decoders", 1)
		})
	}
	r.parallel(jobs...)
	r.need("entries", 7)
	r.need("decoders", 13)
	r.need("decoder calls", 4)
	r.need("header reads", 4)
}

// codecWorld prepares the analysis of one codec run as it is
func codecWorld(p *Program, r *Report) *World {
	w := newWorld(p, r)
	w.realCodec = true
	w.cfg.Fast = false
	w.globals["Quiet"] = vBool(true)
	w.fields["DumpLzss"] = vBool(false)
	w.fields["Verbose"] = vBool(false)
	for _, n := range []string{"Noexec", "Force", "IgnoreDirectory", "OutputToStdout", "VerboseListing", "DecodeMacbinaryContents", "NewArchive", "UpdateIfNewer", "BackupOldArchive", "DeleteAfterAppend", "SortContents", "RecursiveArchiving", "ExtractBrokenArchive"} {
		w.fields[n] = vBool(false)
	}
	w.cfg.Unroll = func(*ssa.Function) int { return 4 }
	return w
}

// decodeCall analyses DecodeLzhuf for one method, reading from an archive
// handle and writing to an output handle.
func decodeCall(w *World, run *Run, m int64) []*Out {
	fn := run.fn("DecodeLzhuf")
	if fn == nil {
		w.r.bad("anchor", "DecodeLzhuf", "not found", nil)
		return nil
	}
	var as []*V
	ints := 0
	for i, pa := range fn.Params {
		t := pa.Type().String()
		switch {
		case i == 0:
			as = append(as, run.lha)
		case t == "io.Reader":
			as = append(as, ifaceOf(run, "member-input"))
		case t == "io.Writer":
			as = append(as, ifaceOf(run, "member-output"))
		case t == "*int":
			o := run.e.obj("readsize", func(o *Obj) { o.lazy = true })
			as = append(as, vPtr(Addr{o.id, 0}))
		case pa.Name() == "method" || t == "int" && ints == 2:
			as = append(as, vInt(m))
			ints++
		case t == "int":
			as = append(as, w.sizeArg(run, ints))
			ints++
		default:
			as = append(as, vUnknown(pa.Type(), 0))
		}
	}
	return run.call(fn, as...)
}

// sizes handed to the decoder: 0 original, 1 packed
func (w *World) sizeArg(run *Run, i int) *V {
	if i == 1 && w.packed != nil {
		return w.packed
	}
	return &V{k: KInt, lo: 0, hi: 1<<32 - 1, lab: labInput}
}

// an interface value holding an unknown stream
func ifaceOf(run *Run, name string) *V {
	o := run.e.obj("stream:"+name, func(o *Obj) { o.fileOf = name })
	return &V{k: KIface, nn: nonNil, dt: []types.Type{wrapType(name)}, dv: []*V{vPtr(Addr{o.id, 0})}}
}

func hdrCall(w *World, run *Run) []*Out {
	fn := run.fn("GetHeader")
	if fn == nil {
		w.r.bad("anchor", "GetHeader", "not found", nil)
		return nil
	}
	h := run.e.obj("argHeader", func(o *Obj) { o.lazy = true; o.typ = w.p.lib.Type("LzHeader").Type() })
	rd := run.e.obj("readerVar", func(o *Obj) {})
	run.e.store(run.st, vPtr(Addr{rd.id, 0}), fn.Params[1].Type().Underlying().(*types.Pointer).Elem(), ifaceOf(run, "archive"))
	return run.call(fn, vPtr(Addr{h.id, 0}), vPtr(Addr{rd.id, 0}))
}

func dryRun(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range []string{"CommandAdd", "Compress", "CompressBytes", "CommandExtract", "Decompress", "DecompresBytes"} {
		jobs = append(jobs, func(r *Report) {
			w := newWorld(p, r)
			w.kinds = memberKinds
			w.fields["Noexec"] = vBool(true)
			w.globals["VerifyMode"] = vBool(false)
			if s == "CommandAdd" || s == "Compress" || s == "CompressBytes" {
				w.kinds = memberKinds[:4]
				w.cmdFiles = []*V{vSymStr("src0", 0, 0)}
			} else {
				w.fields["OutputToStdout"] = vBool(false)
			}
			forbidMutation(w, s, "in a dry run")
			w.run(s)
		})
	}
	r.parallel(jobs...)
	r.need("entries", 6)
	r.need("header reads", 6)
}
