package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = &check{
		rule: "fault-injection dataflow: on every path through every public entry, every codec and the header reader and writer, an operation on files or streams that fails (each in turn) makes the call return a non-nil error",
		assume: []string{"the outcomes of standard library operations are those of the checker's table",
			"failures that lose no data are exempt: setting a file's time, mode or owner, looking a name up, closing a file that was only read, removing the temporary file, an answer that cannot be read, and a missing archive when adding"},
		run: surfaced,
	}
}

// loses tells whether an outcome of an operation loses data
func loses(ev *Ev, o *Out) string {
	bad := o.tag == "fail" || o.tag == "ueof" || o.tag == "eof" || o.tag == "notexist"
	if !bad {
		return ""
	}
	if o.tag != "fail" && hasKind(readsFrom(ev), "source") {
		return "" // the end of the file to archive
	}
	for _, h := range ev.h {
		if h.fileOf == "stdin" || h.fileOf == "stdout" || h.fileOf == "stderr" {
			return ""
		}
	}
	switch ev.op {
	case "open", "openfile", "create", "createtemp", "mkdir", "readdir", "readlink", "writefile", "truncpath",
		"write", "copyn", "seek", "truncate", "rename", "readfull", "flush":
		return ev.name + " fails at " + ev.pos()
	case "read", "readbyte", "readall", "copy":
		if o.tag == "fail" || o.tag == "ueof" {
			return ev.name + " fails at " + ev.pos()
		}
	case "symlink":
		return ev.name + " fails at " + ev.pos()
	case "close":
		if hasKind(ev.h, "create", "openfile", "createtemp") {
			return ev.name + " fails at " + ev.pos()
		}
	case "remove", "removeall":
		if strings.HasPrefix(nameKey(ev.args[0]), "<src") && !isTempName(ev.args[0]) {
			return ev.name + " fails at " + ev.pos()
		}
	}
	return ""
}

func fired(r *Report, what string) func(ev *Ev, o *Out) bool {
	return func(ev *Ev, o *Out) bool {
		if w := loses(ev, o); w != "" {
			if o.st.get("closed") != "" && ev.op == "close" {
				return true
			}
			r.count("failures injected", 1)
			r.ob("%s: %s", what, w)
			if o.st.get("fired") == "" {
				o.st.set("fired", w)
			}
			o.st.note("%s", w)
		}
		return true
	}
}

func surfaced(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range allEntries() {
		jobs = append(jobs, func(r *Report) {
			w := s.world(p, r)
			f := fired(r, s.entry)
			w.cfg.After = func(ev *Ev, o *Out) bool {
				switch ev.op {
				case "open":
					if o.tag == "notexist" && s.files > 0 && nameKey(ev.args[0]) == "<archive>" {
						return true
					}
				case "symlink":
					if o.tag == "ok" && o.st.get("fired") == "symlink" {
						o.st.set("fired", "")
					} else if o.tag != "ok" && o.st.get("fired") == "" {
						o.st.set("fired", "symlink")
						o.st.note("%s fails at %s", ev.name, ev.pos())
					}
					return true
				case "close":
					if hasKind(ev.h, "create", "openfile", "createtemp") {
						k := fmt.Sprint("closed:", ev.h[0].id)
						if o.st.get(k) != "" {
							return true
						}
						o.st.set(k, "1")
					}
				}
				return f(ev, o)
			}
			set := func(o *Out, what string) {
				r.count("failures injected", 1)
				if o.st.get("fired") == "" {
					o.st.set("fired", what)
				}
			}
			w.header = func(ev *Ev, o *Out, kind string) {
				if kind == "error" {
					set(o, "a header cannot be read at "+ev.pos())
				}
			}
			w.decode = func(ev *Ev, o *Out, ok bool) {
				if !ok {
					set(o, "decoding fails at "+ev.pos())
				}
			}
			w.encode = func(ev *Ev, o *Out, ok bool) {
				if !ok {
					set(o, "compressing fails at "+ev.pos())
				}
			}
			run, outs := w.run(s.entry)
			if run == nil {
				return
			}
			silent(r, run.fn(s.entry), s.entry+" "+s.what, outs, nil)
		})
	}
	for _, m := range decodeMethods {
		jobs = append(jobs, func(r *Report) {
			w := codecWorld(p, r)
			w.globals["VerifyMode"] = vBool(false)
			w.cfg.After = fired(r, fmt.Sprintf("DecodeLzhuf method %d", m))
			run := w.start()
			if run == nil {
				return
			}
			outs := decodeCall(w, run, m)
			r.absorb(run)
			silent(r, run.fn("DecodeLzhuf"), fmt.Sprintf("DecodeLzhuf method %d", m), outs, func(o *Out) *V {
				for _, f := range w.errFields() {
					if v := run.e.fieldOf(p, o.st, run.lha, "Lha", f); v != nil {
						return v
					}
				}
				return nil
			})
		})
	}
	for _, m := range encodeMethods {
		jobs = append(jobs, func(r *Report) {
			w := codecWorld(p, r)
			w.globals["VerifyMode"] = vBool(false)
			w.cfg.After = fired(r, fmt.Sprintf("EncodeLzhuf method %d", m))
			run := w.start()
			if run == nil {
				return
			}
			outs := encodeCall(w, run, m)
			r.absorb(run)
			silent(r, run.fn("EncodeLzhuf"), fmt.Sprintf("EncodeLzhuf method %d", m), outs, nil)
		})
	}
	jobs = append(jobs, func(r *Report) {
		w := newWorld(p, r)
		w.realHeader = true
		f := fired(r, "GetHeader")
		w.cfg.After = func(ev *Ev, o *Out) bool {
			switch ev.op {
			case "read", "readbyte", "readfull", "readall", "copyn", "copy":
				if o.tag == "ok" {
					o.st.set("begun", "1")
				} else if o.st.get("begun") == "" && o.tag != "fail" {
					return true // the archive ends here
				} else if o.st.get("fired") == "" {
					r.count("failures injected", 1)
					o.st.set("fired", ev.name+" fails at "+ev.pos())
				}
			}
			return f(ev, o)
		}
		run := w.start()
		if run == nil {
			return
		}
		outs := hdrCall(w, run)
		r.absorb(run)
		silent(r, run.fn("GetHeader"), "GetHeader", outs, nil)
	})
	for lv := 0; lv < 3; lv++ {
		jobs = append(jobs, func(r *Report) {
			w := newWorld(p, r)
			w.realWrite = true
			w.cfg.After = fired(r, "WriteHeader")
			run := w.start()
			if run == nil {
				return
			}
			outs := writeCall(w, run, int64(lv))
			r.absorb(run)
			silent(r, run.fn("WriteHeader"), fmt.Sprintf("WriteHeader level %d", lv), outs, nil)
		})
	}
	r.parallel(jobs...)
	r.need("failures injected", 200)
}

// writeCall analyses WriteHeader on any header of the given level
func writeCall(w *World, run *Run, lv int64) []*Out {
	fn := run.fn("WriteHeader")
	if fn == nil {
		w.r.bad("anchor", "WriteHeader", "not found", nil)
		return nil
	}
	h := run.e.obj("argHeader", func(o *Obj) { o.lazy = true; o.typ = w.p.lib.Type("LzHeader").Type() })
	run.e.setField(w.p, run.st, vPtr(Addr{h.id, 0}), "LzHeader", "HeaderLevel", vInt(lv))
	wr := run.e.obj("writerVar", func(o *Obj) {})
	run.e.store(run.st, vPtr(Addr{wr.id, 0}), fn.Params[0].Type().Underlying().(*types.Pointer).Elem(), ifaceOf(run, "archive"))
	return run.call(fn, vPtr(Addr{wr.id, 0}), vPtr(Addr{h.id, 0}))
}

func silent(r *Report, fn *ssa.Function, what string, outs []*Out, get func(*Out) *V) {
	for _, o := range outs {
		if o.panic {
			continue
		}
		r.count("returns examined", 1)
		var e *V
		if get != nil {
			e = get(o)
		} else {
			e = errOf(fn, o)
		}
		if e == nil {
			r.bad("anchor", what, "has no error to return", nil)
			return
		}
		if w := o.st.get("fired"); w != "" && e.nn&isNil != 0 {
			r.bad("silent", what+": "+w, fmt.Sprintf("%s reports success although %s", what, w), o.st.trace(25))
		}
	}
}
