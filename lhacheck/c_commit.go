package main

import (
	"fmt"
	"strings"
)

func init() {
	checks["C09"] = &check{
		rule:   "typestate of the archive under construction: on every path through every adding entry, with every operation failing in turn and with panics, the only operations on files are those of a temporary file, which is renamed only after it was closed without error and only if no write, read or compression failed before, and which is removed on every path that does not install it; the old archive is never opened for writing, truncated or removed, and is renamed only to make the requested backup of it",
		assume: []string{"the effects and path arguments of standard library operations are those of the checker's table", "os.Rename replaces its target atomically and os.Remove succeeds on the temporary file"},
		run:    atomic,
	}
	checks["C10"] = &check{
		rule:   "typestate per source file: a source file is removed only if deleting was asked for, after the new archive was installed without error and after that very file was written to it; without the setting nothing but the temporary file is ever removed",
		assume: []string{"the effects and path arguments of standard library operations are those of the checker's table"},
		run:    moved,
	}
}

var addEntries = []string{"CommandAdd", "Compress", "CompressBytes"}

func isTempName(v *V) bool { return v.k == KStr && nameKey(v) == "<name:createtemp>" }

// handles an operation writes to
func writesTo(ev *Ev) []*Obj {
	switch ev.op {
	case "write", "truncate", "seek", "flush":
		return ev.h
	case "copy", "copyn":
		return ev.e.handlesOf(ev.st, ev.args[0])
	}
	return nil
}

func readsFrom(ev *Ev) []*Obj {
	switch ev.op {
	case "read", "readbyte", "readfull", "readall":
		return ev.h
	case "copy", "copyn":
		return ev.e.handlesOf(ev.st, ev.args[1])
	}
	return nil
}

func hasKind(h []*Obj, kinds ...string) bool {
	for _, o := range h {
		for _, k := range kinds {
			if o.fileOf == k {
				return true
			}
		}
	}
	return false
}

func failed(o *Out) bool { return o.tag == "fail" || o.tag == "ueof" || o.tag == "eof" }

// track follows the temporary file of an adding entry in the typestate:
// tmp = open, closed, gone, installed; broken = what went wrong before
func track(w *World, s string, strict bool, bad func(ev *Ev, rule, at, msg string)) {
	r := w.r
	dead := func(st *State, what string) {
		if st.get("tmp") == "open" {
			st.set("broken", what)
		}
	}
	w.cfg.Before = func(ev *Ev) {
		st := ev.st
		if h := writesTo(ev); ev.op != "seek" && hasKind(h, "open", "create", "openfile") {
			bad(ev, "write", ev.name, "writes to a file that is not the temporary archive")
		}
		switch ev.op {
		case "create", "openfile", "writefile", "truncpath", "symlink", "link", "mkdir", "removeall":
			if ev.mutates() {
				bad(ev, "write", ev.name, "changes a file that is not the temporary archive")
			}
		case "rename":
			r.count("renames", 1)
			switch {
			case isTempName(ev.args[0]):
				if b := st.get("broken"); b != "" {
					bad(ev, "install", "rename", "installs the new archive although "+b)
				} else if t := st.get("tmp"); t != "closed" {
					bad(ev, "install", "rename", "installs the new archive while it is "+t+", not closed")
				}
			case nameKey(ev.args[0]) == "<archive>" && !isTempName(ev.args[1]):
				r.count("backups", 1)
				if st.get("tmp") != "closed" || st.get("broken") != "" {
					bad(ev, "install", "backup", "moves the old archive away before the new one is complete")
				}
				if c, ok := ev.e.fieldOf(w.p, st, w.lhaV, "Lha", "BackupOldArchive").isConst(); ok && c == 0 {
					bad(ev, "install", "backup", "moves the old archive away although no backup was asked for")
				}
			default:
				bad(ev, "install", "rename", fmt.Sprintf("renames %v to %v", nameKey(ev.args[0]), nameKey(ev.args[1])))
			}
		}
	}
	w.cfg.After = func(ev *Ev, o *Out) bool {
		st := o.st
		switch ev.op {
		case "createtemp":
			if o.tag == "ok" {
				r.count("temporary files", 1)
				if t := st.get("tmp"); t == "open" || t == "closed" {
					bad(ev, "leftover", "temporary file", "makes a second temporary file and forgets the first")
				}
				st.set("tmp", "open")
				st.set("broken", "")
			}
		case "close":
			if hasKind(ev.h, "createtemp") && st.get("tmp") == "open" {
				st.set("tmp", "closed")
				if o.tag != "ok" {
					st.set("broken", "closing it failed at "+ev.pos())
				}
			}
		case "rename":
			if isTempName(ev.args[0]) && o.tag == "ok" {
				st.set("tmp", "installed")
			}
		case "remove":
			if isTempName(ev.args[0]) {
				if o.tag != "ok" {
					return false
				}
				if st.get("tmp") != "installed" {
					st.set("tmp", "gone")
				}
			}
		default:
			if failed(o) {
				if hasKind(writesTo(ev), "createtemp") {
					dead(st, "writing it failed at "+ev.pos())
				}
				if o.tag == "fail" && hasKind(readsFrom(ev), "open") || o.tag != "ok" && (ev.op == "copyn") {
					dead(st, "reading the old archive or a file failed at "+ev.pos())
				}
			}
		}
		return true
	}
	w.header = func(ev *Ev, o *Out, kind string) {
		if kind == "error" {
			dead(o.st, "the old archive could not be read at "+ev.pos())
		}
	}
	w.encode = func(ev *Ev, o *Out, ok bool) {
		if !ok {
			dead(o.st, "compressing failed at "+ev.pos())
		}
	}
	w.write = func(ev *Ev, o *Out) {
		if o.tag == "ok" {
			o.st.set("added", "1")
		}
	}
}

func atomic(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range addEntries {
		for m := 0; m < 4; m++ {
			jobs = append(jobs, func(r *Report) {
				sc := scenario{s, map[string]*V{"Noexec": vBool(false), "BackupOldArchive": vBool(m&1 != 0), "DeleteAfterAppend": vBool(false)}, map[string]*V{"VerifyMode": vBool(false)}, 1, "adding"}
				w := sc.world(p, r)
				w.fields["RecursiveArchiving"] = vBool(m&2 != 0)
				panicking(w)
				track(w, s, true, func(ev *Ev, rule, at, msg string) {
					r.bad(rule, s+" "+at+" in "+ev.act.fn.Name(), fmt.Sprintf("%s: %s (%s) %s", s, ev.pos(), ev.act.chain(), msg), ev.st.trace(25))
				})
				old := w.cfg.Before
				w.cfg.Before = func(ev *Ev) {
					old(ev)
					if ev.op == "remove" && !isTempName(ev.args[0]) {
						r.bad("write", s+" remove in "+ev.act.fn.Name(), fmt.Sprintf("%s: %s (%s) removes %s", s, ev.pos(), ev.act.chain(), nameKey(ev.args[0])), ev.st.trace(25))
					}
				}
				run, outs := w.run(s)
				if run == nil {
					return
				}
				for _, o := range outs {
					t := o.st.get("tmp")
					e := errOf(run.fn(s), o)
					r.count("returns examined", 1)
					r.ob("%s: return with temporary file %q", s, t)
					if t == "open" || t == "closed" {
						r.bad("leftover", s, fmt.Sprintf("%s can return while its temporary file is %s and neither installed nor removed", s, t), o.st.trace(25))
					}
					if t == "installed" {
						r.count("installing returns", 1)
					}
					if !o.panic && e != nil && e.nn&isNil != 0 && o.st.get("added") != "" && t != "installed" {
						r.bad("lost", s, fmt.Sprintf("%s returns without error after writing a member but does not install the archive", s), o.st.trace(25))
					}
				}
			})
		}
	}
	r.parallel(jobs...)
	r.need("entries", 12)
	r.need("temporary files", 12)
	r.need("renames", 12)
	r.need("backups", 3)
	r.need("installing returns", 12)
}

func moved(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range addEntries {
		for m := 0; m < 4; m++ {
			del, upd := m%2 != 0, m/2 == 1
			nf, src := 1, "<src0>"
			if s != "CommandAdd" {
				nf, src = 0, "<arg>"
			}
			jobs = append(jobs, func(r *Report) {
				sc := scenario{s, map[string]*V{"Noexec": vBool(false), "BackupOldArchive": vBool(false), "DeleteAfterAppend": vBool(del), "UpdateIfNewer": vBool(upd)}, map[string]*V{"VerifyMode": vBool(false)}, nf, "adding"}
				w := sc.world(p, r)
				w.fields["RecursiveArchiving"] = vBool(false)
				w.kinds = memberKinds[:4]
				panicking(w)
				track(w, s, false, func(*Ev, string, string, string) {})
				before, after := w.cfg.Before, w.cfg.After
				w.cfg.Before = func(ev *Ev) {
					before(ev)
					if ev.op != "remove" && ev.op != "removeall" || isTempName(ev.args[0]) {
						return
					}
					n := nameKey(ev.args[0])
					at := s + " removes in " + ev.act.fn.Name()
					msg := func(f string, a ...interface{}) {
						r.bad("remove", at, fmt.Sprintf("%s: %s (%s) removes %s ", s, ev.pos(), ev.act.chain(), n)+fmt.Sprintf(f, a...), ev.st.trace(25))
					}
					r.count("removals of sources", 1)
					r.ob("%s: removal of %s at %s", s, n, ev.pos())
					switch {
					case !del:
						msg("although deleting was not asked for")
					case n != src:
						msg("which is none of the files to archive")
					case ev.st.get("tmp") != "installed":
						msg("before the new archive is in place")
					case ev.st.get("arch") == "" && !upd:
						msg("which was not written to the archive")
					case ev.st.get("seen") == "":
						msg("which was not looked at")
					}
				}
				w.cfg.After = func(ev *Ev, o *Out) bool {
					switch ev.op {
					case "lstat", "open":
						if strings.HasPrefix(o.tag, "ok") && nameKey(ev.args[0]) == src {
							o.st.set("seen", "1")
						}
					case "write":
						if ev.name == "WriteHeader" && o.tag == "ok" && o.st.get("seen") != "" {
							o.st.set("arch", "1")
						}
					}
					return after(ev, o)
				}
				w.run(s)
			})
		}
	}
	r.parallel(jobs...)
	r.need("entries", 12)
	r.need("removals of sources", 4)
}
