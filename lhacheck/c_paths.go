package main

import (
	"fmt"
	"strings"
)

func init() {
	checks["C06"] = &check{
		rule: "string-shape dataflow: on every path of the extracting entries, the file name handed to an operation that changes the file system is the extraction directory (or nothing) followed by exactly one path element that contains no slash and is none of \"\", \".\", \"..\"; and a file is opened for writing only after an lstat of that very name found a regular file or nothing there",
		assume: []string{"the effects and path arguments of standard library operations are those of the checker's table",
			"no other process changes the extraction directory between the lstat and the open"},
		run: confined,
	}
	checks["C18"] = &check{
		rule: "typestate per member: with force off, an operation that replaces or removes a file is reached only if an lstat of that name found nothing, or the answer read for this member was Y/y, or A/a was answered before; every answer and end of input is explored",
		assume: []string{"the effects and path arguments of standard library operations are those of the checker's table",
			"no other process creates the file between the lstat and the open"},
		run: consent,
	}
}

// the path arguments of a mutating operation
func pathArgs(ev *Ev) []*V {
	a := ev.args
	switch ev.op {
	case "symlink":
		return a[1:2]
	case "rename", "link":
		return a[:2]
	case "create", "openfile", "mkdir", "remove", "removeall", "chmod", "chown", "chtimes", "truncpath", "writefile", "createtemp", "chdir":
		if len(a) > 0 && a[0].k != KPtr {
			return a[:1]
		}
	}
	return nil
}

func nameKey(v *V) string {
	if v.k != KStr {
		return v.String()
	}
	var sb strings.Builder
	for _, p := range v.ps {
		if p.sym != "" {
			fmt.Fprintf(&sb, "<%s>", p.sym)
		} else {
			sb.WriteString(p.c)
		}
	}
	return sb.String()
}

// isConfined: dir is "" or the symbol standing for the extraction directory
func isConfined(v *V, dir string, isDir bool) bool {
	if v.k != KStr {
		return false
	}
	ps := v.ps
	if dir == "" {
		if isDir && len(ps) == 1 && ps[0].sym == "" && ps[0].c == "." {
			return true
		}
		return len(ps) == 1 && ordinary(ps[0])
	}
	if len(ps) == 0 || ps[0].sym != dir {
		return false
	}
	if len(ps) == 1 {
		return isDir
	}
	if len(ps) == 2 && ps[1].sym == "" { // a constant element
		e := strings.TrimPrefix(ps[1].c, "/")
		return e != ps[1].c && e != "" && e != "." && e != ".." && !strings.Contains(e, "/")
	}
	return len(ps) == 3 && ps[1].sym == "" && ps[1].c == "/" && ordinary(ps[2])
}

func ordinary(p Piece) bool {
	if p.sym == "" {
		return p.c != "" && p.c != "." && p.c != ".." && !strings.Contains(p.c, "/")
	}
	return p.fl&(fNoSlash|fNonDot) == fNoSlash|fNonDot
}

// forget what was learnt about the previous member
func clearMember(st *State, keep ...string) {
	var ks []string
	for k := range st.ts {
		if strings.HasPrefix(k, "ls:") || k == "nm" || k == "ans" {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		st.set(k, "")
	}
}

// noteLstat remembers what an lstat told; asked again, it tells the same
func noteLstat(ev *Ev, o *Out) bool {
	if ev.op == "lstat" && len(ev.args) > 0 && ev.args[0].k == KStr {
		k := "ls:" + nameKey(ev.args[0])
		if old := ev.st.get(k); old != "" && old != "made" && old != o.tag {
			return false
		}
		o.st.set(k, o.tag)
	}
	return true
}

func extractWorld(p *Program, r *Report, dir string) *World {
	w := newWorld(p, r)
	w.kinds = memberKinds
	w.cfg.SplitNames = true
	w.cfg.StatKinds = true
	w.globals["VerifyMode"] = vBool(false)
	w.fields["OutputToStdout"] = vBool(false)
	w.fields["Noexec"] = vBool(false)
	if dir == "" {
		w.fields["ExtractDirectory"] = vStr("")
	} else {
		v := vSymStr(dir, 0, 0)
		v.id = dir
		v.ln = vRange(1, 1<<20)
		w.fields["ExtractDirectory"] = v
	}
	w.header = func(ev *Ev, o *Out, kind string) { clearMember(o.st) }
	return w
}

var extractEntries = []string{"CommandExtract", "Decompress"}

func confined(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range extractEntries {
		for _, dir := range []string{"", "ExtractDirectory"} {
			for _, k := range memberKinds {
				jobs = append(jobs, func(r *Report) {
					w := extractWorld(p, r, dir)
					w.kinds = []memberKind{k}
					w.cfg.After = func(ev *Ev, o *Out) bool {
						if !noteLstat(ev, o) {
							return false
						}
						if o.tag == "ok" && (ev.op == "create" || ev.op == "symlink" || ev.op == "mkdir") {
							for _, a := range pathArgs(ev) {
								o.st.set("ls:"+nameKey(a), "made")
							}
						}
						return true
					}
					w.cfg.Before = func(ev *Ev) {
						if !ev.mutates() {
							return
						}
						for _, a := range pathArgs(ev) {
							r.count("path arguments", 1)
							r.ob("%s: %s at %s", s, ev.name, ev.pos())
							if !isConfined(a, dir, ev.op == "mkdir" || ev.op == "createtemp") {
								r.bad("confine", fmt.Sprintf("%s in %s", ev.name, ev.act.fn.Name()), fmt.Sprintf("%s (%s): the name %s may lead outside the extraction directory (member kind %q)", ev.pos(), ev.act.chain(), a, k.name), ev.st.trace(20))
							}
							ls := ev.st.get("ls:" + nameKey(a))
							switch ev.op {
							case "create", "openfile", "writefile", "truncpath":
								if ls != "ok:reg" && ls != "notexist" && ls != "fail" && ls != "made" {
									r.bad("symlink", fmt.Sprintf("%s in %s", ev.name, ev.act.fn.Name()), fmt.Sprintf("%s (%s): %s is opened for writing although it may be a symbolic link or device (lstat: %q, member kind %q)", ev.pos(), ev.act.chain(), a, ls, k.name), ev.st.trace(20))
								}
							case "chmod", "chtimes":
								if ls == "ok:link" {
									r.bad("symlink", fmt.Sprintf("%s in %s", ev.name, ev.act.fn.Name()), fmt.Sprintf("%s (%s): %s is a symbolic link and followed", ev.pos(), ev.act.chain(), a), ev.st.trace(20))
								}
							}
						}
					}
					w.run(s)
				})
			}
		}
	}
	r.parallel(jobs...)
	r.need("entries", 40)
	r.need("op create", 4)
	r.need("op symlink", 4)
	r.need("op mkdir", 4)
	r.need("path arguments", 20)
}

func consent(p *Program, r *Report) {
	var jobs []func(*Report)
	for _, s := range extractEntries {
		for _, k := range memberKinds {
			jobs = append(jobs, func(r *Report) {
				w := extractWorld(p, r, "")
				w.kinds = []memberKind{k}
				w.cfg.Answers = []string{"Y\n", "y\n", "N\n", "n\n", "A\n", "a\n", "S\n", "s\n", "\n", "x\n"}
				w.fields["Force"] = vBool(false)
				w.cfg.After = func(ev *Ev, o *Out) bool {
					if !noteLstat(ev, o) {
						return false
					}
					if ev.op == "readstring" {
						r.count("answers", 1)
						switch a := o.st.get("ans"); a {
						case "A\n", "a\n":
							o.st.set("all", "1")
						}
					}
					if o.tag == "ok" && (ev.op == "create" || ev.op == "symlink" || ev.op == "mkdir") {
						for _, a := range pathArgs(ev) {
							o.st.set("ls:"+nameKey(a), "made")
						}
					}
					return true
				}
				w.cfg.Before = func(ev *Ev) {
					switch ev.op {
					case "create", "openfile", "writefile", "truncpath", "remove", "removeall", "rename":
					case "chmod", "chown", "chtimes":
					default:
						return
					}
					if !ev.mutates() {
						return
					}
					for _, a := range pathArgs(ev) {
						r.ob("%s: %s at %s", s, ev.name, ev.pos())
						ls := ev.st.get("ls:" + nameKey(a))
						ans := ev.st.get("ans")
						r.count("replacing operations", 1)
						switch {
						case ls == "made" || ls == "notexist" || ls == "fail":
						case ans == "Y\n" || ans == "y\n" || ev.st.get("all") != "":
						case ls == "" && (ev.op == "chmod" || ev.op == "chown" || ev.op == "chtimes"):
							// directories made earlier get their attributes last
						case ls == "ok:dir" && (ev.op == "chmod" || ev.op == "chown" || ev.op == "chtimes"):
						default:
							r.bad("consent", fmt.Sprintf("%s in %s", ev.name, ev.act.fn.Name()), fmt.Sprintf("%s (%s): %s is replaced although it exists (lstat: %q) and the user agreed neither to this file nor to all (answer %q, member kind %q)", ev.pos(), ev.act.chain(), a, ls, ans, k.name), ev.st.trace(20))
						}
					}
				}
				w.run(s)
			})
		}
	}
	r.parallel(jobs...)
	r.need("entries", 20)
	r.need("answers", 20)
	r.need("replacing operations", 8)
}
