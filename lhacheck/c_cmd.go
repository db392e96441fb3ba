package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = &check{
		rule:   "constant propagation through the command: for every command and combination of its modifying flags, the library entry that main calls and the settings in force at that call are exactly those the flags ask for, and the exit status is zero only if that call returned no error",
		assume: []string{"package flag gives the variables the values of the command line"},
		run:    commandLine,
	}
}

func commandLine(p *Program, r *Report) {
	if p.main == nil || p.main.Func("main") == nil {
		r.bad("anchor", "main", "the command is not found", nil)
		return
	}
	type cmd struct {
		flags map[string]*V
		entry string
	}
	t, f := vBool(true), vBool(false)
	arg := func(s string) *V { v := vSymStr(s, 0, 0); v.id = s; v.ln = vRange(1, 1<<20); return v }
	cmds := []cmd{
		{map[string]*V{"l": t}, "CommandList"},
		{map[string]*V{"lv": t}, "CommandList"},
		{map[string]*V{"e": t}, "CommandExtract"},
		{map[string]*V{"p": t}, "CommandExtract"},
		{map[string]*V{"t": t}, "CommandExtract"},
		{map[string]*V{"a": arg("file")}, "CommandAdd"},
		{map[string]*V{"c": arg("file")}, "CommandAdd"},
		{map[string]*V{"d": t}, "CommadDelete"},
		{map[string]*V{}, ""},
	}
	bools := []string{"version", "l", "lv", "e", "u", "d", "m", "t", "v", "n", "f", "p"}
	var jobs []func(*Report)
	for _, c := range cmds {
		for m := 0; m < 64; m++ {
			if c.entry != "CommandAdd" && m&0b111100 != 0 {
				continue
			}
			set := map[string]*V{"a": vStr(""), "c": vStr(""), "x": vStr(""), "archive": arg("archive"), "g": vInt(2), "o": vInt(0), "h": vInt(2)}
			for _, b := range bools {
				set[b] = f
			}
			for k, v := range c.flags {
				set[k] = v
			}
			n, fo, mv, up, ex := m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0, m&16 != 0
			set["n"], set["f"], set["m"], set["u"] = vBool(n), vBool(fo), vBool(mv), vBool(up)
			if ex {
				set["x"] = arg("excluded")
			}
			if m&32 != 0 {
				set["o"] = vInt(6)
			}
			is := func(k string) bool { return c.flags[k] != nil }
			want := map[string]bool{"Noexec": n}
			wantG := map[string]bool{}
			if c.entry == "CommandExtract" {
				want["Force"] = fo
				want["OutputToStdout"] = is("p")
				want["IgnoreDirectory"] = false
				wantG["VerifyMode"] = is("t")
			}
			if c.entry == "CommandAdd" {
				want["DeleteAfterAppend"] = mv
				want["UpdateIfNewer"] = up
				want["NewArchive"] = is("c")
				want["BackupOldArchive"] = false
				wantG["TextMode"] = false
			}
			what := ""
			for _, k := range []string{"l", "lv", "e", "p", "t", "a", "c", "d", "n", "f", "m", "u", "x", "o"} {
				if v := set[k]; v.k == KInt && v.lo != 0 || v.k == KStr && v != nil && nameKey(v) != "" {
					what += " -" + k
				}
			}
			what = "lharc" + what
			jobs = append(jobs, func(r *Report) {
				cfg := &Config{Unroll: func(*ssa.Function) int { return 40 }, FlagVal: func(n string) *V { return set[n] }}
				run := NewRun(p, cfg, true)
				run.rep = r
				for k, v := range set {
					if o := run.e.objByKey["flag:"+k]; o != nil {
						run.e.store(run.st, vPtr(Addr{o.id, 0}), o.typ, v)
					}
				}
				called := false
				cfg.Enter = func(ev *Ev) []*Out {
					fn := ev.fn
					if fn.Name() == "MakeCrcTable" {
						return []*Out{{st: ev.st.clone()}}
					}
					if fn.Pkg != p.lib || fn.Signature.Recv() != nil || !strings.HasPrefix(fn.Name(), "Comma") {
						return nil
					}
					r.ob("%s calls %s", what, fn.Name())
					if fn.Name() != c.entry {
						r.bad("entry", what, fmt.Sprintf("%s calls %s", what, fn.Name()), nil)
					}
					called = true
					r.count("settings in force", 1)
					lhaV := ev.args[len(ev.args)-1]
					chk := func(name string, v *V, w bool) {
						if v == nil || v.k != KInt || v.lo != v.hi || (v.lo != 0) != w {
							r.bad("setting", what+" "+name, fmt.Sprintf("%s: %s is %v when %s is called at %s, not %v", what, name, v, fn.Name(), ev.pos(), w), nil)
						}
					}
					for k, w := range want {
						chk(k, ev.e.fieldOf(p, ev.st, lhaV, "Lha", k), w)
					}
					for k, w := range wantG {
						chk(k, run.getGlobal(ev.st, k), w)
					}
					if a := ev.args[0]; nameKey(a) != "<archive>" {
						r.bad("setting", what+" archive", fmt.Sprintf("%s works on %v", what, a), nil)
					}
					length := func(v *V) int64 {
						if v == nil || v.ln == nil || v.ln.lo != v.ln.hi {
							return -1
						}
						return v.ln.lo
					}
					if c.entry == "CommandAdd" {
						fv := ev.e.fieldOf(p, ev.st, lhaV, "Lha", "CmdFilev")
						fc := ev.e.fieldOf(p, ev.st, lhaV, "Lha", "CmdFilec")
						if length(fv) != 1 || fc.lo != 1 || fc.hi != 1 {
							r.bad("setting", what+" files", fmt.Sprintf("%s: the files to archive are %v (%v)", what, fv, fc), nil)
						} else if x := ev.e.elemOf(ev.st, fv, 0, types.Typ[types.String]); nameKey(x) != "<file>" {
							r.bad("setting", what+" files", fmt.Sprintf("%s: the file to archive is %v", what, x), nil)
						}
						xf := ev.e.fieldOf(p, ev.st, lhaV, "Lha", "ExcludeFiles")
						if l := length(xf); (l == 0) == ex || !ex && l != 0 {
							r.bad("setting", what+" excluded files", fmt.Sprintf("%s: the excluded files are %v", what, xf), nil)
						}
						cm := ev.e.fieldOf(p, ev.st, lhaV, "Lha", "CompressMethod")
						wm := int64(5)
						if m&32 != 0 {
							wm = 6
						}
						if cm.lo != wm || cm.hi != wm {
							r.bad("setting", what+" method", fmt.Sprintf("%s: the compression method is %v, not %d", what, cm, wm), nil)
						}
					}
					a, b := ev.st.clone(), ev.st.clone()
					a.set("ret", "ok")
					b.set("ret", "error")
					return []*Out{{st: a, res: []*V{vNilErr()}}, {st: b, res: []*V{vErr(ecOther)}}}
				}
				exits := map[string]bool{}
				cfg.Before = func(ev *Ev) {
					if ev.op != "exit" {
						return
					}
					ret := ev.st.get("ret")
					code := ev.args[0]
					if !strings.HasPrefix(ev.name, "os.Exit") {
						code = vInt(1)
					}
					r.count("exits", 1)
					r.ob("%s exits with %v after %q", what, code, ret)
					exits[ret] = true
					zero := code.lo <= 0 && code.hi >= 0
					if zero && ret != "ok" {
						r.bad("status", what+" exit in "+ev.act.fn.Name(), fmt.Sprintf("%s: %s exits with status %v although the command %s", what, ev.pos(), code, map[string]string{"": "did nothing", "error": "failed"}[ret]), nil)
					}
					if ret == "ok" && !(code.lo == 0 && code.hi == 0) {
						r.bad("status", what+" exit in "+ev.act.fn.Name(), fmt.Sprintf("%s: %s exits with status %v although the command succeeded", what, ev.pos(), code), nil)
					}
				}
				outs := run.call(p.main.Func("main"))
				r.absorb(run)
				r.count("command lines", 1)
				for _, o := range outs {
					if ret := o.st.get("ret"); !o.panic && ret != "ok" {
						r.bad("status", what+" return", what+": main returns with status 0 although nothing succeeded", nil)
					}
				}
				if c.entry != "" && !called {
					r.bad("entry", what, what+" does not call "+c.entry, nil)
				}
			})
		}
	}
	r.parallel(jobs...)
	r.need("command lines", 128+7*4)
	r.need("settings in force", 128+6*4)
	r.need("exits", 200)
}
