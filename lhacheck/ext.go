package main

import (
	"go/token"
	"go/types"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var discardType types.Type = types.NewNamed(types.NewTypeName(0, nil, "discard", nil), types.NewStruct(nil, nil), nil)

// names of external operations, by full name or by method name
var extOps = map[string]string{
	"os.Open": "open", "os.Create": "create", "os.OpenFile": "openfile", "os.CreateTemp": "createtemp", "io/ioutil.TempFile": "createtemp",
	"os.MkdirAll": "mkdir", "os.Mkdir": "mkdir", "os.MkdirTemp": "mkdir", "os.Remove": "remove", "os.RemoveAll": "removeall",
	"os.Rename": "rename", "os.Symlink": "symlink", "os.Link": "link", "os.Chmod": "chmod", "os.Chown": "chown", "os.Lchown": "chown",
	"os.Chtimes": "chtimes", "os.Truncate": "truncpath", "os.WriteFile": "writefile", "io/ioutil.WriteFile": "writefile",
	"os.Lstat": "lstat", "os.Stat": "stat", "os.ReadDir": "readdir", "os.Readlink": "readlink", "os.ReadFile": "readfile",
	"io.ReadFull": "readfull", "io.ReadAtLeast": "readfull", "io.ReadAll": "readall", "io.CopyN": "copyn", "io.Copy": "copy", "io.CopyBuffer": "copy", "io.WriteString": "write",
	"os.Exit": "exit", "log.Fatal": "exit", "log.Fatalf": "exit", "log.Fatalln": "exit",
	"os.Setenv": "env", "os.Chdir": "chdir",
	"(*os.File).Chmod": "fchmod", "(*os.File).Sync": "sync",
	"(*os.File).Name": "fname", "(*os.File).Stat": "fstat",
	"(*bufio.Reader).ReadString": "readstring", "(*bufio.Reader).ReadLine": "readstring", "(*bufio.Scanner).Scan": "scan",
	"(*bufio.Writer).Flush": "flush",
}

var methodOps = map[string]string{
	"Read": "read", "ReadByte": "readbyte", "ReadAt": "read", "Write": "write", "WriteString": "write", "WriteByte": "write", "WriteAt": "write", "Seek": "seek", "Close": "close", "Truncate": "truncate",
	"ReadFrom": "copy", "WriteTo": "copy",
}

func (e *Engine) opOf(name string) string {
	if op, ok := extOps[name]; ok {
		return op
	}
	if i := strings.LastIndex(name, ")."); i >= 0 && strings.HasPrefix(name, "(") {
		recv := name[1:i]
		if strings.Contains(recv, "strings.Builder") || strings.Contains(recv, "bytes.Buffer") || strings.Contains(recv, "discard") {
			return "mem"
		}
		if op, ok := methodOps[name[i+2:]]; ok {
			return op
		}
		return ""
	}
	if strings.HasPrefix(name, "invoke ") {
		i := strings.LastIndex(name, ".")
		if op, ok := methodOps[name[i+1:]]; ok {
			return op
		}
	}
	return ""
}

// the file handles behind a reader or writer value
func (e *Engine) handlesOf(st *State, v *V) []*Obj {
	var r []*Obj
	seen := map[int32]bool{}
	var visit func(v *V, d int)
	visit = func(v *V, d int) {
		if v == nil || d > 6 {
			return
		}
		switch v.k {
		case KIface:
			for _, x := range v.dv {
				visit(x, d+1)
			}
		case KPtr:
			for _, a := range v.tg {
				if seen[a.o] {
					continue
				}
				seen[a.o] = true
				o := e.objs[a.o]
				if strings.HasPrefix(o.fileOf, "wrap:") {
					for _, c := range st.om(a.o).cells() {
						visit(c.v, d+1)
					}
					continue
				}
				r = append(r, o)
			}
		case KAgg:
			for _, x := range v.el {
				visit(x, d+1)
			}
		}
	}
	visit(v, 0)
	return r
}

func resTypes(instr ssa.Instruction, com *ssa.CallCommon, fn *ssa.Function) []types.Type {
	sig := com.Signature()
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

func (e *Engine) extCall(act *Act, st *State, instr ssa.Instruction, name string, fn *ssa.Function, args []*V, com *ssa.CallCommon) []*Out {
	ev := &Ev{e: e, act: act, st: st, instr: instr, name: name, fn: fn, args: args, com: com, op: e.opOf(name)}
	switch ev.op {
	case "read", "readbyte", "write", "seek", "close", "truncate", "readfull", "readall", "flush", "fname", "readstring", "fchmod", "sync", "scan":
		if len(args) > 0 {
			ev.h = e.handlesOf(st, args[0])
		}
	}
	e.ops[ev.op]++
	if e.cfg.Before != nil {
		e.cfg.Before(ev)
	}
	var outs []*Out
	if e.cfg.Ext != nil {
		outs = e.cfg.Ext(ev)
	}
	if outs == nil {
		outs = e.model(ev)
	}
	if e.cfg.After != nil {
		var r []*Out
		for _, o := range outs {
			if e.cfg.After(ev, o) {
				r = append(r, o)
			}
		}
		outs = r
	}
	return outs
}

func (ev *Ev) str(i int) *V {
	if i < len(ev.args) && ev.args[i] != nil && ev.args[i].k == KStr {
		return ev.args[i]
	}
	return vSymStr("?", 0, 0)
}

func (e *Engine) model(ev *Ev) []*Out {
	st := ev.st
	rt := resTypes(ev.instr, ev.com, ev.fn)
	lab := uint64(0)
	for _, a := range ev.args {
		if a != nil {
			lab |= a.lab
			if a.k == KSlice { // variadic arguments
				for _, t := range a.tg {
					if om := st.om(t.o); om != nil && len(om.cells()) <= 12 {
						for _, c := range om.cells() {
							lab |= c.v.lab
						}
					}
				}
			}
		}
	}
	out := func(cls string, s *State, res ...*V) *Out { return &Out{st: s, cls: "", res: res, tag: cls} }
	def := func() []*V {
		var r []*V
		for _, t := range rt {
			r = append(r, vUnknown(t, lab))
		}
		return r
	}
	okfail := func() []*Out {
		a := def()
		b := def()
		for i, t := range rt {
			if isErrorType(t) {
				a[i] = vNilErr()
				b[i] = vErr(ecOther)
			}
		}
		return []*Out{out("ok", st.clone(), a...), out("fail", st.clone(), b...)}
	}
	newHandle := func(s *State, of string) *V {
		o := e.alloc(s, ev.act, ev.instr, "f", nil)
		o.fileOf = of
		return vPtr(Addr{o.id, 0})
	}
	buf := func(i int) *V {
		if i < len(ev.args) && ev.args[i].k == KSlice {
			return ev.args[i]
		}
		return &V{k: KSlice, nn: maybeNil, top: true, off: vInt(0), ln: vRange(0, posInf)}
	}
	fillBuf := func(s *State, b *V) {
		if e.cfg.NoFill { // After supplies what is read
			return
		}
		e.fillSlice(s, b, types.Typ[types.Byte], vUnknown(types.Typ[types.Byte], e.cfg.InputLab))
	}
	switch ev.op {
	case "open", "create", "openfile", "createtemp":
		s1 := st.clone()
		h := newHandle(s1, ev.op)
		r := []*Out{out("ok", s1, h, vNilErr())}
		nilp := &V{k: KPtr, nn: isNil}
		if ev.op == "open" || ev.op == "openfile" {
			r = append(r, out("notexist", st.clone(), nilp, vErr(ecNotExist)))
		}
		r = append(r, out("fail", st.clone(), nilp, vErr(ecOther)))
		return r
	case "lstat", "stat", "fstat":
		nl := &V{k: KIface, nn: isNil}
		var r []*Out
		if e.cfg.StatKinds {
			for _, k := range []string{"reg", "dir", "link", "dev"} {
				if k == "link" && ev.op == "stat" {
					continue
				}
				r = append(r, out("ok:"+k, st.clone(), &V{k: KIface, nn: nonNil, top: true, id: "fi:" + k}, vNilErr()))
			}
		} else {
			r = append(r, out("ok", st.clone(), &V{k: KIface, nn: nonNil, top: true, id: "fi:"}, vNilErr()))
		}
		return append(r, out("notexist", st.clone(), nl, vErr(ecNotExist)), out("fail", st.clone(), nl, vErr(ecOther)))
	case "read":
		b := buf(1)
		n := e.readN(ev, b, 1)
		s1 := st.clone()
		fillBuf(s1, b)
		s3 := st.clone()
		fillBuf(s3, b)
		r := []*Out{out("ok", s1, n, vNilErr()), out("eof", st.clone(), vInt(0), vErr(ecEOF)), out("fail", s3, vRange(0, b.ln.hi), vErr(ecOther))}
		return r
	case "readbyte":
		return []*Out{out("ok", st.clone(), vUnknown(rt[0], e.cfg.InputLab), vNilErr()), out("eof", st.clone(), vInt(0), vErr(ecEOF)), out("fail", st.clone(), vInt(0), vErr(ecOther))}
	case "readfull":
		b := buf(1)
		s1 := st.clone()
		fillBuf(s1, b)
		s2 := st.clone()
		fillBuf(s2, b)
		s3 := st.clone()
		fillBuf(s3, b)
		r := []*Out{out("ok", s1, b.ln, vNilErr())}
		if c, ok := b.ln.isConst(); ok && c == 0 {
			return r
		}
		r = append(r, out("eof", st.clone(), vInt(0), vErr(ecEOF)))
		if b.ln.hi > 1 {
			hi := b.ln.hi
			if hi < posInf {
				hi--
			}
			r = append(r, out("ueof", s2, vRange(1, hi), vErr(ecUEOF)))
		}
		return append(r, out("fail", s3, vRange(0, b.ln.hi), vErr(ecOther)))
	case "readall", "readfile":
		sl := &V{k: KSlice, nn: nonNil, top: true, off: vInt(0), ln: vRange(0, posInf), lab: e.cfg.InputLab}
		r := []*Out{out("ok", st.clone(), sl, vNilErr()), out("fail", st.clone(), sl, vErr(ecOther))}
		if ev.op == "readfile" {
			r = append(r, out("notexist", st.clone(), vNilOf(rt[0]), vErr(ecNotExist)))
		}
		return r
	case "write":
		mem := true
		for _, h := range ev.h {
			if !(h.typ != nil && strings.Contains(h.typ.String(), "bytes.Buffer")) && h.fileOf != "std:io.Discard" && h.fileOf != "io.Discard" {
				mem = false
			}
		}
		if len(ev.h) == 0 {
			mem = false
		}
		n := vRange(0, posInf)
		if ev.args[1].k == KSlice || ev.args[1].k == KStr {
			n = ev.args[1].ln
		}
		if len(rt) == 1 { // WriteByte
			return okfail()
		}
		r := []*Out{out("ok", st.clone(), n, vNilErr())}
		if !mem {
			hi := n.hi
			r = append(r, out("fail", st.clone(), vRange(0, hi), vErr(ecOther)))
		}
		return r
	case "mem":
		for i, t := range rt {
			_ = i
			if isErrorType(t) {
				r := def()
				for k, t := range rt {
					if isErrorType(t) {
						r[k] = vNilErr()
					} else if _, _, ok := intInfo(t); ok && len(ev.args) > 1 && ev.args[1].ln != nil {
						r[k] = ev.args[1].ln
					}
				}
				return []*Out{out("ok", st, r...)}
			}
		}
		return []*Out{out("ok", st, def()...)}
	case "seek":
		v := vRange(0, posInf)
		if c, ok := ev.args[2].isConst(); ok && c == 0 {
			v = ev.args[1]
		}
		if e.cfg.Terms && v.lo != v.hi && v.t == nil {
			v = e.freshInt(st, "seek:"+itoa(int64(ev.act.ctx))+":"+itoa(int64(e.iid(ev.instr))), 0, posInf, 64)
		}
		w := *v
		return []*Out{out("ok", st.clone(), &w, vNilErr()), out("fail", st.clone(), vInt(0), vErr(ecOther))}
	case "copyn":
		n := ev.args[2]
		return []*Out{out("ok", st.clone(), n, vNilErr()), out("eof", st.clone(), vRange(0, posInf), vErr(ecEOF)), out("fail", st.clone(), vRange(0, posInf), vErr(ecOther))}
	case "copy", "remove", "removeall", "rename", "symlink", "link", "chmod", "chown", "chtimes", "mkdir", "truncpath", "writefile", "truncate", "close", "flush", "sync", "fchmod", "chdir", "env":
		if ev.op == "flush" && len(ev.h) > 0 {
			mem := true
			for _, h := range ev.h {
				if !(h.typ != nil && strings.Contains(h.typ.String(), "bytes.Buffer")) {
					mem = false
				}
			}
			if mem {
				return okfail()[:1]
			}
		}
		return okfail()
	case "readdir":
		o := e.alloc(st, ev.act, ev.instr, "d", nil)
		e.putCell(st, Addr{o.id, e.path(0, '*', 0)}, &V{k: KIface, nn: nonNil, top: true, id: "de:"})
		e.noteType(Addr{o.id, e.path(0, '*', 0)}, types.Universe.Lookup("any").Type())
		sl := &V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vRange(0, posInf)}
		return []*Out{out("ok", st.clone(), sl, vNilErr()), out("fail", st.clone(), vNilOf(rt[0]), vErr(ecOther))}
	case "readlink":
		return []*Out{out("ok", st.clone(), vSymStr("link("+strSyms(ev.str(0))+")", 0, 0), vNilErr()), out("fail", st.clone(), vStr(""), vErr(ecOther))}
	case "readstring":
		if e.cfg.Answers != nil {
			var r []*Out
			for _, a := range e.cfg.Answers {
				s := st.clone()
				s.set("ans", a)
				s.note("%s: the answer is %q", ev.pos(), a)
				v := vStr(a)
				if a == "other\n" {
					v = vSymStr("answer", 0, 0)
					v.ps = append([]Piece{{c: "z"}}, v.ps...)
					v.ln = vRange(2, posInf)
				}
				r = append(r, out("ok", s, v, vNilErr()))
			}
			s := st.clone()
			s.set("ans", "eof")
			return append(r, out("eof", s, vStr(""), vErr(ecEOF)))
		}
		v := vSymStr("answer", 0, 0)
		v.ln = vRange(1, posInf)
		return []*Out{out("ok", st.clone(), v, vNilErr()), out("eof", st.clone(), vSymStr("answer", 0, 0), vErr(ecEOF))}
	case "exit":
		return []*Out{}
	case "fname":
		v := vSymStr("name-of-handle", 0, 0)
		if len(ev.h) == 1 {
			v = vSymStr("name:"+ev.h[0].fileOf, 0, 0)
			v.id = "name:" + ev.h[0].key
		}
		return []*Out{out("ok", st, v)}
	}
	r := e.pure(ev, rt, lab, def)
	return r
}

func (e *Engine) readN(ev *Ev, b *V, lo int64) *V {
	if e.cfg.Terms {
		return e.freshInt(ev.st, "n:"+itoa(int64(ev.act.ctx))+":"+itoa(int64(e.iid(ev.instr))), min(lo, b.ln.hi), b.ln.hi, 64)
	}
	return vRange(min(lo, b.ln.hi), b.ln.hi)
}

var fiKinds = map[string]int64{"reg": 0644, "dir": 1<<31 | 0755, "link": 1<<27 | 0777, "dev": 1<<26 | 0644}

// operations without effects
func (e *Engine) pure(ev *Ev, rt []types.Type, lab uint64, def func() []*V) []*Out {
	st := ev.st
	one := func(vs ...*V) []*Out { return []*Out{{st: st, res: vs}} }
	args := ev.args
	method := ""
	if ev.com.IsInvoke() {
		method = ev.com.Method.Name()
	}
	if method != "" && strings.HasPrefix(args[0].id, "fi:") {
		k := strings.TrimPrefix(args[0].id, "fi:")
		m, known := fiKinds[k]
		switch method {
		case "Mode":
			if known {
				return one(vInt(m))
			}
		case "IsDir":
			if known {
				return one(vBool(k == "dir"))
			}
		case "Name":
			return one(vSymStr("fi-name", fNoSlash, lab))
		case "Size":
			return one(vRange(0, posInf))
		}
		return one(def()...)
	}
	if method == "Name" && args[0].id == "de:" {
		return one(vSymStr("dirent", fNoSlash|fNonDot, 0))
	}
	n := ev.name
	switch {
	case strings.HasPrefix(n, "fmt.Errorf"), n == "errors.New":
		v := vErr(ecOther)
		v.lab = lab
		return one(v)
	case n == "errors.Join":
		v := vUnknown(rt[0], lab)
		return one(v)
	case strings.HasPrefix(n, "fmt.Sprint"):
		return one(vSymStr("sprintf", 0, lab))
	case strings.HasPrefix(n, "fmt."), strings.HasPrefix(n, "log."):
		return one(def()...)
	case n == "os.IsNotExist" || n == "os.IsExist" || n == "errors.Is":
		a := args[0]
		ec := ecNotExist
		if n == "os.IsExist" {
			ec = ecExist
		}
		if n == "errors.Is" {
			ec = args[1].ec
			if args[1].id == "" {
				return one(vBoolAny())
			}
		}
		if a.nn == isNil || a.k == KIface && a.ec&ec == 0 && a.ec != 0 && a.nn&nonNil != 0 {
			return one(vBool(false))
		}
		if a.nn == nonNil && a.ec == ec {
			return one(vBool(true))
		}
		return one(&V{k: KInt, lo: 0, hi: 1, lab: a.lab, cond: &cmpInfo{kind: "errclass", v: a, ec: ec}})
	case n == "(io/fs.FileMode).IsRegular":
		if c, ok := args[0].isConst(); ok {
			return one(vBool(c&(1<<31|1<<27|1<<25|1<<24|1<<26|1<<21|1<<19) == 0))
		}
		return one(vBoolAny())
	case n == "(io/fs.FileMode).IsDir":
		if c, ok := args[0].isConst(); ok {
			return one(vBool(c&(1<<31) != 0))
		}
		return one(vBoolAny())
	case n == "(io/fs.FileMode).Type":
		if c, ok := args[0].isConst(); ok {
			return one(vInt(c & (1<<31 | 1<<27 | 1<<25 | 1<<24 | 1<<26 | 1<<21 | 1<<19)))
		}
	case n == "(io/fs.FileMode).Perm":
		if c, ok := args[0].isConst(); ok {
			return one(vInt(c & 0777))
		}
		return one(vRange(0, 0777))
	case n == "bufio.NewReader" || n == "bufio.NewWriter" || n == "bufio.NewReaderSize" || n == "bufio.NewWriterSize" || n == "io.LimitReader" || n == "io.TeeReader" || n == "io.MultiWriter" || n == "io.NopCloser" || n == "bufio.NewScanner" || n == "io.MultiReader" || n == "io.NewSectionReader":
		o := e.alloc(st, ev.act, ev.instr, "w", nil)
		o.fileOf = "wrap:" + n
		for i, a := range args {
			if a.k == KIface || a.k == KPtr {
				e.putCell(st, Addr{o.id, e.path(0, 'f', int64(i))}, a)
			}
			if a.k == KSlice { // variadic
				for q := int64(0); q < 4; q++ {
					if q < a.ln.hi {
						e.putCell(st, Addr{o.id, e.path(0, 'f', 10+q)}, e.sliceElem(st, a, vInt(q), types.Universe.Lookup("any").Type()))
					}
				}
			}
		}
		p := vPtr(Addr{o.id, 0})
		if types.IsInterface(rt[0]) {
			return one(&V{k: KIface, nn: nonNil, dt: []types.Type{wrapType(n)}, dv: []*V{p}})
		}
		return one(p)
	case n == "bytes.NewReader" || n == "strings.NewReader" || n == "bytes.NewBuffer":
		o := e.alloc(st, ev.act, ev.instr, "m", nil)
		o.fileOf = "mem:" + n
		return one(vPtr(Addr{o.id, 0}))
	case n == "(*bytes.Buffer).Bytes":
		return one(&V{k: KSlice, nn: maybeNil, top: true, off: vInt(0), ln: vRange(0, posInf), id: "decoded", lab: lab})
	case strings.HasPrefix(n, "flag."):
		if len(rt) == 1 && (n == "flag.Bool" || n == "flag.String" || n == "flag.Int") {
			nm, _ := args[0].constStr()
			o := e.obj("flag:"+nm, func(x *Obj) { x.lazy = true; x.typ = rt[0].(*types.Pointer).Elem(); x.fileOf = "flag" })
			return one(vPtr(Addr{o.id, 0}))
		}
		if strings.HasSuffix(n, "Var") && len(args) >= 2 && args[0].k == KPtr {
			nm, _ := args[1].constStr()
			if e.cfg.FlagVal != nil {
				if v := e.cfg.FlagVal(nm); v != nil {
					if p, ok := ev.com.Args[0].Type().Underlying().(*types.Pointer); ok {
						e.store(st, args[0], p.Elem(), v)
					}
				}
			}
		}
		return one(def()...)
	case strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "path/filepath.") || strings.HasPrefix(n, "path.") || strings.HasPrefix(n, "bytes.") || n == "cmp.Compare" && ev.args[0].k == KStr:
		if r := e.stringFn(ev, strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(n, "path/"), "filepath."), "path."), rt, lab); r != nil {
			return r
		}
		return one(def()...)
	case strings.HasPrefix(n, "unicode.") && len(ev.args) == 1 && isConstInt(ev.args[0]):
		c := rune(ev.args[0].lo)
		switch n {
		case "unicode.IsLower":
			return one(vBool(unicode.IsLower(c)))
		case "unicode.IsUpper":
			return one(vBool(unicode.IsUpper(c)))
		case "unicode.IsLetter":
			return one(vBool(unicode.IsLetter(c)))
		case "unicode.ToLower":
			return one(vInt(int64(unicode.ToLower(c))))
		case "unicode.ToUpper":
			return one(vInt(int64(unicode.ToUpper(c))))
		}
		return one(def()...)
	case n == "unicode/utf8.DecodeRune" || n == "unicode/utf8.DecodeRuneInString":
		t, ok := ev.args[0].constStr()
		if !ok {
			t, ok = e.constBytes(ev.st, ev.args[0])
		}
		if ok {
			c, w := utf8.DecodeRuneInString(t)
			return one(vInt(int64(c)), vInt(int64(w)))
		}
		return one(def()...)
	case n == "os.Geteuid" || n == "os.Getgid" || strings.HasPrefix(n, "time.") || strings.HasPrefix(n, "(time.") || strings.HasPrefix(n, "unicode") || strings.HasPrefix(n, "strconv."):
		if n == "os.Exit" {
			return nil
		}
		return one(def()...)
	case strings.HasPrefix(n, "(encoding/binary.littleEndian)."):
		if r := e.littleEndian(ev, strings.TrimPrefix(n, "(encoding/binary.littleEndian).")); r != nil {
			return r
		}
	case n == "sort.Strings", n == "slices.Sort":
		return one()
	case method == "Error":
		return one(vSymStr("error-text", 0, args[0].lab))
	case strings.HasSuffix(n, ".init"):
		return one()
	}
	e.unknownExt[n] = true
	// unknown code may write through what it is given
	for i, a := range args {
		if a != nil && a.k == KSlice && i < len(ev.com.Args) {
			e.fillSlice(st, a, elemType(ev.com.Args[i].Type()), vUnknown(elemType(ev.com.Args[i].Type()), a.lab))
		}
	}
	return one(def()...)
}

var wrapMu sync.Mutex
var wrapTypes = map[string]types.Type{}

func wrapType(n string) types.Type {
	wrapMu.Lock()
	defer wrapMu.Unlock()
	if t, ok := wrapTypes[n]; ok {
		return t
	}
	t := types.NewNamed(types.NewTypeName(0, nil, "wrap_"+n, nil), types.NewStruct(nil, nil), nil)
	wrapTypes[n] = t
	return t
}

func (e *Engine) stringFn(ev *Ev, n string, rt []types.Type, lab uint64) []*Out {
	st := ev.st
	one := func(v *V) []*Out { return []*Out{{st: st, res: []*V{v}}} }
	n = strings.TrimPrefix(n, "strings.")
	var s *V
	var c string
	sc := false
	if len(ev.args) > 0 {
		s = ev.args[0]
		c, sc = s.constStr()
	}
	arg2 := func() (string, bool) {
		if len(ev.args) < 2 {
			return "", false
		}
		if s, ok := ev.args[1].constStr(); ok {
			return s, true
		}
		if c, ok := ev.args[1].isConst(); ok && c >= 0 && c < 128 {
			return string(rune(c)), true
		} else if ok && c < 256 && strings.HasSuffix(n, "Byte") {
			return string([]byte{byte(c)}), true
		}
		if ev.args[1].k == KSlice {
			return e.constBytes(st, ev.args[1])
		}
		return "", false
	}
	withLab := func(v *V) *V {
		v.lab = lab
		for i := range v.ps {
			v.ps[i].lab = lab
		}
		return v
	}
	noSlash := s != nil && s.k == KStr && strFlags(s)&fNoSlash != 0
	sub := func(fl uint16) *V {
		v := vSymStr("sub("+trimSym(strSyms(s))+")", fl, lab)
		if s.ln != nil {
			v.ln = vRange(0, s.ln.hi)
		}
		return v
	}
	fl0 := uint16(0)
	if noSlash {
		fl0 = fNoSlash
	}
	switch n {
	case "Compare", "bytes.Compare", "cmp.Compare", "bytes.Equal", "bytes.EqualFold", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
		t, ok := c, sc
		if !ok && s.k == KSlice {
			t, ok = e.constBytes(st, s)
		}
		x, ok2 := arg2()
		if ok && ok2 {
			switch n {
			case "bytes.Equal":
				return one(vBool(t == x))
			case "bytes.EqualFold":
				return one(vBool(strings.EqualFold(t, x)))
			case "bytes.HasPrefix":
				return one(vBool(strings.HasPrefix(t, x)))
			case "bytes.HasSuffix":
				return one(vBool(strings.HasSuffix(t, x)))
			case "bytes.Contains":
				return one(vBool(strings.Contains(t, x)))
			}
			return one(vInt(int64(strings.Compare(t, x))))
		}
		if strings.HasSuffix(n, "Compare") {
			return one(vRange(-1, 1))
		}
		return one(vBoolAny())
	case "bytes.IndexByte", "bytes.LastIndexByte", "bytes.Index", "bytes.LastIndex":
		if t, ok := e.constBytes(st, s); ok {
			if x, ok := arg2(); ok {
				if strings.Contains(n, "Last") {
					return one(vInt(int64(strings.LastIndex(t, x))))
				}
				return one(vInt(int64(strings.Index(t, x))))
			}
		}
		hi := int64(posInf)
		if s.ln != nil {
			hi = s.ln.hi
			if hi < posInf {
				hi--
			}
		}
		return one(vRange(-1, max(hi, -1)))
	case "Index", "LastIndex", "IndexByte", "LastIndexByte", "IndexRune":
		x, ok := arg2()
		if s.k != KStr {
			return nil
		}
		last := strings.HasPrefix(n, "Last")
		if sc && ok {
			if last {
				return one(vInt(int64(strings.LastIndex(c, x))))
			}
			return one(vInt(int64(strings.Index(c, x))))
		}
		if ok && strings.Contains(x, "/") && noSlash {
			return one(vInt(-1))
		}
		hi := int64(posInf)
		if s.ln != nil && s.ln.hi < posInf {
			hi = s.ln.hi - 1
		}
		v := e.freshInt(st, "idx:"+itoa(int64(ev.act.ctx))+":"+itoa(int64(e.iid(ev.instr))), -1, max(hi, -1), 64)
		if ok && v.t != nil && len(v.t.m) == 1 {
			k := "index"
			if last {
				k = "lastindex"
			}
			e.symInfo[v.t.m[0].s] = &symMeaning{kind: k, str: s, sub: x}
		}
		return one(v)
	case "Contains", "HasPrefix", "HasSuffix", "ContainsRune", "ContainsAny", "EqualFold":
		x, ok := arg2()
		if sc && ok {
			b := false
			switch n {
			case "Contains", "ContainsRune":
				b = strings.Contains(c, x)
			case "HasPrefix":
				b = strings.HasPrefix(c, x)
			case "HasSuffix":
				b = strings.HasSuffix(c, x)
			case "ContainsAny":
				b = strings.ContainsAny(c, x)
			case "EqualFold":
				b = strings.EqualFold(c, x)
			}
			return one(vBool(b))
		}
		if ok && noSlash && x == "/" {
			return one(vBool(false))
		}
		return one(vBoolAny())
	case "TrimRight", "TrimLeft", "Trim", "TrimSuffix", "TrimPrefix", "TrimSpace", "TrimFunc":
		x, ok := arg2()
		if sc && (ok || n == "TrimSpace") {
			switch n {
			case "TrimRight":
				c = strings.TrimRight(c, x)
			case "TrimLeft":
				c = strings.TrimLeft(c, x)
			case "Trim":
				c = strings.Trim(c, x)
			case "TrimSuffix":
				c = strings.TrimSuffix(c, x)
			case "TrimPrefix":
				c = strings.TrimPrefix(c, x)
			case "TrimSpace":
				c = strings.TrimSpace(c)
			}
			return one(withLab(vStr(c)))
		}
		return one(sub(fl0))
	case "ToUpper", "ToLower":
		if sc {
			if n == "ToUpper" {
				return one(withLab(vStr(strings.ToUpper(c))))
			}
			return one(withLab(vStr(strings.ToLower(c))))
		}
		return one(sub(fl0))
	case "Replace", "ReplaceAll", "Map", "Title":
		fl := fl0
		if len(ev.args) >= 3 {
			o, ok1 := ev.args[1].constStr()
			w, ok2 := ev.args[2].constStr()
			if ok1 && ok2 && o == "/" && !strings.Contains(w, "/") && n == "ReplaceAll" {
				fl |= fNoSlash
			}
			if !ok2 || strings.Contains(w, "/") {
				fl = 0
			}
		} else {
			fl = 0
		}
		return e.splitName(ev.act, st, ev.instr, sub(fl))
	case "Split", "SplitN", "Fields", "SplitAfter":
		x, ok := arg2()
		o := e.alloc(st, ev.act, ev.instr, "s", nil)
		fl := fl0
		if ok && x == "/" && n == "Split" {
			fl |= fNoSlash
		}
		p := Addr{o.id, e.path(0, '*', 0)}
		e.noteType(p, types.Typ[types.String])
		e.putCell(st, p, sub(fl))
		return one(&V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vRange(1, posInf), lab: lab})
	case "Join":
		if !strings.Contains(ev.name, "path") {
			return one(vSymStr("join", 0, lab))
		}
		// elements
		a := ev.args[0]
		if a.k == KSlice && isC(a.ln) && a.ln.lo <= 4 {
			var r *V
			okAll := true
			for i := int64(0); i < a.ln.lo; i++ {
				x := e.sliceElem(st, a, vInt(i), types.Typ[types.String])
				if x.k != KStr {
					okAll = false
					break
				}
				if xs, ok := x.constStr(); ok && xs == "" {
					continue
				}
				if i > 0 && strFlags(x)&(fNoSlash|fNonDot) != fNoSlash|fNonDot {
					okAll = false
					break
				}
				if r == nil {
					r = x
				} else {
					r = e.concat(e.concat(r, vStr("/")), x)
				}
			}
			if okAll && r != nil {
				return one(r)
			}
			v := vSymStr("joined", 0, lab)
			for i := int64(0); i < a.ln.lo; i++ {
				x := e.sliceElem(st, a, vInt(i), types.Typ[types.String])
				v.lab |= x.lab
			}
			v.ps[0].lab = v.lab
			return one(v)
		}
		return one(vSymStr("joined", 0, lab))
	case "Base":
		if sc {
			return one(withLab(vStr(path.Base(c))))
		}
		if noSlash && strFlags(s)&fNonDot != 0 {
			return one(s)
		}
		if e.cfg.SplitNames && s.lab != 0 {
			var outs []*Out
			for _, q := range []string{".", "..", "/"} {
				t := st.clone()
				t.set("nm", "'"+q+"'")
				t.note("%s: base name of the member is %q", ev.pos(), q)
				outs = append(outs, &Out{st: t, res: []*V{withLab(vStr(q))}})
			}
			t := st.clone()
			t.set("nm", "ord")
			v := vSymStr("base("+trimSym(strSyms(s))+")", fNoSlash|fNonDot, lab)
			v.ln = vRange(1, posInf)
			return append(outs, &Out{st: t, res: []*V{v}})
		}
		v := vSymStr("base("+trimSym(strSyms(s))+")", 0, lab)
		v.ln = vRange(1, posInf)
		return one(v)
	case "Dir":
		if sc {
			return one(withLab(vStr(filepath.Dir(c))))
		}
		if s.k == KStr {
			// dir of "x/" + name
			k := len(s.ps)
			if k == 1 && noSlash {
				return one(vStr("."))
			}
			if k >= 2 {
				l := s.ps[k-1]
				p := s.ps[k-2]
				if l.sym != "" && l.fl&fNoSlash != 0 && p.sym == "" && strings.HasSuffix(p.c, "/") {
					v := &V{k: KStr, ps: append([]Piece(nil), s.ps[:k-1]...), ln: vRange(0, posInf)}
					v.ps[k-2].c = strings.TrimSuffix(p.c, "/")
					v.ps = normPieces(v.ps)
					for _, q := range v.ps {
						v.lab |= q.lab
					}
					return one(v)
				}
			}
			v := vSymStr("dir("+strSyms(s)+")", 0, lab)
			v.id = "dir:" + s.id + strSyms(s)
			return one(v)
		}
	case "Clean":
		if sc {
			return one(withLab(vStr(path.Clean(c))))
		}
		if noSlash && strFlags(s)&fNonDot != 0 {
			return one(s)
		}
		v := vSymStr("clean("+trimSym(strSyms(s))+")", fl0, lab)
		v.ln = vRange(1, posInf)
		return one(v)
	case "Ext":
		if sc {
			return one(vStr(path.Ext(c)))
		}
		return one(vSymStr("ext", fNoSlash, lab))
	case "Repeat":
		if k, ok := ev.args[1].isConst(); sc && ok && k >= 0 && k*int64(len(c)) < 4096 {
			return one(withLab(vStr(strings.Repeat(c, int(k)))))
		}
		return one(vSymStr("repeat", 0, lab))
	case "Cut":
		x, ok := arg2()
		if sc && ok {
			b, a, f := strings.Cut(c, x)
			return []*Out{{st: st, res: []*V{withLab(vStr(b)), withLab(vStr(a)), vBool(f)}}}
		}
		fl := fl0
		if ok && x == "/" {
			fl |= fNoSlash
		}
		return []*Out{{st: st, res: []*V{sub(fl), sub(fl0), vBoolAny()}}}
	}
	_ = token.ADD
	return nil
}

// numbers in little endian order
func (e *Engine) littleEndian(ev *Ev, m string) []*Out {
	w := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[m]
	if w == 0 || len(ev.args) < 2 || ev.args[1].k != KSlice {
		return nil
	}
	st := ev.st
	bt := types.Typ[types.Byte]
	t := types.Typ[types.Uint64]
	switch w {
	case 2:
		t = types.Typ[types.Uint16]
	case 4:
		t = types.Typ[types.Uint32]
	}
	if strings.HasPrefix(m, "Put") {
		for i := int64(0); i < w; i++ {
			v := e.arith(t, token.SHR, ev.args[2], vInt(8*i))
			e.store(st, e.indexAddr(ev.args[1], vInt(i)), bt, e.convInt(t, bt, v))
		}
		return []*Out{{st: st}}
	}
	r := vInt(0)
	for i := int64(0); i < w; i++ {
		b := e.load(st, e.indexAddr(ev.args[1], vInt(i)), bt)
		r = e.arith(t, token.OR, r, e.arith(t, token.SHL, e.convInt(bt, t, b), vInt(8*i)))
	}
	return []*Out{{st: st, res: []*V{r}}}
}

func isConstInt(v *V) bool {
	_, ok := v.isConst()
	return ok && v.k == KInt
}

// constBytes is the content of a byte slice if all of it is known
func (e *Engine) constBytes(st *State, a *V) (string, bool) {
	if a == nil || a.k != KSlice || a.ln == nil || a.off == nil {
		return "", false
	}
	n, lok := a.ln.isConst()
	off, ook := a.off.isConst()
	if lok && n == 0 {
		return "", true
	}
	if !lok || !ook || n > 2100 || a.top || len(a.tg) != 1 || e.objs[a.tg[0].o].summary {
		return "", false
	}
	b := a.tg[0]
	buf := make([]byte, 0, n)
	for i := int64(0); i < n; i++ {
		c, ok := e.readCell(st, Addr{b.o, e.path(b.p, 'i', off+i)}, nil, types.Typ[types.Uint8]).isConst()
		if !ok {
			return "", false
		}
		buf = append(buf, byte(c))
	}
	return string(buf), true
}
