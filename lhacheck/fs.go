package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"
)

// FS is a model of the file system that is exact to the byte: names, lengths
// and positions are constants, the contents are abstract bytes. Every
// operation succeeds when it can.
type FS struct {
	w     *World
	times map[string]*V
	now   *V
	dirs  map[string][]string
}

func newFS(p *Program, r *Report) *FS {
	w := exactWorld(p, r)
	f := &FS{w: w, times: map[string]*V{}}
	w.realTable = true
	w.cfg.Ext = f.ext
	w.cfg.OnAlloc = func(st *State, o *Obj) { // a new buffer is empty
		if o.typ != nil && strings.Contains(o.typ.String(), "bytes.Buffer") {
			st.set("n:buf"+strconv.Itoa(int(o.id)), "")
		}
	}
	return f
}

func num(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func cleanName(s string) string { return path.Clean(strings.TrimRight(s, "\x00")) }

func (f *FS) newIno(st *State, kind string) string {
	n := num(st.get("ni")) + 1
	st.set("ni", strconv.Itoa(n))
	i := strconv.Itoa(n)
	st.set("k:"+i, kind)
	return i
}

func (f *FS) ino(st *State, name string) string { return st.get("x:" + cleanName(name)) }

func (f *FS) size(st *State, ino string) int { return num(st.get("n:" + ino)) }

func (f *FS) body(e *Engine, ino string) *Obj { return e.obj("ino:"+ino, func(*Obj) {}) }

func (f *FS) bytes(e *Engine, st *State, ino string, from, n int) []*V {
	o := f.body(e, ino)
	om := st.om(o.id)
	r := make([]*V, n)
	for i := range r {
		v := om.get(e.path(0, 'i', int64(from+i)))
		if v == nil {
			v = vInt(0)
		}
		r[i] = v
	}
	return r
}

// put stores consecutive bytes
func (f *FS) put(e *Engine, st *State, ino string, at int, b []*V) {
	e.putBytes(st, Addr{f.body(e, ino).id, 0}, at, b)
	if at+len(b) > f.size(st, ino) {
		st.set("n:"+ino, strconv.Itoa(at+len(b)))
	}
}

func (e *Engine) putBytes(st *State, base Addr, at int, b []*V) {
	old := st.om(base.o)
	n := &ObjMem{}
	if old != nil {
		n.c = make([]cell, len(old.cells()), len(old.cells())+len(b))
		copy(n.c, old.cells())
	}
	for i, v := range b {
		p := e.path(base.p, 'i', int64(at+i))
		e.noteType(Addr{base.o, p}, types.Typ[types.Byte])
		k := n.find(p)
		if k < len(n.c) && n.c[k].p == p {
			n.c[k].v = v
			continue
		}
		n.c = append(n.c, cell{})
		copy(n.c[k+1:], n.c[k:])
		n.c[k] = cell{p, v}
	}
	e.setOM(st, base.o, n)
}

// file makes a file with the given content
func (f *FS) file(e *Engine, st *State, name string, b []*V) string {
	i := f.newIno(st, "f")
	st.set("x:"+cleanName(name), i)
	st.set("n:"+i, "0")
	f.put(e, st, i, 0, b)
	return i
}

func (f *FS) link(e *Engine, st *State, name, to string) {
	i := f.newIno(st, "l")
	st.set("x:"+cleanName(name), i)
	st.set("l:"+i, to)
}

func (f *FS) dir(st *State, name string) {
	i := f.newIno(st, "d")
	st.set("x:"+cleanName(name), i)
}

// names lists what exists
func (f *FS) names(st *State) []string {
	var r []string
	for k := range st.ts {
		if strings.HasPrefix(k, "x:") {
			r = append(r, k[2:])
		}
	}
	sort.Strings(r)
	return r
}

func (f *FS) meta(e *Engine, ino string) *Obj { return e.obj("meta:"+ino, func(*Obj) {}) }

func (f *FS) setMeta(e *Engine, st *State, ino, what string, v *V) {
	i := int64(strings.Index("mode,time,uid,gid", what))
	e.putCell(st, Addr{f.meta(e, ino).id, e.path(0, 'f', i)}, v)
	e.noteType(Addr{f.meta(e, ino).id, e.path(0, 'f', i)}, types.Typ[types.Int])
}

func (f *FS) getMeta(e *Engine, st *State, ino, what string) *V {
	i := int64(strings.Index("mode,time,uid,gid", what))
	return st.om(f.meta(e, ino).id).get(e.path(0, 'f', i))
}

func (f *FS) mode(e *Engine, st *State, ino string) *V {
	m := f.getMeta(e, st, ino, "mode")
	if m == nil {
		m = vInt(0644)
		if st.get("k:"+ino) != "f" {
			m = vInt(0755)
		}
	}
	t := types.Typ[types.Uint32]
	switch st.get("k:" + ino) {
	case "d":
		return e.arith(t, token.OR, m, vInt(1<<31))
	case "l":
		return e.arith(t, token.OR, m, vInt(1<<27))
	}
	return m
}

func (f *FS) timeV(ev *Ev, secs *V) *V {
	t := resTypes(ev.instr, ev.com, ev.fn)
	return f.timeOf(t[0], secs)
}

func (f *FS) timeOf(t types.Type, secs *V) *V {
	v := vUnknown(t, 0)
	v.id = fmt.Sprintf("time%d", len(f.times))
	for k, x := range f.times {
		if x == secs || x.t != nil && secs.t != nil && x.t.eq(secs.t) {
			v.id = k
		}
	}
	f.times[v.id] = secs
	if v.k == KAgg && len(v.el) == 3 { // so that it is known again when it has been in a variable
		v.el[1] = vInt(timeTag + int64(num(strings.TrimPrefix(v.id, "time"))))
	}
	return v
}

const timeTag = 0x7a1e5500000000

// timeID finds the time a value stands for, "" if unknown
func (f *FS) timeID(v *V) string {
	if v.k == KAgg && len(v.el) == 3 {
		if c, ok := v.el[1].isConst(); ok && c >= timeTag {
			return fmt.Sprintf("time%d", c-timeTag)
		}
	}
	return v.id
}

func (f *FS) open(ev *Ev, st *State, ino, name, of string) *V {
	n := num(st.get("nh")) + 1
	st.set("nh", strconv.Itoa(n))
	o := ev.e.obj(fmt.Sprintf("handle:%d", n), func(*Obj) {})
	o.fileOf = of
	id := strconv.Itoa(int(o.id))
	st.set("h:"+id, ino)
	st.set("p:"+id, "0")
	st.set("hn:"+id, name)
	return vPtr(Addr{o.id, 0})
}

func (f *FS) confused(ev *Ev, what string) {
	ev.st.set("bad", ev.pos()+": "+what)
}

// sink finds where a writer puts its bytes: an inode and the handle (or none)
func (f *FS) sink(ev *Ev, st *State, hs []*Obj) (ino, h string, ok bool) {
	if len(hs) != 1 {
		return "", "", false
	}
	o := hs[0]
	id := strconv.Itoa(int(o.id))
	if i := st.get("h:" + id); i != "" {
		return i, id, true
	}
	switch o.fileOf {
	case "io.Discard":
		return "discard", "", true
	case "os.Stdout", "os.Stderr":
		return strings.ToLower(o.fileOf), "", true
	}
	if o.typ != nil && strings.Contains(o.typ.String(), "bytes.Buffer") {
		return "buf" + id, "", true
	}
	return "", "", false
}

func (f *FS) writeTo(ev *Ev, st *State, w *V, b []*V) bool {
	e := ev.e
	// a buffered writer keeps its bytes until it is flushed
	if id, ok := f.buffered(e, w); ok {
		f.put(e, st, "pend"+id, f.size(st, "pend"+id), b)
		return true
	}
	ino, h, ok := f.sink(ev, st, e.handlesOf(st, w))
	if !ok {
		f.confused(ev, "written to an unknown place")
		return false
	}
	if ino == "discard" {
		return true
	}
	at := f.size(st, ino)
	if h != "" {
		at = num(st.get("p:" + h))
		st.set("p:"+h, strconv.Itoa(at+len(b)))
		if n := f.size(st, ino); n < at { // a hole
			z := make([]*V, at-n)
			for i := range z {
				z[i] = vInt(0)
			}
			f.put(e, st, ino, n, z)
		}
	}
	f.put(e, st, ino, at, b)
	return true
}

func (f *FS) buffered(e *Engine, w *V) (string, bool) {
	for w != nil && w.k == KIface && len(w.dv) == 1 {
		w = w.dv[0]
	}
	if w == nil || w.k != KPtr || len(w.tg) != 1 {
		return "", false
	}
	o := e.objs[w.tg[0].o]
	if strings.HasPrefix(o.fileOf, "wrap:bufio.NewWriter") {
		return strconv.Itoa(int(o.id)), true
	}
	return "", false
}

// content of a byte slice or string of known length
func (f *FS) content(ev *Ev, v *V) ([]*V, bool) {
	e := ev.e
	if v.k == KStr {
		s, ok := v.constStr()
		if !ok {
			return nil, false
		}
		var r []*V
		for i := 0; i < len(s); i++ {
			r = append(r, vInt(int64(s[i])))
		}
		return r, true
	}
	if v.k != KSlice || v.ln == nil {
		return nil, false
	}
	n, ok := v.ln.isConst()
	if !ok {
		return nil, false
	}
	r := make([]*V, n)
	for i := range r {
		r[i] = e.load(ev.st, e.indexAddr(v, vInt(int64(i))), types.Typ[types.Byte])
	}
	return r, true
}

func (f *FS) deliver(ev *Ev, st *State, s *V, b []*V) bool {
	e := ev.e
	off, ok := s.off.isConst()
	if !ok || s.k != KSlice || len(s.tg) != 1 || e.objs[s.tg[0].o].summary {
		f.confused(ev, "read into an unknown place")
		return false
	}
	e.putBytes(st, s.tg[0], int(off), b)
	return true
}

func byteVals(s string) []*V {
	r := make([]*V, len(s))
	for i := range r {
		r[i] = vInt(int64(s[i]))
	}
	return r
}

func (f *FS) ext(ev *Ev) []*Out {
	outs := f.ext1(ev)
	if ev.op != "" {
		for _, o := range outs {
			o.st.note("%s: %s %v: %s %v", ev.pos(), ev.name, ev.args, o.tag, o.res)
		}
	}
	return outs
}

func (f *FS) ext1(ev *Ev) []*Out {
	e := ev.e
	st := ev.st.clone()
	ok := func(v ...*V) []*Out { return []*Out{{st: st, res: v, tag: "ok"}} }
	fail := func(tag string, v ...*V) []*Out { return []*Out{{st: st, res: v, tag: tag}} }
	nilp := &V{k: KPtr, nn: isNil}
	nili := &V{k: KIface, nn: isNil}
	name := func(i int) (string, bool) {
		s, k := ev.str(i).constStr()
		if !k {
			f.confused(ev, "the name is not known")
			return "", false
		}
		return cleanName(s), true
	}
	giveUp := func(what string) []*Out {
		f.confused(ev, what)
		st.set("bad", ev.pos()+": "+what)
		return nil
	}
	follow := func(n string) string {
		for k := 0; k < 5; k++ {
			i := f.ino(st, n)
			if i == "" || st.get("k:"+i) != "l" {
				return i
			}
			n = path.Join(path.Dir(n), st.get("l:"+i))
		}
		return ""
	}
	switch ev.op {
	case "open", "create", "openfile", "createtemp":
		n, k := name(0)
		if !k {
			return giveUp("a file with an unknown name is opened")
		}
		if ev.op == "createtemp" {
			n = path.Join(n, "temp"+strconv.Itoa(num(st.get("nh"))))
			i := f.file(e, st, n, nil)
			return ok(f.open(ev, st, i, n, ev.op), vNilErr())
		}
		fl := int64(0)
		if ev.op == "create" {
			fl = 0x40 | 0x200 | 2
		}
		if ev.op == "openfile" {
			c, k := ev.args[1].isConst()
			if !k {
				return giveUp("unknown flags")
			}
			fl = c
		}
		i := follow(n)
		if i == "" {
			if fl&0x40 == 0 {
				return fail("notexist", nilp, vErr(ecNotExist))
			}
			i = f.file(e, st, n, nil)
		} else if fl&0x80 != 0 {
			return fail("fail", nilp, vErr(ecExist))
		}
		if st.get("k:"+i) != "f" {
			return fail("fail", nilp, vErr(ecOther))
		}
		if fl&0x200 != 0 {
			st.set("n:"+i, "0")
		}
		h := f.open(ev, st, i, n, ev.op)
		if fl&0x400 != 0 {
			st.set("p:"+strconv.Itoa(int(h.tg[0].o)), strconv.Itoa(f.size(st, i)))
		}
		return ok(h, vNilErr())
	case "lstat", "stat", "fstat":
		i := ""
		if ev.op == "fstat" {
			i, _, _ = f.sink(ev, st, e.handlesOf(st, ev.args[0]))
		} else {
			n, k := name(0)
			if !k {
				return giveUp("a file with an unknown name is looked at")
			}
			i = f.ino(st, n)
			if ev.op == "stat" {
				i = follow(n)
			}
		}
		if i == "" {
			return fail("notexist", nili, vErr(ecNotExist))
		}
		return ok(&V{k: KIface, nn: nonNil, top: true, id: "fs:" + i}, vNilErr())
	case "read", "readfull":
		hs := e.handlesOf(st, ev.args[0])
		s := ev.args[1]
		n, k := s.ln.isConst()
		if ev.name == "io.ReadAtLeast" {
			return giveUp("io.ReadAtLeast")
		}
		if len(hs) == 1 && hs[0].fileOf == "os.Stdin" {
			return nil
		}
		ino, h, k2 := f.sink(ev, st, hs)
		if !k || !k2 || h == "" {
			return giveUp("how much is read, or where, is not fixed")
		}
		pos := num(st.get("p:" + h))
		left := max(f.size(st, ino)-pos, 0)
		m := min(int(n), left)
		if m > 0 && !f.deliver(ev, st, s, f.bytes(e, st, ino, pos, m)) {
			return nil
		}
		st.set("p:"+h, strconv.Itoa(pos+m))
		switch {
		case n == 0 || m == int(n) || m > 0 && ev.op == "read":
			return ok(vInt(int64(m)), vNilErr())
		case m == 0:
			return fail("eof", vInt(0), eofErr(e))
		default:
			return fail("ueof", vInt(int64(m)), &V{k: KIface, nn: nonNil, ec: ecUEOF, id: "io.ErrUnexpectedEOF", top: true})
		}
	case "readall", "readfile":
		return giveUp(ev.op)
	case "copyn", "copy":
		if ev.op == "copy" && !strings.HasPrefix(ev.name, "io.") {
			return giveUp(ev.name)
		}
		ino, h, k := f.sink(ev, st, e.handlesOf(st, ev.args[1]))
		if !k || h == "" {
			return giveUp("copied from an unknown place")
		}
		pos := num(st.get("p:" + h))
		left := max(f.size(st, ino)-pos, 0)
		n := left
		if ev.op == "copyn" {
			c, k := ev.args[2].isConst()
			if !k {
				return giveUp("how much is copied is not fixed")
			}
			n = int(c)
		}
		m := max(min(n, left), 0)
		b := f.bytes(e, st, ino, pos, m)
		st.set("p:"+h, strconv.Itoa(pos+m))
		if !f.writeTo(ev, st, ev.args[0], b) {
			return giveUp("copied to an unknown place")
		}
		if m < n {
			return fail("eof", vInt(int64(m)), eofErr(e))
		}
		return ok(vInt(int64(m)), vNilErr())
	case "write", "mem":
		m := ev.name[strings.LastIndex(ev.name, ".")+1:]
		if ev.op == "mem" && !strings.HasPrefix(m, "Write") {
			return f.memory(ev, st, m)
		}
		if len(ev.args) != 2 {
			return giveUp("written in an unknown way")
		}
		var b []*V
		k := true
		if m == "WriteByte" {
			b = []*V{ev.args[1]}
		} else {
			b, k = f.content(ev, ev.args[1])
		}
		if !k {
			return giveUp("how much is written is not fixed")
		}
		if !f.writeTo(ev, st, ev.args[0], b) {
			return giveUp("written to an unknown place")
		}
		if m == "WriteByte" {
			return ok(vNilErr())
		}
		return ok(vInt(int64(len(b))), vNilErr())
	case "flush":
		id, k := f.buffered(e, ev.args[0])
		if !k {
			return giveUp("flush")
		}
		p := "pend" + id
		b := f.bytes(e, st, p, 0, f.size(st, p))
		st.set("n:"+p, "")
		for _, c := range st.om(ev.args[0].tg[0].o).cells() {
			if c.v.k == KIface || c.v.k == KPtr {
				if !f.writeTo(ev, st, c.v, b) {
					return giveUp("flush")
				}
				return ok(vNilErr())
			}
		}
		return giveUp("flush")
	case "seek":
		ino, h, k := f.sink(ev, st, ev.h)
		off, k2 := ev.args[1].isConst()
		wh, k3 := ev.args[2].isConst()
		if !k || h == "" || !k2 || !k3 {
			return giveUp(fmt.Sprint("the position is not fixed: ", ev.args))
		}
		switch wh {
		case 1:
			off += int64(num(st.get("p:" + h)))
		case 2:
			off += int64(f.size(st, ino))
		}
		if off < 0 {
			return fail("fail", vInt(0), vErr(ecOther))
		}
		st.set("p:"+h, strconv.FormatInt(off, 10))
		return ok(vInt(off), vNilErr())
	case "truncate":
		ino, h, k := f.sink(ev, st, ev.h)
		n, k2 := ev.args[1].isConst()
		if !k || h == "" || !k2 {
			return giveUp("truncated to an unknown size")
		}
		if int(n) > f.size(st, ino) {
			return giveUp("extended by truncation")
		}
		st.set("n:"+ino, strconv.FormatInt(n, 10))
		return ok(vNilErr())
	case "close":
		_, h, k := f.sink(ev, st, ev.h)
		if !k || h == "" {
			return nil
		}
		if st.get("c:"+h) != "" {
			return fail("fail", vErr(ecOther))
		}
		st.set("c:"+h, "1")
		return ok(vNilErr())
	case "fname":
		_, h, k := f.sink(ev, st, ev.h)
		if k && h != "" {
			return ok(vStr(st.get("hn:" + h)))
		}
	case "remove", "removeall":
		n, k := name(0)
		if !k {
			return giveUp("a file with an unknown name is removed")
		}
		if f.ino(st, n) == "" {
			return fail("notexist", vErr(ecNotExist))
		}
		st.set("x:"+n, "")
		return ok(vNilErr())
	case "rename":
		a, k := name(0)
		b, k2 := name(1)
		if !k || !k2 {
			return giveUp("a file is renamed to or from an unknown name")
		}
		i := f.ino(st, a)
		if i == "" {
			return fail("fail", vErr(ecNotExist))
		}
		st.set("x:"+a, "")
		st.set("x:"+b, i)
		return ok(vNilErr())
	case "symlink":
		to, k := ev.str(0).constStr()
		n, k2 := name(1)
		if !k || !k2 {
			return giveUp("a link with an unknown name or target")
		}
		if f.ino(st, n) != "" {
			return fail("fail", vErr(ecExist))
		}
		f.link(e, st, n, to)
		return ok(vNilErr())
	case "readlink":
		n, k := name(0)
		if !k {
			return giveUp("readlink")
		}
		i := f.ino(st, n)
		if i == "" || st.get("k:"+i) != "l" {
			return fail("fail", vStr(""), vErr(ecOther))
		}
		return ok(vStr(st.get("l:"+i)), vNilErr())
	case "mkdir":
		n, k := name(0)
		if !k {
			return giveUp("a directory with an unknown name is made")
		}
		for d := n; d != "." && d != "/"; d = path.Dir(d) {
			i := f.ino(st, d)
			if i == "" {
				f.dir(st, d)
			} else if st.get("k:"+i) != "d" || ev.name == "os.Mkdir" && d == n {
				return fail("fail", vErr(ecExist))
			}
			if ev.name == "os.Mkdir" {
				break
			}
		}
		return ok(vNilErr())
	case "chmod", "chown", "chtimes":
		n, k := name(0)
		if !k {
			return giveUp(ev.op + " of an unknown file")
		}
		i := follow(n)
		if ev.name == "os.Lchown" {
			i = f.ino(st, n)
		}
		if i == "" {
			return fail("notexist", vErr(ecNotExist))
		}
		switch ev.op {
		case "chmod":
			f.setMeta(e, st, i, "mode", e.arith(types.Typ[types.Uint32], token.AND, ev.args[1], vInt(0777)))
		case "chown":
			f.setMeta(e, st, i, "uid", ev.args[1])
			f.setMeta(e, st, i, "gid", ev.args[2])
		case "chtimes":
			if t := f.times[f.timeID(ev.args[2])]; t != nil {
				f.setMeta(e, st, i, "time", t)
			} else {
				f.setMeta(e, st, i, "time", vRange(0, 1<<40))
			}
		}
		return ok(vNilErr())
	case "fchmod", "sync":
		return ok(vNilErr())
	case "truncpath", "writefile", "link", "chdir":
		return giveUp(ev.op)
	case "readdir":
		n, k := name(0)
		if !k {
			return giveUp("an unknown directory is listed")
		}
		var l []string
		for _, x := range f.names(st) {
			if path.Dir(x) == n {
				l = append(l, path.Base(x))
			}
		}
		o := e.alloc(st, ev.act, ev.instr, "d", nil)
		for i, x := range l {
			p := Addr{o.id, e.path(0, 'i', int64(i))}
			e.putCell(st, p, &V{k: KIface, nn: nonNil, top: true, id: "dirent:" + path.Join(n, x)})
			e.noteType(p, types.Universe.Lookup("any").Type())
		}
		return ok(&V{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vInt(int64(len(l))), cp: vInt(int64(len(l)))}, vNilErr())
	}
	return f.values(ev, st)
}

func eofErr(e *Engine) *V { return &V{k: KIface, nn: nonNil, ec: ecEOF, id: "io.EOF", top: true} }

// memory: bytes.Buffer
func (f *FS) memory(ev *Ev, st *State, m string) []*Out {
	e := ev.e
	if len(ev.args) == 0 || ev.args[0].k != KPtr || len(ev.args[0].tg) != 1 {
		return nil
	}
	ino := "buf" + strconv.Itoa(int(ev.args[0].tg[0].o))
	n := f.size(st, ino)
	switch m {
	case "Len":
		return []*Out{{st: st, res: []*V{vInt(int64(n))}}}
	case "Reset":
		st.set("n:"+ino, "")
		return []*Out{{st: st}}
	case "Bytes":
		o := e.alloc(st, ev.act, ev.instr, "bytes", nil)
		e.setOM(st, o.id, nil)
		e.putBytes(st, Addr{o.id, 0}, 0, f.bytes(e, st, ino, 0, n))
		return []*Out{{st: st, res: []*V{{k: KSlice, nn: nonNil, tg: []Addr{{o.id, 0}}, off: vInt(0), ln: vInt(int64(n)), cp: vInt(int64(n))}}}}
	}
	return nil
}

// operations on values the model hands out
func (f *FS) values(ev *Ev, st *State) []*Out {
	e := ev.e
	ok := func(v ...*V) []*Out { return []*Out{{st: st, res: v, tag: "ok"}} }
	method := ""
	if ev.com.IsInvoke() {
		method = ev.com.Method.Name()
	}
	if method != "" && len(ev.args) > 0 {
		id := ev.args[0].id
		if n, is := strings.CutPrefix(id, "dirent:"); is {
			i := f.ino(st, n)
			switch method {
			case "Name":
				return ok(vStr(path.Base(n)))
			case "IsDir":
				return ok(vBool(st.get("k:"+i) == "d"))
			}
			return nil
		}
		if i, is := strings.CutPrefix(id, "fs:"); is {
			switch method {
			case "Mode":
				return ok(f.mode(e, st, i))
			case "IsDir":
				return ok(vBool(st.get("k:"+i) == "d"))
			case "Size":
				return ok(vInt(int64(f.size(st, i))))
			case "ModTime":
				t := f.getMeta(e, st, i, "time")
				if t == nil {
					t = vInt(1000000000)
				}
				return ok(f.timeV(ev, t))
			case "Name":
				for _, n := range f.names(st) {
					if f.ino(st, n) == i {
						return ok(vStr(path.Base(n)))
					}
				}
			case "Sys":
				return ok(&V{k: KIface, nn: isNil})
			}
			return nil
		}
	}
	switch ev.name {
	case "time.Now":
		if f.now == nil {
			f.now = e.symInt("now", 1<<30, 1<<31-1, 31)
		}
		return ok(f.timeV(ev, f.now))
	case "time.Unix":
		if c, k := ev.args[1].isConst(); k && c == 0 {
			return ok(f.timeV(ev, ev.args[0]))
		}
	case "(time.Time).Unix":
		if t := f.times[f.timeID(ev.args[0])]; t != nil {
			return ok(t)
		}
	case "(time.Time).Local", "(time.Time).In", "(time.Time).UTC":
		return ok(ev.args[0])
	case "(time.Time).Date", "(time.Time).Clock":
		if id := f.timeID(ev.args[0]); f.times[id] != nil {
			l := []string{"Year", "Month", "Day"}
			if strings.HasSuffix(ev.name, "Clock") {
				l = []string{"Hour", "Minute", "Second"}
			}
			o := ok(nil)
			o[0].res = nil
			for _, n := range l {
				o[0].res = append(o[0].res, calendar(e, id, n))
			}
			return o
		}
	case "(time.Time).Year", "(time.Time).Month", "(time.Time).Day", "(time.Time).Hour", "(time.Time).Minute", "(time.Time).Second":
		if id := f.timeID(ev.args[0]); f.times[id] != nil {
			return ok(calendar(e, id, strings.TrimPrefix(ev.name, "(time.Time).")))
		}
	case "os.Geteuid", "os.Getuid":
		return ok(e.symInt("euid", 0, 65535, 16))
	case "os.Getgid", "os.Getegid":
		return ok(e.symInt("egid", 0, 65535, 16))
	case "(io/fs.FileMode).Perm":
		return ok(e.arith(types.Typ[types.Uint32], token.AND, ev.args[0], vInt(0777)))
	case "(io/fs.FileMode).IsRegular", "(io/fs.FileMode).IsDir", "(io/fs.FileMode).Type":
		m := int64(1<<31 | 1<<27 | 1<<26 | 1<<25 | 1<<24 | 1<<21 | 1<<19)
		if ev.name == "(io/fs.FileMode).IsDir" {
			m = 1 << 31
		}
		x := e.arith(types.Typ[types.Uint32], token.AND, ev.args[0], vInt(m))
		if ev.name == "(io/fs.FileMode).Type" {
			return ok(x)
		}
		if c, k := x.isConst(); k {
			return ok(vBool((c == 0) == (ev.name == "(io/fs.FileMode).IsRegular")))
		}
	case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader":
		b, k := f.content(ev, ev.args[0])
		if !k {
			f.confused(ev, "the bytes of a reader are not known")
			return nil
		}
		i := f.newIno(st, "f")
		st.set("n:"+i, "0")
		f.put(e, st, i, 0, b)
		return ok(f.open(ev, st, i, "memory", "mem:"+ev.name))
	}
	return nil
}

// calendar is a part of the local date and time that belongs to a time stamp
func calendar(e *Engine, id, part string) *V {
	q := map[string][3]int64{"Year": {1980, 2107, 11}, "Month": {1, 12, 4}, "Day": {1, 31, 5}, "Hour": {0, 23, 5}, "Minute": {0, 59, 6}, "Second": {0, 59, 6}}[part]
	return e.symInt("cal."+id+"."+part, q[0], q[1], int(q[2]))
}
