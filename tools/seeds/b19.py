ID="B19"; PROP="C21"
NEEDS="updating a sorted archive with a file that changed but has the very time the member records"
BREAKS="a member is replaced although the file is not newer"
_s=open('/repo/lhext.go').read()
_a=_s.index('	if !replace { /* not in archive */', _s.index('func (l *Lha) appendIt('))
_b=_s.index('		} else { /* copy old to new */',_a)
_a0=_s.index('func (l *Lha) appendIt(')
_old=_s[_a0:_b]
EDITS=[("lhext.go",_old,_old.replace('ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp','ahdr.UnixLastModifiedStamp <= hdr.UnixLastModifiedStamp'))]
DEMO='''
func TestZZDemo(t *testing.T) {
	MakeCrcTable()
	d := zzScratch(t)
	n := filepath.Join(d, "out.lzh")
	when := time.Unix(1000000000, 0)
	put := func(body string, update bool) {
		if err := os.WriteFile("zfile", []byte(body), 0644); err != nil {
			t.Fatal(err)
		}
		if err := os.Chtimes("zfile", when, when); err != nil {
			t.Fatal(err)
		}
		l := NewLha(n)
		l.SortContents = true
		l.UpdateIfNewer = update
		l.CmdFilec = 1
		l.CmdFilev = []string{"zfile"}
		if err := CommandAdd(n, l); err != nil {
			t.Fatal(err)
		}
	}
	put("the first text", false)
	put("a second text", true)
	out := filepath.Join(d, "out")
	l := NewLha(n)
	l.ExtractDirectory = out
	if err := CommandExtract(n, l); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(filepath.Join(out, "zfile"))
	if err != nil || string(b) != "the first text" {
		t.Fatalf("%q %v", b, err)
	}
}
'''
