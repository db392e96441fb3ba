ID="B22"; PROP="C23"
NEEDS="a member whose time is 1 January 1970 or before (level 2 or Unix extension)"
BREAKS="the file keeps the time of its extraction"
EDITS=[("lhext.go",'	if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileSymlink) {\n		_ = os.Chtimes(','	if hdr.UnixLastModifiedStamp > 0 && (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileSymlink) {\n		_ = os.Chtimes(')]
DEMO='''
func TestZZDemo(t *testing.T) {
	MakeCrcTable()
	d := zzScratch(t)
	n := filepath.Join(d, "out.lzh")
	if err := os.WriteFile("zfile", []byte("text"), 0644); err != nil {
		t.Fatal(err)
	}
	when := time.Unix(0, 0)
	if err := os.Chtimes("zfile", when, when); err != nil {
		t.Fatal(err)
	}
	l := NewLha(n)
	l.HeaderLevel = 2
	l.CmdFilec = 1
	l.CmdFilev = []string{"zfile"}
	if err := CommandAdd(n, l); err != nil {
		t.Fatal(err)
	}
	out := filepath.Join(d, "out")
	l = NewLha(n)
	l.ExtractDirectory = out
	if err := CommandExtract(n, l); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Lstat(filepath.Join(out, "zfile"))
	if err != nil || fi.ModTime().Unix() != 0 {
		t.Fatal(fi.ModTime(), err)
	}
}
'''
