ID="B20"; PROP="C19"
NEEDS="a symbolic link whose target has another modification time"
BREAKS="the link is recorded with the time of its target"
EDITS=[("header.go",'	hdr.UnixLastModifiedStamp = vStat.ModTime().Unix()\n\n	info, err := os.Stat(name)\n','	info, err := os.Stat(name)\n'),
("header.go",'		info = vStat\n	}\n','		info = vStat\n	}\n	hdr.UnixLastModifiedStamp = info.ModTime().Unix()\n')]
DEMO='''
func TestZZDemo(t *testing.T) {
	MakeCrcTable()
	d := zzScratch(t)
	n := filepath.Join(d, "out.lzh")
	if err := os.WriteFile("target", []byte("text"), 0644); err != nil {
		t.Fatal(err)
	}
	when := time.Unix(1000000000, 0)
	if err := os.Chtimes("target", when, when); err != nil {
		t.Fatal(err)
	}
	if err := os.Symlink("target", "zlink"); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Lstat("zlink")
	if err != nil {
		t.Fatal(err)
	}
	l := NewLha(n)
	l.CmdFilec = 1
	l.CmdFilev = []string{"zlink"}
	if err := CommandAdd(n, l); err != nil {
		t.Fatal(err)
	}
	hs, err := NewLha(n).Headers()
	if err != nil || len(hs) != 1 {
		t.Fatal(hs, err)
	}
	if got, want := hs[0].UnixLastModifiedStamp, fi.ModTime().Unix(); got-want > 2 || want-got > 2 {
		t.Fatalf("recorded %d, link has %d", got, want)
	}
}
'''
