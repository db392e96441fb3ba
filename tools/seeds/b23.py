ID="B23"; PROP="C01"
NEEDS="a file that packing does not make smaller"
BREAKS="the data are stored but the header names the packing method, so the file cannot be extracted"
EDITS=[("lhext.go",'		copy(hdr.Method, []byte(Lzhuff0Method))\n	}\n	hdr.OriginalSize = vOriginalSize','		if vPackedSize > vOriginalSize {\n			copy(hdr.Method, []byte(Lzhuff0Method))\n		}\n	}\n	hdr.OriginalSize = vOriginalSize')]
DEMO='''
func TestZZDemo(t *testing.T) {
	MakeCrcTable()
	d := zzScratch(t)
	n := filepath.Join(d, "out.lzh")
	if err := os.WriteFile("zfile", []byte("xyz"), 0644); err != nil {
		t.Fatal(err)
	}
	l := NewLha(n)
	l.CompressMethod = 5
	l.CmdFilec = 1
	l.CmdFilev = []string{"zfile"}
	if err := CommandAdd(n, l); err != nil {
		t.Fatal(err)
	}
	out := filepath.Join(d, "out")
	l = NewLha(n)
	l.ExtractDirectory = out
	if err := CommandExtract(n, l); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(filepath.Join(out, "zfile"))
	if err != nil || string(b) != "xyz" {
		t.Fatalf("%q %v", b, err)
	}
}
'''
