ID="B15"; PROP="C16"
NEEDS="the quiet setting on while an archive is tested or its headers are collected"
BREAKS="the quiet setting is lost after testing"
EDITS=[("lhext.go","			saveQuiet = Quiet\n			saveVerbose = l.Verbose\n","			saveVerbose = l.Verbose\n"),
("lhext.go","			if !Quiet && l.OutputToStdout {\n				fmt.Fprintf(os.Stdout, \"::::::::\\n%s\\n::::::::\\n\", string(name[:]))\n","			if !Quiet && l.OutputToStdout {\n				fmt.Fprintf(os.Stdout, \"::::::::\\n%s\\n::::::::\\n\", string(name[:]))\n				saveQuiet = Quiet\n")]
DEMO='''
func TestZZDemo(t *testing.T) {
	a := zzArchive(t, zzStored("a.txt", []byte("abc")))
	for _, q := range []bool{false, true} {
		Quiet = q
		if _, err := NewLha(a).Headers(); err != nil {
			t.Fatal(err)
		}
		if Quiet != q {
			t.Fatalf("quiet was %v and is %v after Headers", q, Quiet)
		}
	}
}
'''
