ID="B11"; PROP="C22"
NEEDS="the flags -u and -m given together, with a file that is older than the member of the same name"
BREAKS="updating replaces the newer member by the older file and deletes the file"
EDITS=[("cmd/lharc.go","	if *updatefile {\n","	if *updatefile && !*movefile {\n")]
DEMO='''
func zzRun(t *testing.T, dir string, argv ...string) int {
	t.Helper()
	p, err := os.StartProcess(argv[0], argv, &os.ProcAttr{Dir: dir, Env: os.Environ(), Files: []*os.File{nil, nil, os.Stderr}})
	if err != nil {
		t.Fatal(err)
	}
	s, err := p.Wait()
	if err != nil {
		t.Fatal(err)
	}
	return s.ExitCode()
}

func TestZZDemo(t *testing.T) {
	src, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	d := t.TempDir()
	bin := filepath.Join(d, "lharc")
	gobin := ""
	for _, p := range filepath.SplitList(os.Getenv("PATH")) {
		if _, err := os.Stat(filepath.Join(p, "go")); err == nil && gobin == "" {
			gobin = filepath.Join(p, "go")
		}
	}
	if c := zzRun(t, src, gobin, "build", "-o", bin, "./cmd"); c != 0 {
		t.Fatal("build", c)
	}
	n := filepath.Join(d, "x.lzh")
	f := filepath.Join(d, "file")
	put := func(s string, sec int64) {
		if err := os.WriteFile(f, []byte(s), 0644); err != nil {
			t.Fatal(err)
		}
		tm := time.Unix(sec, 0)
		if err := os.Chtimes(f, tm, tm); err != nil {
			t.Fatal(err)
		}
	}
	put("new contents", 1500000000)
	if c := zzRun(t, d, bin, "-archive", n, "-a", "file"); c != 0 {
		t.Fatal("add", c)
	}
	put("old", 1400000000)
	if c := zzRun(t, d, bin, "-archive", n, "-u", "-m", "-a", "file"); c != 0 {
		t.Fatal("update", c)
	}
	hs, err := NewLha(n).Headers()
	if err != nil || len(hs) != 1 {
		t.Fatal(hs, err)
	}
	if hs[0].OriginalSize != len("new contents") {
		t.Fatal("the newer member was replaced")
	}
}
'''
