ID="B08"; PROP="C10"
NEEDS="moving a file into an archive whose place cannot be taken (a directory has its name)"
BREAKS="the source file is deleted although the new archive could not be installed"
_s=open('/repo/lhext.go').read()
_a=_s.index('			err := os.Rename(l.temporaryName, l.newArchiveName)', _s.index('func CommandAdd('))
_b=_s.index('	if l.DeleteAfterAppend && !l.Noexec {',_a)
_old=_s[_a:_b]
EDITS=[("lhext.go",_old,_old.replace('return fmt.Errorf("error while renaming file error : %v", err.Error())','failure = fmt.Errorf("error while renaming file error : %v", err.Error())'))]
DEMO='''
func TestZZDemo(t *testing.T) {
	d := zzScratch(t)
	n := filepath.Join(d, "out.lzh")
	if err := os.MkdirAll(filepath.Join(n, "x"), 0755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile("zfile", []byte("new text"), 0644); err != nil {
		t.Fatal(err)
	}
	l := NewLha(n)
	l.NewArchive = true
	l.DeleteAfterAppend = true
	l.CmdFilec = 1
	l.CmdFilev = []string{"zfile"}
	MakeCrcTable()
	_ = CommandAdd(n, l)
	if _, err := os.Lstat("zfile"); err != nil {
		t.Fatal("the source is gone", err)
	}
}
'''
