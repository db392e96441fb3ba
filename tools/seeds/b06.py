ID="B06"; PROP="C08"
NEEDS="a dry run of adding bytes with the backup setting on"
BREAKS="the dry run creates a temporary file in the archive's directory"
_s=open('/repo/lhext.go').read()
_a=_s.index('fmt.Printf("no files given in argument")')
_b=_s.index('	if !l.Noexec {\n',_a)+len('	if !l.Noexec {\n')
EDITS=[("lhext.go",_s[_a:_b],_s[_a:_b].replace("	if !l.Noexec {","	if !l.Noexec || l.BackupOldArchive {"))]
DEMO='''
func TestZZDemo(t *testing.T) {
	n := zzArchive(t, zzStored("a", []byte("hello")))
	old := time.Unix(1000000000, 0)
	if err := os.Chtimes(filepath.Dir(n), old, old); err != nil {
		t.Fatal(err)
	}
	before := zzTree(t, filepath.Dir(n))
	l := NewLha(n)
	l.Noexec = true
	l.BackupOldArchive = true
	_ = l.CompressBytes("b", []byte("some text"), Lzhuff5MethodNum, 0)
	if after := zzTree(t, filepath.Dir(n)); after != before {
		t.Fatalf("changed:\\n%s\\n%s", before, after)
	}
}
'''
