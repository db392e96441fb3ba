ID="B07"; PROP="C09"
NEEDS="the backup setting on and an old archive whose header turns out to be broken while files are added"
BREAKS="the old archive is moved to its backup name before the new one is complete, and is missing when adding fails"
_s=open('/repo/lhext.go').read()
_a=_s.index('	/* build temporary file */', _s.index('func CommandAdd('))
_b=_s.index('	if !l.Noexec {\n',_a)+len('	if !l.Noexec {\n')
_p=_s.rindex('\n	} else {\n',0,_a)+1
_c=_s.index('/* build backup archive file */',_a)
_d=_s.index('buildBackupFile(l); err',_c)
_e=_s.index('reportArchiveNameIfDifferent(l)',_d)
_old=_s[_p:_e]
_o2=_old.replace('	/* build temporary file */\n','	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {\n		if err := buildBackupFile(l); err != nil {\n			return err\n		}\n	}\n\n	/* build temporary file */\n',1)
_k=_o2.rindex('if err := buildBackupFile(l); err')
_o2=_o2[:_k]+_o2[_k:].replace('if err := buildBackupFile(l); err','if _, err := os.Stat(l.temporaryName); err')
EDITS=[("lhext.go",_old,_o2)]
DEMO='''
func TestZZDemo(t *testing.T) {
	bad := zzStored("m", []byte("hello"))
	bad[1] ^= 0x55
	n := zzArchive(t, zzStored("a", []byte("hello")), bad)
	want, _ := os.ReadFile(n)
	if err := os.WriteFile("zfile", []byte("new text"), 0644); err != nil {
		t.Fatal(err)
	}
	l := NewLha(n)
	l.BackupOldArchive = true
	l.CmdFilec = 1
	l.CmdFilev = []string{"zfile"}
	MakeCrcTable()
	if err := CommandAdd(n, l); err == nil {
		t.Fatal("no error")
	}
	got, err := os.ReadFile(n)
	if err != nil || !bytes.Equal(got, want) {
		t.Fatal("the old archive is gone", err)
	}
}
'''
