ID="B05"; PROP="C15"
NEEDS="collecting headers of an archive with a damaged member, or a panic while decoding"
BREAKS="the archive stays open after collecting headers fails"
EDITS=[("lha.go","	defer fr.Close()\n",""),("lha.go","	return headers, nil\n}\n\nfunc (l *Lha) Decompress(","	return headers, fr.Close()\n}\n\nfunc (l *Lha) Decompress(")]
DEMO='''
func TestZZDemo(t *testing.T) {
	a := zzArchive(t, zzMember("-lh0-", "x", []byte("damaged"), 7, 1, 0100644))
	n := zzOpenFiles(t)
	if _, err := NewLha(a).Headers(); err == nil {
		t.Fatal("damage not noticed")
	}
	if m := zzOpenFiles(t); m != n {
		t.Fatalf("%d files are open, before %d", m, n)
	}
}
'''
