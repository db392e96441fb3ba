ID="B21"; PROP="C17"
NEEDS="a member whose packed data go on after the decoder has all it needs, followed by another member"
BREAKS="the header of the next member is sought inside the data of the one before"
_s=open('/repo/lhext.go').read()
_a=_s.index('func CommandExtract(')
_b=_s.index('func adjustInfo(')
_old=_s[_a:_b]
EDITS=[("lhext.go",_old,_old.replace('if readSize != hdr.PackedSize {','if readSize == 0 {'))]
DEMO='''
func TestZZDemo(t *testing.T) {
	MakeCrcTable()
	body := []byte("some text")
	n := zzArchive(t, zzMember("-lh0-", "a", append(append([]byte(nil), body...), "left over"...), len(body), zzCrc(body), 0100644), zzStored("b", []byte("other")))
	out := filepath.Join(filepath.Dir(n), "out")
	l := NewLha(n)
	l.ExtractDirectory = out
	if err := CommandExtract(n, l); err != nil {
		t.Fatal(err)
	}
	for k, v := range map[string]string{"a": "some text", "b": "other"} {
		b, err := os.ReadFile(filepath.Join(out, k))
		if err != nil || string(b) != v {
			t.Fatalf("%s: %q %v", k, b, err)
		}
	}
}
'''
