ID="B10"; PROP="C14"
NEEDS="two lz5 members decoded with one handle, the first ending inside a group of eight"
BREAKS="the second member is decoded with the flag bits left by the first"
EDITS=[("larc.go","	var i int\n\n	l.flagcnt = 0\n	for i","	var i int\n\n	l.flagcnt &= 7\n	for i")]
DEMO='''
func TestZZDemo(t *testing.T) {
	zzScratch(t)
	MakeCrcTable()
	l := NewLha("x.lzh")
	for i := 0; i < 3; i++ {
		var b bytes.Buffer
		var n int
		body := []byte("abc")
		crc := l.DecodeLzhuf(bytes.NewReader([]byte{0xff, 'a', 'b', 'c'}), &b, 3, 4, "m", Larc5MethodNum, &n)
		if b.String() != "abc" || uint16(crc) != zzCrc(body) {
			t.Fatalf("round %d: %q", i, b.String())
		}
	}
}
'''
