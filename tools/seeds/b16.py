ID="B16"; PROP="C13"
NEEDS="a level 3 header that claims a first extended header of a gigabyte"
BREAKS="a few bytes of archive make the reader allocate a gigabyte"
EDITS=[("header.go","	data := make([]byte, lzheaderStorage)\n	var dirname []byte\n","	data := make([]byte, max(headerSize, lzheaderStorage))\n	var dirname []byte\n")]
DEMO='''
func TestZZDemo(t *testing.T) {
	MakeCrcTable()
	h := []byte{4, 0}
	h = append(h, "-lh0-"...)
	h = append(h, 5, 0, 0, 0, 5, 0, 0, 0, 1, 2, 3, 4, 0x20, 3, 0x34, 0x12, 'U')
	h = append(h, 0, 0, 0, 0x40, 0, 0, 0, 0x20)
	h = append(h, make([]byte, 100)...)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var r io.Reader = bytes.NewReader(h)
	err, ok := NewLzHeader().GetHeader(&r)
	runtime.ReadMemStats(&b)
	if err == nil && ok {
		t.Fatal("accepted")
	}
	if n := b.TotalAlloc - a.TotalAlloc; n > 64<<20 {
		t.Fatalf("%d bytes allocated for a header of %d", n, len(h))
	}
}
'''
