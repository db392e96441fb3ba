ID="B13"; PROP="C04"
NEEDS="a level 1 header for a name of exactly one byte more than fits"
BREAKS="the header size byte wraps to zero, so readers take the member for the end of the archive"
EDITS=[("header.go","	limit = 255 - iLevel1HeaderSize + 2\n","	limit = 255 - iLevel1HeaderSize + 2 + 3\n")]
DEMO='''
func TestZZDemo(t *testing.T) {
	MakeCrcTable()
	for n := 1; n < 300; n++ {
		name := strings.Repeat("n", n)
		h := NewLzHeader()
		h.HeaderLevel = 1
		copy(h.Method, "-lh0-")
		h.Name = append([]byte(name), 0)
		h.UnixMode = 0100644
		h.PackedSize, h.OriginalSize = 7, 7
		h.UnixLastModifiedStamp = 1000000000
		var b bytes.Buffer
		var w io.Writer = &b
		if err := WriteHeader(&w, h); err != nil {
			t.Fatal(err)
		}
		var r io.Reader = &b
		g := NewLzHeader()
		err, ok := g.GetHeader(&r)
		if err != nil || !ok || g.PackedSize != 7 || string(g.Name[:n]) != name || b.Len() != 0 {
			t.Fatalf("name of %d bytes: header not readable: %v %v", n, err, ok)
		}
	}
}
'''
