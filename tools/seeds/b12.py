ID="B12"; PROP="C03"
NEEDS="a level 2 header with a damaged byte whose recorded header CRC reads zero"
BREAKS="a header CRC of zero is taken for absent, so a damaged header is accepted"
EDITS=[("header.go","		hcrc = updateCrc(hcrc, buf[0])\n	}\n\n	if l.HeaderCrc != hcrc {\n","		hcrc = updateCrc(hcrc, buf[0])\n	}\n\n	if l.HeaderCrc != 0 && l.HeaderCrc != hcrc {\n")]
DEMO='''
func TestZZDemo(t *testing.T) {
	MakeCrcTable()
	h := []byte{0, 0}
	h = append(h, "-lh0-"...)
	h = append(h, 5, 0, 0, 0, 5, 0, 0, 0, 1, 2, 3, 4, 0x20, 2, 0x34, 0x12, 'U')
	h = append(h, 5, 0, 0, 0, 0)
	at := len(h) - 2
	h = append(h, 4, 0, 1, 'f', 0, 0)
	h[0] = byte(len(h))
	c := zzCrc(h)
	read := func(b []byte) (error, bool) {
		var r io.Reader = bytes.NewReader(b)
		return NewLzHeader().GetHeader(&r)
	}
	ok := append([]byte(nil), h...)
	ok[at], ok[at+1] = byte(c), byte(c>>8)
	if err, b := read(ok); err != nil || !b {
		t.Fatal("intact header refused", err)
	}
	h[7] = 6
	if err, b := read(h); err == nil && b {
		t.Fatal("a header with a wrong CRC is accepted")
	}
}
'''
