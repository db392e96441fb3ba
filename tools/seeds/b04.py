ID="B04"; PROP="C02"
NEEDS="decoding to memory a member whose recorded checksum is zero"
BREAKS="a damaged member whose header records the checksum 0 is returned as intact"
EDITS=[("lhext.go","		if hdr.HasCrc && crc != hdr.Crc {\n			return 0, outputData.Bytes()","		if hdr.HasCrc && hdr.Crc != 0 && crc != hdr.Crc {\n			return 0, outputData.Bytes()")]
DEMO='''
func TestZZDemo(t *testing.T) {
	a := zzArchive(t, zzMember("-lh0-", "x", []byte("damaged"), 7, 0, 0100644))
	f, err := os.Open(a)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var r io.Reader = f
	MakeCrcTable()
	h := NewLzHeader()
	if err, ok := h.GetHeader(&r); err != nil || !ok {
		t.Fatal(err)
	}
	if _, err := NewLha(a).DecompresBytes(h); err == nil {
		t.Fatal("damaged member accepted")
	}
}
'''
