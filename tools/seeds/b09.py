ID="B09"; PROP="C11"
NEEDS="a source file whose reading fails after some bytes of a block were delivered"
BREAKS="the read error is taken for the end of the file, and the cut file is archived as success"
EDITS=[("crcio.go","			if err != io.ErrUnexpectedEOF {\n","			if err != io.ErrUnexpectedEOF && n == 0 {\n")]
DEMO='''
type zzBroken struct{ n int }

func (r *zzBroken) Read(p []byte) (int, error) {
	if r.n == 0 {
		return 0, fmt.Errorf("input/output error")
	}
	r.n--
	p[0] = 'x'
	return 1, nil
}

func TestZZDemo(t *testing.T) {
	zzScratch(t)
	MakeCrcTable()
	l := NewLha("x.lzh")
	l.CompressMethod = Lzhuff5MethodNum
	var r io.Reader = &zzBroken{n: 1000}
	var b bytes.Buffer
	var w io.Writer = &b
	var o, k int
	if _, err := l.EncodeLzhuf(&r, &w, 5000, &o, &k, []byte("f"), []byte("-lh5-")); err == nil {
		t.Fatal("the read error is not reported")
	}
}
'''
