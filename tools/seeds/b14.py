ID="B14"; PROP="C20"
NEEDS="a member whose packed form is exactly one byte longer than the original"
BREAKS="one byte more than the original size is written and the member is not marked as not packable"
EDITS=[("bitio.go","		if l.compsize < l.origsize {","		if l.compsize <= l.origsize {")]
DEMO='''
func TestZZDemo(t *testing.T) {
	for n := 0; n < 12; n++ {
		var b bytes.Buffer
		l := NewLha("x")
		l.outfile = &b
		l.origsize = 5
		l.initPutbits()
		for i := 0; i < n; i++ {
			if err := l.putbits(8, uint16(i+1)); err != nil {
				t.Fatal(err)
			}
		}
		if b.Len() > 5 || l.unpackable != (n > 5) {
			t.Fatalf("%d bytes for a member of 5: %d written, not packable %v", n, b.Len(), l.unpackable)
		}
	}
}
'''
