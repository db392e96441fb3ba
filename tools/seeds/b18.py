ID="B18"; PROP="C05"
NEEDS="a block whose offset code has lengths of ten bits or more"
BREAKS="an offset code longer than nine bits is consumed as if it had nine, all that follows is decoded from the wrong bit"
EDITS=[("huf.go","		_ = l.fillbuf(ptLen[j] - 8)\n","		_ = l.fillbuf(min8(ptLen[j]-8, 1))\n"),("huf.go","func min16(a, b int16) int16 {","func min8(a, b byte) byte {\n	if a > b {\n		return b\n	}\n	return a\n}\n\nfunc min16(a, b int16) int16 {")]
DEMO='''
type zzBits struct {
	b []byte
	n uint
}

func (z *zzBits) put(n uint, v uint) {
	for i := int(n) - 1; i >= 0; i-- {
		if z.n%8 == 0 {
			z.b = append(z.b, 0)
		}
		if v>>uint(i)&1 != 0 {
			z.b[len(z.b)-1] |= 0x80 >> (z.n % 8)
		}
		z.n++
	}
}

func TestZZDemo(t *testing.T) {
	MakeCrcTable()
	var z zzBits
	var want []byte
	z.put(16, 702) // items
	// code lengths of the code lengths: 2 and 4, one bit each
	z.put(5, 5)
	z.put(3, 0)
	z.put(3, 0)
	z.put(3, 1)
	z.put(2, 1)
	z.put(3, 1)
	// a, b, c and the match of three bytes: two bits each
	z.put(9, 257)
	z.put(1, 0)
	z.put(9, 97-20)
	z.put(3, 7)
	z.put(1, 0)
	z.put(9, 156-20)
	z.put(1, 1)
	// offsets: lengths 1 to 10, the last twice
	z.put(4, 11)
	for k := uint(1); k <= 10; k++ {
		for i := 0; i < 1 || k == 10 && i < 2; i++ {
			if k < 7 {
				z.put(3, k)
			} else {
				z.put(k-3, 1<<(k-3)-2)
			}
		}
	}
	for i := 0; i < 700; i++ {
		c := (i*i/7 + i/5) % 3
		z.put(2, uint(c))
		want = append(want, byte('a'+c))
	}
	match := func(sym, extra uint) {
		z.put(2, 3)
		if sym == 10 {
			z.put(10, 1023)
		} else {
			z.put(sym+1, 1<<(sym+1)-2)
		}
		z.put(sym-1, extra)
		off := int(1<<(sym-1) + extra + 1)
		for i := 0; i < 3; i++ {
			want = append(want, want[len(want)-off])
		}
	}
	match(9, 77)
	match(10, 33)
	z.put(16, 0)
	n := zzArchive(t, zzMember("-lh5-", "f", z.b, len(want), zzCrc(want), 0100644))
	l := NewLha(n)
	hs, err := l.Headers()
	if err != nil || len(hs) != 1 {
		t.Fatal(err, len(hs))
	}
	got, err := l.DecompresBytes(hs[0])
	if err != nil || !bytes.Equal(got, want) {
		t.Fatal("decoded wrongly", err, len(got), len(want))
	}
}
'''
