ID="B17"; PROP="C24"
NEEDS="method -lh7- (64 KiB window) and a source longer than the window whose tail repeats keys of the second half of the window"
BREAKS="only the first 32768 links of the search chains follow the moving window, so the compressor emits matches to wrong places"
EDITS=[("slide.go","	for i = 0; i < uint(dicsiz); i++ {\n		j = prevs[i]\n","	for i = 0; i < hshsiz; i++ {\n		j = prevs[i]\n")]
DEMO='''
func zzTrip(t *testing.T, body []byte, method int) []byte {
	d := zzScratch(t)
	n := filepath.Join(d, "out.lzh")
	if err := os.WriteFile("zfile", body, 0644); err != nil {
		t.Fatal(err)
	}
	MakeCrcTable()
	l := NewLha(n)
	if err := l.Compress("zfile", method, 0); err != nil {
		t.Fatal(err)
	}
	l = NewLha(n)
	hs, err := l.Headers()
	if err != nil || len(hs) != 1 {
		t.Fatal(err, len(hs))
	}
	got, err := l.DecompresBytes(hs[0])
	if err != nil {
		t.Fatal(err)
	}
	return got
}

func TestZZDemo(t *testing.T) {
	x := uint32(1)
	for round := 0; round < 6; round++ {
		var body []byte
		for len(body) < 300000 {
			x = x*1664525 + 1013904223
			if len(body) > 1000 && x>>28 < 12 {
				at := len(body) - 1 - int(x>>4)%min(len(body)-1, 66000)
				for i := 0; i < 20; i++ {
					body = append(body, body[at+i%(len(body)-at)])
				}
				continue
			}
			body = append(body, byte(x>>20)&63)
		}
		res := make(chan bool, 1)
		go func() { res <- bytes.Equal(zzTrip(t, body, Lzhuff7MethodNum), body) }()
		select {
		case ok := <-res:
			if !ok {
				t.Fatal("what was compressed does not come back")
			}
		case <-time.After(60 * time.Second):
			panic("compressing does not end")
		}
	}
}
'''
