ID="B02"; PROP="C18"
NEEDS="the answer skip for an existing file"
BREAKS="after the answer skip the existing file is overwritten all the same"
EDITS=[("lhext.go","			case 6, 7: /* S/s */\n				l.skipFlg = true\n","			case 6, 7: /* S/s */\n				l.skipFlg = l.Verbose\n")]
DEMO='''
func TestZZDemo(t *testing.T) {
	a := zzArchive(t, zzStored("x.txt", []byte("new contents")))
	if err := os.WriteFile("x.txt", []byte("mine"), 0644); err != nil {
		t.Fatal(err)
	}
	zzStdin(t, "S\\n")
	if err := CommandExtract(a, NewLha(a)); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile("x.txt")
	if string(b) != "mine" {
		t.Fatal("replaced without consent")
	}
}
'''
