ID="B01"; PROP="C07"
NEEDS="testing a compressed member that is larger than its dictionary window"
BREAKS="full windows of a member are printed while the archive is only being tested"
EDITS=[("crcio.go","	if VerifyMode {","	if VerifyMode && n != dicsiz {")]
DEMO='''
func TestZZDemo(t *testing.T) {
	zzScratch(t)
	body := bytes.Repeat([]byte("abcdefgh12345678abcdefgh12345670"), 2000)
	if err := os.WriteFile("big.txt", body, 0644); err != nil {
		t.Fatal(err)
	}
	if err := NewLha("a.lzh").Compress("big.txt", Lzhuff5MethodNum, 0); err != nil {
		t.Fatal(err)
	}
	saved := os.Stdout
	out, err := os.Create("out")
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = out
	VerifyMode = true
	err = CommandExtract("a.lzh", NewLha("a.lzh"))
	VerifyMode = false
	os.Stdout = saved
	if err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile("out")
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Contains(b, []byte("abcdefgh12345678")) {
		t.Fatal("testing printed member data")
	}
}
'''
