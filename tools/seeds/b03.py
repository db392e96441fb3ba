ID="B03"; PROP="C06"
NEEDS="a directory member whose name is two dots"
BREAKS="the parent of the extraction directory gets the mode and time recorded in the archive"
EDITS=[("lhext.go","	return state == 2\n","	return state == 2 && len(path) > 2\n")]
DEMO='''
func TestZZDemo(t *testing.T) {
	a := zzArchive(t, zzMember("-lhd-", "x/..", nil, 0, 0, 0040700))
	up, err := filepath.Abs("..")
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Chmod(up, 0755); err != nil {
		t.Fatal(err)
	}
	_ = CommandExtract(a, NewLha(a))
	fi, err := os.Stat(up)
	if err != nil {
		t.Fatal(err)
	}
	if fi.Mode().Perm() != 0755 || fi.ModTime().Unix() == 1000000000 {
		t.Fatal("the parent directory was changed")
	}
}
'''
