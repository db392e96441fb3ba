package lha

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"
)

var _ = bytes.Equal
var _ = fmt.Sprint
var _ = io.EOF
var _ = os.Args
var _ = filepath.Join
var _ = runtime.GC
var _ = strings.Index
var _ = time.Now

func zzCrc(b []byte) uint16 {
	var c uint16
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xa001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

// a level 0 member
func zzMember(method, name string, data []byte, orig int, crc uint16, mode uint16) []byte {
	h := []byte{0, 0}
	h = append(h, method...)
	l4 := func(v int) { h = append(h, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }
	l2 := func(v int) { h = append(h, byte(v), byte(v>>8)) }
	l4(len(data))
	l4(orig)
	l4(0x21<<16 | 0)
	h = append(h, 0x20, 0, byte(len(name)))
	h = append(h, name...)
	l2(int(crc))
	h = append(h, 'U', 0)
	l4(1000000000)
	l2(int(mode))
	l2(0)
	l2(0)
	h[0] = byte(len(h) - 2)
	s := byte(0)
	for _, x := range h[2:] {
		s += x
	}
	h[1] = s
	return append(h, data...)
}

func zzStored(name string, body []byte) []byte {
	return zzMember("-lh0-", name, body, len(body), zzCrc(body), 0100644)
}

// an archive file in a scratch directory, which becomes the working directory
func zzArchive(t *testing.T, members ...[]byte) string {
	t.Helper()
	d := zzScratch(t)
	n := filepath.Join(d, "in.lzh")
	b := bytes.Join(members, nil)
	if err := os.WriteFile(n, append(b, 0), 0644); err != nil {
		t.Fatal(err)
	}
	return n
}

func zzScratch(t *testing.T) string {
	t.Helper()
	d := t.TempDir()
	w := filepath.Join(d, "work")
	if err := os.Mkdir(w, 0755); err != nil {
		t.Fatal(err)
	}
	if err := os.Chdir(w); err != nil {
		t.Fatal(err)
	}
	return d
}

// everything below a directory, with contents
func zzTree(t *testing.T, d string) string {
	t.Helper()
	var sb strings.Builder
	err := filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		fmt.Fprintf(&sb, "%s %v %v", p, fi.Mode(), fi.ModTime().UnixNano())
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fmt.Fprintf(&sb, " %d %x", len(b), zzCrc(b))
		}
		sb.WriteByte('\n')
		return nil
	})
	if err != nil {
		t.Fatal(err)
	}
	return sb.String()
}

// answers for the questions asked on standard input
func zzStdin(t *testing.T, s string) {
	t.Helper()
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	go func() { _, _ = w.WriteString(s); w.Close() }()
	os.Stdin = r
}

func zzOpenFiles(t *testing.T) int {
	t.Helper()
	e, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, x := range e {
		l, err := os.Readlink("/proc/self/fd/" + x.Name())
		if err == nil && strings.HasPrefix(l, os.TempDir()) {
			n++
		}
	}
	return n
}
