package mmap

import (
	"os"
	"testing"
)

func mk(t *testing.T, n int64) *os.File {
	f, err := os.OpenFile(t.TempDir()+"/f", os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		t.Fatal(err)
	}
	f.Truncate(n)
	return f
}

func TestF_NegativeOffset(t *testing.T) {
	m, err := NewMMAP(mk(t, 4096), 0)
	if err != nil {
		t.Fatal(err)
	}
	if m.WriteAt([]byte("x"), -1) == nil {
		t.Fatal("accepted")
	}
}
func TestF_HugeOffset(t *testing.T) {
	m, _ := NewMMAP(mk(t, 4096), 0)
	if m.WriteAt([]byte("x"), 1<<63-1) == nil {
		t.Fatal("accepted")
	}
}
func TestF_NegativeStart(t *testing.T) {
	m, err := NewMMAP(mk(t, 4096), -8)
	if err == nil {
		m.Append([]byte("x"))
		t.Fatal("accepted")
	}
}
func TestF_EmptySyncAtEnd(t *testing.T) {
	m, _ := NewMMAP(mk(t, int64(os.Getpagesize())), 0)
	m.Append(make([]byte, os.Getpagesize()))
	if _, err := m.AppendSync(nil); err != nil {
		t.Fatal(err)
	}
}
