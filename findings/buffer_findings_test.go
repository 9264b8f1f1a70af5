package buffer

import (
	"io"
	"testing"
)

func TestF_WriteInt32(t *testing.T) {
	b := NewBuffer()
	if n, _ := b.WriteInt32(7); n != b.Len() {
		t.Fatal(n, b.Len())
	}
}

func TestF_ReadDrains(t *testing.T) {
	b := NewBufferBySlice([]byte("hello"))
	p := make([]byte, 8)
	n, err := b.Read(p)
	if n != 5 || err != nil {
		t.Fatal(n, err)
	}
	if n, err = b.Read(p); n != 0 || err != io.EOF {
		t.Fatal("read the same bytes again", n, err)
	}
}
