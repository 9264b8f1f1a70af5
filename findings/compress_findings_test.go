package compress

import (
	"bytes"
	"testing"
)

func TestF_ZlibLevel(t *testing.T) {
	in := bytes.Repeat([]byte("hello world "), 1000)
	z, _ := ZlibLevel(in, 5)
	o, err := UnZlib(z)
	if err != nil || !bytes.Equal(in, o) {
		t.Fatal(err)
	}
}
