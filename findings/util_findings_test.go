package util

import (
	"bytes"
	"testing"
)

func TestF_ZlibRoundTrip(t *testing.T) {
	in := bytes.Repeat([]byte("hello world "), 1000)
	z, err := Zlib(in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := UnZlib(z)
	if err != nil || !bytes.Equal(in, out) {
		t.Fatal(len(out), err)
	}
}

func TestF_UnZlibTruncated(t *testing.T) {
	z, _ := Zlib(bytes.Repeat([]byte("hello world "), 1000))
	if len(z) > 10 {
		z = z[:len(z)-5]
	}
	if _, err := UnZlib(z); err == nil {
		t.Fatal("truncated input accepted")
	}
}

func TestF_UnGzipTruncated(t *testing.T) {
	z, _ := Gzip(bytes.Repeat([]byte("hello world "), 1000))
	bs := z.Bytes()
	if _, err := UnGzip(bs[:len(bs)-9]); err == nil {
		t.Fatal("truncated input accepted")
	}
	if o, err := UnGzip(bs); err != nil || o.Len() != 12000 {
		t.Fatal(o.Len(), err)
	}
}
