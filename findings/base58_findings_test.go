package base58

import "testing"

func TestF_Overflow(t *testing.T) {
	if v, ok := DecodeForInt64([]byte("zzzzzzzzzzzzzzzz")); ok {
		t.Fatal("overflow accepted", v)
	}
	if v, ok := DecodeForInt64(EncodeForInt64(1<<64 - 1)); !ok || v != 1<<64-1 {
		t.Fatal(v, ok)
	}
}
