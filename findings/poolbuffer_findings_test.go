package buffer

import "testing"

func TestF_PutNil(t *testing.T) {
	if NewBufferPool(3).Put(nil) {
		t.Fatal("Put(nil) reports true")
	}
}
