package uuid

import "testing"

func TestF_Equals(t *testing.T) {
	u := NewUUID()
	v, err := Parse(u.String())
	if err != nil || !u.Equals(v) {
		t.Fatal("a UUID does not equal its parsed copy")
	}
}
