package fastio

import (
	"os"
	"reflect"
	"testing"
	"time"
	"unsafe"
)

func TestF_ErrorLeaksLock(t *testing.T) {
	f, _ := os.OpenFile(t.TempDir()+"/f", os.O_RDWR|os.O_CREATE, 0666)
	fh, _ := New(f)
	m := fh.(*fileHandle).writer.(*mwriter)
	f.Close() // every write now fails
	m.cc = 1  // another writer is in flight: take the queueing path
	if _, err := m.WriteSync([]byte("x")); err == nil {
		t.Fatal("failed write reported as success")
	}
	m.cc = 0
	done := make(chan error, 1)
	go func() { _, err := m.WriteSync([]byte("y")); done <- err }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(2 * time.Second):
		t.Fatal("the lock was leaked by the failed write")
	}
}

func TestF_CloseDrains(t *testing.T) {
	p := t.TempDir() + "/f"
	fh, _ := Open(p)
	h := fh.(*fileHandle)
	m := h.writer.(*mwriter)
	m.cc = 1
	busy(m, true) // a flush is in progress: Write returns at once
	if n, err := m.Write([]byte("abc")); n != 3 || err != nil {
		t.Fatal(n, err)
	}
	busy(m, false)
	m.cc = 0
	fh.Close()
	if bs, _ := os.ReadFile(p); string(bs) != "abc" {
		t.Fatalf("acknowledged write lost: %q", bs)
	}
}

func TestF_WriteKeepsSlice(t *testing.T) {
	p := t.TempDir() + "/f"
	fh, _ := Open(p)
	m := fh.(*fileHandle).writer.(*mwriter)
	m.cc = 1
	busy(m, true)
	buf := []byte("abc")
	m.Write(buf)
	copy(buf, "XXX") // the caller reuses its buffer
	busy(m, false)
	m.cc = 0
	m.WriteSync([]byte("d"))
	if bs, _ := os.ReadFile(p); string(bs) != "abcd" {
		t.Fatalf("%q", bs)
	}
}

// busy puts m in the state of a writer whose flush is in progress, or ends it. (The base tree marks it in a flag as well.)
func busy(m *mwriter, on bool) {
	if f := reflect.ValueOf(m).Elem().FieldByName("ioend"); f.IsValid() {
		*(*bool)(unsafe.Pointer(f.UnsafeAddr())) = !on
	}
	if on {
		m.mu.Lock()
	} else {
		m.mu.Unlock()
	}
}
