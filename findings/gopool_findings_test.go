package gopool

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestF_ZeroMin(t *testing.T) {
	p := NewPool(0, 2)
	var n atomic.Int32
	for i := 0; i < 50; i++ {
		p.Go(func() { time.Sleep(time.Millisecond); n.Add(1) })
	}
	time.Sleep(time.Second)
	if n.Load() != 50 {
		t.Fatal("ran", n.Load())
	}
}

func TestF_CloseLoses(t *testing.T) {
	for r := 0; r < 300; r++ {
		p := NewPool(2, 2)
		var n atomic.Int32
		for i := 0; i < 50; i++ {
			p.Go(func() { time.Sleep(20 * time.Microsecond); n.Add(1) })
		}
		p.Close()
		for w := 0; w < 200 && n.Load() != 50; w++ {
			time.Sleep(5 * time.Millisecond)
		}
		if n.Load() != 50 {
			t.Fatal("round", r, "ran", n.Load(), "of 50")
		}
	}
}

func TestF_LostWakeup(t *testing.T) {
	for r := 0; r < 20000; r++ {
		p := NewPool(4, 4)
		done := make(chan int, 4)
		for i := 0; i < 4; i++ {
			p.Go(func() { done <- 1 })
			for k := 0; k < r%97; k++ {
			}
		}
		for i := 0; i < 4; i++ {
			select {
			case <-done:
			case <-time.After(2 * time.Second):
				t.Fatal("task stranded in round", r)
			}
		}
		p.cancel()
	}
}
