package lock

import (
	"context"
	"sync"
	"testing"
	"time"
)

func TestF_CancelWithoutTimeout(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	done := make(chan bool, 2)
	go func() { _, c, err := NewAwait[int](4).WaitWithCancel(ctx, 1, 0); done <- c && err != nil }()
	go func() { _, c, err := NewFastAwait2[int](100).WaitWithCancel(ctx, 1, 0); done <- c && err != nil }()
	for i := 0; i < 2; i++ {
		select {
		case ok := <-done:
			if !ok {
				t.Fatal("not reported as cancelled")
			}
		case <-time.After(2 * time.Second):
			t.Fatal("cancel ignored")
		}
	}
}

func TestF_LimitLockCcRace(t *testing.T) { // -race
	l := NewLimitLock(4, time.Second)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			l.Lock()
			l.Unlock()
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			l.Cc()
		}
	}()
	wg.Wait()
}
