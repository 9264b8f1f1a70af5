package cache

import (
	"fmt"
	"sync"
	"testing"
)

func TestF_BloomConcurrentAdd(t *testing.T) { // also -race
	for r := 0; r < 20; r++ {
		bf := NewBloomFilter(1<<14, 0.01)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 1000; i++ {
					bf.Add([]byte(fmt.Sprint(g, "-", i)))
				}
			}()
		}
		wg.Wait()
		for g := 0; g < 8; g++ {
			for i := 0; i < 1000; i++ {
				if !bf.Contains([]byte(fmt.Sprint(g, "-", i))) {
					t.Fatal("false negative", r, g, i)
				}
			}
		}
	}
}

func TestF_BloomDegenerate(t *testing.T) {
	bf := NewBloomFilter(100, 1)
	bf.Add([]byte("x"))
	if !bf.Contains([]byte("x")) {
		t.Fatal("false negative")
	}
}
