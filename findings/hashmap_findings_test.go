package hashmap

import (
	"math"
	"sync"
	"testing"
)

func TestF_MapL_LenRace(t *testing.T) { // -race
	m := NewMapL[int, int]()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			m.Put(i, i)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			m.Len()
		}
	}()
	wg.Wait()
}

func TestF_MapNilPrev(t *testing.T) {
	m := NewMap[int, any]()
	m.Put(1, nil)
	if _, ok := m.Put(1, 2); !ok {
		t.Fatal("Map.Put over an existing nil value reports no previous entry")
	}
	l := NewMapL[int, any]()
	l.Put(1, nil)
	if _, ok := l.Put(1, 2); !ok {
		t.Fatal("MapL.Put over an existing nil value reports no previous entry")
	}
}

func TestF_LimitMapCapacity(t *testing.T) {
	m := NewLimitMap[int, int](10)
	for i := 0; i < 100; i++ {
		m.Put(i, i)
	}
	if m.Len() > 10 {
		t.Fatal("LimitMap holds", m.Len())
	}
}

func TestF_LimitHashMapCapacity(t *testing.T) {
	m := NewLimitHashMap[int, int](10)
	for i := 0; i < 1000; i++ {
		m.Put(i, i)
	}
	if m.Len() > 10 {
		t.Fatal("LimitHashMap holds", m.Len())
	}
}

func TestF_LimitHashMapCollision(t *testing.T) {
	a, b := "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ" // equal FNV-1a 64
	m := NewLimitHashMap[string, int](1000)
	m.Put(a, 1)
	if v, ok := m.Get(b); ok {
		t.Fatal("value of another key", v)
	}
}

func TestF_LimitHashMapNil(t *testing.T) {
	m := NewLimitHashMap[int, any](1000)
	m.Put(1, nil)
	if _, ok := m.Get(1); !ok {
		t.Fatal("Get misses")
	}
	m.Put(1, 2) // panics
}

func TestF_LinkedLoadOrStore(t *testing.T) {
	m := NewLinkedHashMap[string, int](10)
	if a, l := m.LoadOrStore("k", 1); a != 1 || l {
		t.Fatal(a, l)
	}
	if a, l := m.LoadOrStore("k", 2); a != 1 || !l {
		t.Fatal(a, l)
	}
	if v, _ := m.Get("k"); v != 1 {
		t.Fatal("overwritten", v)
	}
}

func TestF_LinkedClearRace(t *testing.T) { // -race
	m := NewLinkedHashMap[int, int](10)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			m.Get(i)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			m.Clear()
		}
	}()
	wg.Wait()
}

func TestF_ConsistentEmptied(t *testing.T) {
	c := NewConsistenthash(3)
	c.Add(1)
	c.Del(1)
	if _, ok := c.Get(5); ok { // panics
		t.Fatal("?")
	}
}

func TestF_ConsistentNextWraps(t *testing.T) {
	c := NewConsistenthash(1)
	c.Add(1, 2, 3, 4)
	for _, s := range []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"} {
		if n, _ := c.GetNextNodeStr(s, 3); len(n) != 3 {
			t.Fatal(s, n)
		}
	}
}

func TestF_TreeMapNaN(t *testing.T) {
	m := NewTreeMap[float64, int](4)
	m.Put(1, 1)
	m.Put(2, 2)
	if p, b := m.Put(math.NaN(), 3); b {
		t.Fatalf("Put(NaN) replaced the entry with value %v", p)
	}
	if v, ok := m.Get(2); !ok || v != 2 {
		t.Fatalf("Get(2) = %v %v", v, ok)
	}
}
