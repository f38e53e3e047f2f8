package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

func init() { runners["gone"] = runGone; runners["heap"] = runHeap }

// ---------------------------------------------------------------- what is not needed any more can be collected

// tracker knows which of the values it made are still referred to by something.
type tracker struct {
	mu    sync.Mutex
	alive map[int]bool
	next  int
}

type tracked struct {
	id  int
	pad [5]uint64
}

func (t *tracker) value() (*tracked, int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.next++
	id := t.next
	t.alive[id] = true
	v := &tracked{id: id}
	runtime.SetFinalizer(v, func(v *tracked) {
		t.mu.Lock()
		delete(t.alive, v.id)
		t.mu.Unlock()
	})
	return v, id
}

func (t *tracker) count(which func(id int) bool) (n int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for id := range t.alive {
		if which(id) {
			n++
		}
	}
	return
}

// settle collects until no more than max of the values are alive, a bounded number of times.
func (t *tracker) settle(which func(id int) bool, max int) (n int) {
	for i := 0; i < 12; i++ {
		runtime.GC()
		// finalizers run on a goroutine of the runtime, one after another: wait for one that is younger than the collection
		done := make(chan bool)
		func() {
			runtime.SetFinalizer(&tracked{}, func(*tracked) { close(done) })
		}()
		runtime.GC()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
		if n = t.count(which); n <= max {
			return
		}
	}
	return
}

type goneState struct {
	s   *sut
	ks  []keyT
	cur []int          // id of value of key
	was map[int]string // what became of the value
}

//go:noinline
func (g *goneState) op(t *tracker, r *rnd, lo, hi, del int) {
	i := lo + r.n(hi-lo)
	s := g.s
	switch {
	case !s.def.noDel && r.pct(del):
		how := "purged"
		ok := false
		if s.rm == nil && r.pct(50) {
			ok = s.purge(g.ks[i])
		} else {
			how = "deleted"
			ok = s.del(g.ks[i])
		}
		if ok != (g.cur[i] != 0) {
			fail("%s of %v is %v", how, g.ks[i], ok)
		}
		if ok {
			g.was[g.cur[i]] = how
			g.cur[i] = 0
		}
	case r.pct(20):
		if v, ok := s.get(g.ks[i]); ok != (g.cur[i] != 0) || ok && v.(*tracked).id != g.cur[i] {
			fail("Get(%v) = %v", g.ks[i], ok)
		}
	default:
		v, id := t.value()
		if !s.set(g.ks[i], v) {
			fail("Set(%v) is false", g.ks[i])
		}
		if g.cur[i] != 0 {
			g.was[g.cur[i]] = "overwritten"
		}
		g.cur[i] = id
	}
}

// alive: number of values still referred to, by what became of them.
func (g *goneState) settled(t *tracker, max int) (gone int, kinds map[string]int) {
	isGone := func(id int) bool { return g.was[id] != "" }
	gone = t.settle(isGone, max)
	kinds = map[string]int{}
	t.count(func(id int) bool {
		if isGone(id) {
			kinds[g.was[id]]++
		}
		return false
	})
	return
}

// gone: values that were overwritten, deleted or purged can be collected, those of present keys stay; without the map
// everything can. Nothing runs on when the operations have returned.
func runGone(c kase, res *result) {
	before := runtime.NumGoroutine()
	r := newRnd(int64(c.i("seed", 1)), "gone"+c.s("cfg", ""))
	t := &tracker{alive: map[int]bool{}}
	g := &goneState{s: newSut(c.s("cfg", "nest"), c.i("mb", 8))}
	g.ks = g.s.keys(c.s("shape", "rand"), c.i("nk", 100), r)
	g.cur = make([]int, len(g.ks))
	g.was = map[int]string{}
	nt := c.i("threads", 1)
	total := 0
	for round := 0; round < c.i("rounds", 3); round++ {
		del := []int{0, 25, 60}[(round+c.i("seed", 0))%3]
		if nt == 1 {
			for n := 0; n < c.i("no", 500); n++ {
				g.op(t, r, 0, len(g.ks), del)
			}
		} else {
			// every thread has keys of its own
			var fns []func()
			var mu sync.Mutex
			for th := 0; th < nt; th++ {
				lo, hi := th*len(g.ks)/nt, (th+1)*len(g.ks)/nt
				tr := newRnd(int64(c.i("seed", 1)), fmt.Sprint("gone", th, round))
				fns = append(fns, func() {
					o := &goneState{s: g.s, ks: g.ks, cur: g.cur, was: map[int]string{}}
					for n := 0; n < c.i("no", 500)/nt; n++ {
						o.op(t, tr, lo, hi, del)
						if n%7 == 0 {
							g.s.get(g.ks[tr.n(len(g.ks))])
						}
					}
					mu.Lock()
					for id, w := range o.was {
						g.was[id] = w
					}
					mu.Unlock()
				})
			}
			(&concRun{}).parallel(fns)
			fns = nil
		}
		total += c.i("no", 500)
		// arrays of embedded items may keep something in slots not used now
		max := 0
		if g.s.def.emb {
			max = len(g.ks) + 10
		}
		if n, kinds := g.settled(t, max); n > max {
			fail("%d values (%v) of %d that no key has any more are still referred to after operation %d; %d keys", n, kinds, len(g.was), total, len(g.ks))
		}
		for i, id := range g.cur {
			if id != 0 && t.count(func(a int) bool { return a == id }) != 1 {
				fail("the value of %v was collected while the map has it", g.ks[i])
			}
			if v, ok := g.s.get(g.ks[i]); ok != (id != 0) || ok && v.(*tracked).id != id {
				fail("Get(%v) is %v after a collection", g.ks[i], ok)
			}
		}
		res.add("settled", 1)
	}
	runtime.KeepAlive(g.s)
	g.s = nil
	if n := t.settle(func(int) bool { return true }, 0); n > 0 {
		fail("%d values of %d are still referred to when the map is not", n, t.next)
	}
	leftGoroutines(before)
	res.add("ops", total)
	res.add("values", t.next)
	res.add("gone", len(g.was))
	res.mix(uint64(t.next))
}

func leftGoroutines(before int) {
	n := 0
	for i := 0; i < 500; i++ {
		if n = runtime.NumGoroutine(); n <= before {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	fail("%d goroutines were started and do not end", n-before)
}

func heapNow() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// churn: ever new keys are stored in the companion map and deleted again, while its other keys stay.
func churn(c kase, res *result, ks []keyT, size int64, window, reads int, r *rnd) {
	s := newSut("rmap", c.i("mb", 8))
	for i, k := range ks {
		s.set(k, i)
	}
	fresh := s.keys("rand", 8000, r)
	run := func(fresh []keyT) {
		for i := 0; i+window <= len(fresh); i += window {
			for j, k := range fresh[i : i+window] {
				s.set(k, j)
				if r.pct(reads % 100) {
					s.get(k)
				}
			}
			for _, k := range fresh[i : i+window] {
				for n := reads / 100; n > 0; n-- {
					s.get(k)
				}
				if !s.del(k) {
					fail("Delete(%v) = false, the key was stored before", k)
				}
			}
		}
	}
	run(fresh[:2000])
	h0 := heapNow()
	run(fresh[2000:])
	h1 := heapNow()
	if h1-h0 > 65536+2*size {
		fail("6000 keys were stored in a companion map of %d keys (about %d bytes) and deleted again, by %d, read %d %%: %d bytes stay",
			len(ks), size, window, reads, h1-h0)
	}
	if n := s.rm.Len(); n != len(ks) {
		fail("Len() = %d, expected %d", n, len(ks))
	}
	res.add("keys_stored_and_deleted", len(fresh))
}

// heap: memory does not grow by maps that were dropped, nor by reading and overwriting the keys of one map.
func runHeap(c kase, res *result) {
	r := newRnd(int64(c.i("seed", 1)), "heap"+c.s("cfg", ""))
	ks := (&sut{def: cfgs[c.s("cfg", "nest")], col: 15}).keys(c.s("shape", "rand"), c.i("nk", 300), r)
	fill := func() *sut {
		s := newSut(c.s("cfg", "nest"), c.i("mb", 8))
		for i, k := range ks {
			s.set(k, i)
		}
		return s
	}
	use := func(s *sut, n int) {
		for ; n > 0; n-- {
			k := ks[r.n(len(ks))]
			switch r.n(3) {
			case 0:
				s.set(k, n)
			case 1:
				s.get(k)
				s.getByHash(k)
			default:
				if s.def.emb && r.pct(50) {
					s.purge(k)
					s.set(k, n)
				}
				if s.rm == nil && r.pct(5) {
					s.m.Range(func(a, b interface{}) bool { return true })
				}
			}
		}
	}
	one := func() {
		s := fill()
		use(s, 100)
	}
	one()
	h0 := heapNow()
	s := fill()
	size := heapNow() - h0
	runtime.KeepAlive(s)
	s = nil
	h0 = heapNow()
	for i := 0; i < c.i("maps", 20); i++ {
		one()
	}
	h1 := heapNow()
	if h1-h0 > 16384+size/16 {
		fail("%d maps of about %d bytes were made, used and dropped: %d bytes stay", c.i("maps", 20), size, h1-h0)
	}
	dropped := h1 - h0
	s = fill()
	use(s, 1000)
	for i, k := range ks {
		s.set(k, i+1000)
	}
	h0 = heapNow()
	use(s, c.i("no", 4000))
	for i, k := range ks {
		s.set(k, i+2000)
	}
	h1 = heapNow()
	runtime.KeepAlive(s)
	limit := int64(16384)
	if cfgs[c.s("cfg", "nest")].emb { // slots for keys that are deleted
		limit += size
	}
	if h1-h0 > limit {
		fail("%d operations that store no new key made a map of about %d bytes %d bytes larger", c.i("no", 4000), size, h1-h0)
	}
	if s.rm != nil {
		for i := 0; i < 8; i++ {
			churn(c, res, ks, size, []int{1, 2, 10, 50}[i/2], []int{0, []int{20, 100, 300}[r.n(3)]}[i%2], r)
		}
	}
	res.add("ops", c.i("no", 4000)+100*c.i("maps", 20))
	res.add("maps", c.i("maps", 20)+2)
	res.add("bytes_of_a_map", int(size))
	if debugHeap {
		fmt.Fprintln(os.Stderr, c.s("cfg", ""), "size", size, "dropped", dropped, "use", h1-h0)
	}
}

var debugHeap = os.Getenv("VH_HEAP") != ""
