//go:build sched

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	vs "github.com/kazu/skiplistmap/zz_vsched"
)

func init() {
	if f := os.Getenv("VSTRACE"); f != "" { // for debugging: steps of the schedule that fails
		vs.TraceOn = true
		onStamp = func(n int64) { vs.Trace = append(vs.Trace, 1<<63|uint64(n)) }
		onViolation = func() {
			var b strings.Builder
			for _, s := range vs.Trace {
				fmt.Fprintf(&b, "%d %d\n", s>>32, s&(1<<32-1))
			}
			os.WriteFile(f, []byte(b.String()), 0o644)
		}
	}
	runners["sched"] = func(c kase, res *result) {
		schedNo, lastSteps = 0, 4000 // a case does not depend on the cases before it
		schedSigs = map[uint64]bool{}
		vs.Forget()
		defer func() { res.add("distinct_interleavings", len(schedSigs)) }()
		runConcMode(c, res, true)
	}
	schedRun = schedRunImpl
	schedYield = func() { vs.Y(1 << 30) }
}

// Objects that fill the memory freed by a collection. A write to one of them is a write to memory that nobody owns.
type cage struct {
	raw [][]byte
	ptr [][]*byte
}

var sentinel = new(byte)

var cages []*cage

var takeMemory bool

func (c *cage) check() {
	for _, b := range c.raw {
		for i, x := range b {
			if x != 0xc5 {
				fail("memory freed by the map is written: byte %d of an object of %d bytes without pointers is %#x", i, len(b), x)
			}
		}
	}
	for _, b := range c.ptr {
		for i, x := range b {
			if x != sentinel {
				fail("memory freed by the map is written: word %d of an object of %d words with pointers is %p", i, len(b), x)
			}
		}
	}
}

var sizes = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 192, 256, 320, 384, 512, 768, 1024, 2048}

func checkCages() {
	for _, c := range cages {
		c.check()
	}
}

// collect frees what is not referenced, and takes the memory.
func collect() {
	checkCages()
	runtime.GC()
	if !takeMemory { // the runtime tells if somebody refers to a free object
		return
	}
	c := &cage{}
	for _, n := range sizes {
		for i := 0; i < 8 && i*n < 4096; i++ {
			b := make([]byte, n)
			for j := range b {
				b[j] = 0xc5
			}
			c.raw = append(c.raw, b)
			p := make([]*byte, n/8)
			for j := range p {
				p[j] = sentinel
			}
			c.ptr = append(c.ptr, p)
		}
	}
	cages = append(cages, c)
	if len(cages) > 4 {
		cages = cages[1:]
	}
}

func init() {
	vs.Collect = collect
	// gcstmt: a sequential history with collections between statements of the map.
	//
	//	parameters of kind, and gcp=one of so many statements, kind=seq
	runners["gcstmt"] = func(c kase, res *result) {
		cages, takeMemory = nil, c.i("seed", 1)%2 == 0
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
		fn := runners[c.s("kind", "seq")]
		n := 0
		vs.Collect = func() { n++; collect() }
		ps := vs.Run(uint64(c.i("seed", 1)), vs.Strategy{Kind: "rand", P: 1 << 40, GC: c.i("gcp", 300)}, []func(){func() { fn(c, res) }})
		vs.Collect = collect
		if len(ps) > 0 {
			fail("%s", ps[0])
		}
		checkCages()
		res.add("collections", n)
		res.add("steps", int(vs.Steps))
	}
}

var schedNo uint64
var lastSteps uint64 = 4000

func schedRunImpl(c kase, res *result, fns []func()) string {
	schedNo++
	r := newRnd(int64(c.i("seed", 1))*7919+int64(schedNo), "strategy")
	st := vs.Strategy{FairAt: 300000, Limit: 20000000}
	switch r.n(10) {
	case 0, 1, 2:
		st.Kind, st.P = "rand", []int{2, 5, 20, 60, 200}[r.n(5)]
	case 3, 4, 5, 6: // a task is held at a statement, whatever runs most
		if len(vs.Seen) > 20 {
			st.Kind = "site"
			for d := r.n(3) + 1; d > 0; d-- {
				x := vs.Stall{Site: vs.Seen[r.n(len(vs.Seen))], N: 1}
				if int(x.Site) < len(vs.LastHits) && vs.LastHits[x.Site] > 1 {
					x.N = uint32(r.n(int(vs.LastHits[x.Site]))) + 1
				}
				if r.n(3) > 0 {
					x.For = uint64(r.pick([]int{100, 500, 1000, 2000, 5000, 20000}))
				}
				st.Stalls = append(st.Stalls, x)
			}
			break
		}
		fallthrough
	default:
		st.Kind = "pct"
		for d := r.n(5) + 1; d > 0; d-- {
			st.Changes = append(st.Changes, uint64(r.n(int(lastSteps)))+1)
		}
	}
	if st.GC = c.i("gcp", 0); st.GC > 0 {
		cages, takeMemory = nil, schedNo%2 == 0
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	}
	panics := vs.Run(r.u(), st, fns)
	if st.GC > 0 {
		checkCages()
	}
	if vs.Steps < 200000 {
		lastSteps = (lastSteps*3+vs.Steps)/4 + 16
	}
	res.add("steps", int(vs.Steps))
	res.add("switches", int(vs.Switches))
	res.add("schedules", 1)
	res.mix(vs.Sig())
	schedSigs[vs.Sig()] = true
	if vs.Dead != "" {
		return vs.Dead
	}
	if len(panics) > 0 {
		return panics[0]
	}
	return ""
}

var schedSigs = map[uint64]bool{}

// cost: work of one operation, counted in steps of the instrumented code, in a map of nk keys and in a map
// of grow times as many. It must grow much slower than the number of keys.
//
//	cfg, mb, nk, grow, order, shape, max=bound in % of growth. Work of making buckets is not bounded.
func init() {
	runners["cost"] = func(c kase, res *result) {
		type cost struct{ get, miss, upd, ins, n int }
		measure := func(nk int) (co cost) {
			r := newRnd(int64(c.i("seed", 1)), "cost")
			s := newSut(c.s("cfg", "nest"), c.i("mb", 16))
			ks := s.keys(c.s("shape", "rand"), nk+400, r)
			if c.s("order", "rand") == "asc" {
				sortedRanks(ks[:nk])
			}
			run := func(what string, f func()) int {
				ps := vs.Run(1, vs.Strategy{Kind: "rand", P: 1 << 30}, []func(){f})
				if len(ps) > 0 {
					fail("%s: %s", what, ps[0])
				}
				if vs.Dead != "" {
					fail("%s: %s", what, vs.Dead)
				}
				return int(vs.Steps)
			}
			chk := func(ok, want bool, what string, k keyT) {
				if ok != want {
					fail("%s %v with %d keys = %v", what, k, nk, ok)
				}
			}
			built := run("filling", func() {
				for i, k := range ks[:nk] {
					chk(s.set(k, i), true, "Set", k)
				}
			})
			const n = 200
			co.n = nk
			res.add("steps_filling", built)
			co.get = run("Get", func() {
				for i := 0; i < n; i++ {
					k := ks[r.n(nk)]
					_, ok := s.get(k)
					chk(ok, true, "Get", k)
				}
			}) / n
			co.miss = run("Get of absent key", func() {
				for i := 0; i < n; i++ {
					k := ks[nk+r.n(400)]
					_, ok := s.get(k)
					chk(ok, false, "Get", k)
				}
			}) / n
			co.upd = run("Set of present key", func() {
				for i := 0; i < n; i++ {
					k := ks[r.n(nk)]
					chk(s.set(k, i), true, "Set", k)
				}
			}) / n
			co.ins = run("Set of new key", func() {
				for i := 0; i < n; i++ {
					chk(s.set(ks[nk+i], i), true, "Set", ks[nk+i])
				}
			}) / n
			res.add("steps", int(vs.Steps))
			return
		}
		nk, grow := c.i("nk", 1000), c.i("grow", 16)
		a, b := measure(nk), measure(nk*grow)
		res.note = fmt.Sprintf("steps per operation with %d keys: %+v, with %d keys: %+v", a.n, a, b.n, b)
		res.add("operations_measured", 1600)
		lim := func(what string, x, y int) {
			if y > x*c.i("max", 200)/100+200 {
				fail("%s takes %d steps with %d keys and %d steps with %d keys", what, x, a.n, y, b.n)
			}
			res.mix(uint64(y))
		}
		lim("Get", a.get, b.get)
		lim("Get of an absent key", a.miss, b.miss)
		lim("Set of a present key", a.upd, b.upd)
	}
}
