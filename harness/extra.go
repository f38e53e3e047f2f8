package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	smap "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/atomic_util"
)

func init() {
	runners["iso"] = runIso
	runners["isopar"] = func(c kase, res *result) { runIsoConc(c, res, false) }
	runners["isosched"] = func(c kase, res *result) { runIsoConc(c, res, true) }
	runners["opts"] = runOpts
	runners["hash"] = runHash
	runners["poolcap"] = runPoolCap
	runners["atomint"] = runAtomInt
	runners["cb"] = runCallback
	runners["diag"] = runDiag
	runners["gcval"] = runGCVal
	runners["grow"] = runGrow
}

// ---------------------------------------------------------------- several maps

// isoCases: cases of one map each, of the configurations "a,b,c", with the same keys where they can have the same ones.
func isoCases(c kase) (ks []kase) {
	for i, cfg := range strings.Split(c.s("cfgs", "nest,cs3"), ",") {
		k := kase{kind: c.kind, p: map[string]string{}}
		for n, v := range c.p {
			k.p[n] = v
		}
		k.p["cfg"] = cfg
		k.p["mb"] = strconv.Itoa(mbs[(c.i("seed", 1)+5*i)%len(mbs)])
		if k.p["mb"] == "1" && cfgs[cfg].emb && c.i("nk", 0) > 400 {
			k.p["mb"] = "2"
		}
		k.p["salt"] = "iso"
		if k.p["shape"] == "" {
			sh := (&sut{def: cfgs[cfg]}).shapes()
			k.p["shape"] = sh[c.i("seed", 1)%len(sh)]
		}
		if cfgs[cfg].item == "rmap" {
			k.p["o"] = strconv.Itoa(int(oOps | oLen | oReads))
		}
		ks = append(ks, k)
	}
	return
}

func isoRuns(c kase, res *result) (qs []*seqRun) {
	for i, k := range isoCases(c) {
		q := newSeqRun(k, res)
		q.val = i * 1000000 // values tell which map they belong to
		qs = append(qs, q)
	}
	return
}

func (q *seqRun) randomOp(del int) int {
	i := q.r.n(len(q.m.ks))
	if !q.s.def.noDel && q.r.pct(del) {
		q.doDel(i)
	} else {
		q.doSet(i)
	}
	return i
}

// iso: operations on several maps in turn; every map must agree with its own model.
func runIso(c kase, res *result) {
	qs := isoRuns(c, res)
	r := newRnd(int64(c.i("seed", 1)), "isodriver")
	del, no := c.i("del", 20), c.i("no", 400)
	for n := 0; n < no*len(qs); n++ {
		j := r.n(len(qs))
		q := qs[j]
		i := q.randomOp(del)
		q.afterOp(i)
		if r.n(3) == 0 { // the same key in all maps, one directly after another
			for _, o := range qs {
				if o != q && i < len(o.m.ks) {
					o.last = fmt.Sprintf("operation on map %d with the same key", j)
					switch {
					case r.pct(30):
						o.checkGet(i)
					case !o.s.def.noDel && r.pct(del):
						o.doDel(i)
						o.afterOp(i)
					default:
						o.doSet(i)
						o.afterOp(i)
					}
				}
			}
			q.checkGet(i)
		}
		o := qs[r.n(len(qs))] // look at another map
		o.last = fmt.Sprintf("operation on map %d", j)
		o.checkGet(o.r.n(len(o.m.ks)))
		o.checkLen()
		if c.i("opt", 0) == 1 && r.n(40) == 0 && q.s.m != nil && !q.s.def.emb {
			q.switchOption()
		}
		if n%97 == 0 {
			for _, q := range qs {
				q.full()
			}
		}
	}
	for _, q := range qs {
		q.full()
		res.mix(uint64(q.m.n))
	}
	res.add("maps", len(qs))
	res.add("ops", no*len(qs))
}

// isopar, isosched: one goroutine per map. No map is shared, so every map must behave as if it were alone.
func runIsoConc(c kase, res *result, sched bool) {
	for n := 0; n < c.i("rounds", 1); n++ {
		k := kase{kind: c.kind, p: map[string]string{}}
		for a, b := range c.p {
			k.p[a] = b
		}
		k.p["seed"] = strconv.Itoa(c.i("seed", 1)*1000 + n)
		del, no := c.i("del", 20), c.i("no", 60)
		var qs []*seqRun
		var fns []func()
		run := func(q *seqRun) {
			for n := 0; n < no; n++ {
				schedYield()
				q.afterOp(q.randomOp(del))
			}
			q.full()
		}
		if c.i("born", 0) > 0 { // the maps are made by the threads, others while these are in use
			ks := isoCases(k)
			qs = make([]*seqRun, len(ks))
			for i := range ks {
				i := i
				fns = append(fns, func() {
					for n := 0; n < c.i("born", 1); n++ {
						q := newSeqRun(ks[i], &result{counts: map[string]int{}})
						q.val = (i*100 + n) * 1000000
						run(q)
						qs[i] = q
					}
				})
			}
		} else {
			qs = isoRuns(k, res)
			for _, q := range qs {
				q := q
				q.res = &result{counts: map[string]int{}}
				fns = append(fns, func() { run(q) })
			}
		}
		if sched {
			if v := schedRun(k, res, fns); v != "" {
				fail("%s", v)
			}
		} else {
			(&concRun{}).parallel(fns)
		}
		for _, q := range qs {
			for a, b := range q.res.counts {
				res.add(a, b)
			}
			res.mix(q.res.finger)
			q.full()
		}
		res.add("maps", len(qs))
		res.add("ops", no*len(qs))
	}
}

// ---------------------------------------------------------------- options

// profile is what a user can see of a configuration: how buckets are split, how items are allocated,
// whether items stay where they are, type of items. The map must be empty.
func profile(m *smap.Map, seed int) string {
	ks := stringKeys("rand", 400, newRnd(int64(seed), "profile"))
	addr := func(k keyT) uintptr {
		it, ok := m.LoadItem(k.k)
		if !ok {
			fail("LoadItem(%v) not found after Set", k)
		}
		return uintptr(unsafe.Pointer(it.PtrMapHead()))
	}
	near := 0
	for i, k := range ks {
		if !m.Set(k.k, i) {
			fail("Set(%v) returned false", k)
		}
		if v, ok := m.Get(k.k); !ok || v != i {
			fail("Get(%v) = (%v,%v) after Set(%d)", k, v, ok, i)
		}
	}
	if m.Len() != len(ks) {
		fail("Len() = %d after %d inserts", m.Len(), len(ks))
	}
	// items of a pool are in one array: addresses differ by a multiple of the size of an item
	var as []uintptr
	for _, k := range ks {
		as = append(as, addr(k))
	}
	sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
	for i := 1; i < len(as); i++ {
		if as[i]-as[i-1] == unsafe.Sizeof(smap.SampleItem{}) {
			near++
		}
	}
	var b bytes.Buffer
	m.DumpBucket(&b)
	it, _ := m.LoadItem(ks[0].k)
	return fmt.Sprintf("buckets=%d pooled=%v item=%T", strings.Count(b.String(), "bucket{"), near > len(ks)*7/8, it)
}

// entries: a map without ItemFn takes entries
func entries(m *smap.Map, what string, seed int) {
	r := newRnd(int64(seed), "entries")
	its := map[uint64]smap.MapItem{}
	for i := 0; i < 50; i++ {
		k := r.u()
		it := smap.NewEntryMap(k, i)
		if !m.StoreItem(it) {
			fail("%s: StoreItem(entry of %d) = false", what, k)
		}
		its[k] = it
	}
	for k, it := range its {
		if got, ok := m.LoadItem(k); !ok || got != it {
			fail("%s: LoadItem(%d) = %p,%v, stored was %p", what, k, got, ok, it)
		}
	}
}

func optionByName(s string) smap.OptHMap {
	v := 0
	if i := strings.IndexByte(s, ':'); i > 0 {
		v, _ = strconv.Atoi(s[i+1:])
		s = s[:i]
	}
	switch s {
	case "max":
		return smap.MaxPefBucket(v)
	case "mode":
		return smap.BucketMode(smap.SearchMode(v))
	case "pool":
		return smap.UsePool(v == 1)
	case "emb":
		return smap.UseEmbeddedPool(v == 1)
	case "item":
		return smap.ItemFn(func() smap.MapItem { return smap.EmptySampleHMapEntry })
	}
	panic("option " + s)
}

func optionsByName(l string) (os []smap.OptHMap) {
	if l == "" {
		return
	}
	for _, s := range strings.Split(l, ",") {
		os = append(os, optionByName(s))
	}
	return
}

// opts: new=options of New, then=options applied and taken back with what Options() returned
func runOpts(c kase, res *result) {
	seed := c.i("seed", 1)
	base := profile(smap.New(optionsByName(c.s("new", ""))...), seed)
	m := smap.New(optionsByName(c.s("new", ""))...)
	prev := m.Options(optionsByName(c.s("then", ""))...)
	if n := len(optionsByName(c.s("then", ""))); len(prev) != n {
		fail("Options() with %d options returned %d previous options", n, len(prev))
	}
	if c.i("twice", 0) == 1 { // previous of previous is the option again
		again := m.Options(prev...)
		prev = m.Options(again...)
	}
	m.Options(prev...)
	if got := profile(m, seed); got != base {
		fail("New(%s).Options(%s) and back: %s, without: %s", c.s("new", ""), c.s("then", ""), got, base)
	}
	// type of items is as before
	if !strings.Contains(c.s("new", ""), "item") && c.i("apply", 1) == 1 {
		m = smap.New(optionsByName(c.s("new", ""))...)
		m.Options(m.Options(optionsByName(c.s("then", ""))...)...)
		entries(m, fmt.Sprintf("New(%s).Options(%s) and back", c.s("new", ""), c.s("then", "")), seed)
	}
	// only one of the options is taken back
	if then := optionsByName(c.s("then", "")); len(then) == 2 && c.i("apply", 1) == 1 {
		for i := range then {
			m = smap.New(optionsByName(c.s("new", ""))...)
			m.Options(m.Options(optionsByName(c.s("then", ""))...)[i])
			want := smap.New(optionsByName(c.s("new", ""))...)
			want.Options(optionsByName(c.s("then", ""))[1-i])
			if got, want := profile(m, seed), profile(want, seed); got != want {
				fail("New(%s).Options(%s) and number %d of them taken back: %s, with the other one only: %s", c.s("new", ""), c.s("then", ""), i, got, want)
			}
			res.add("profiles", 2)
		}
	}
	// applied for real: the same as given to New
	if c.i("apply", 1) == 1 {
		m = smap.New(optionsByName(c.s("new", ""))...)
		m.Options(optionsByName(c.s("then", ""))...)
		got := profile(m, seed)
		all := c.s("new", "")
		if all != "" && c.s("then", "") != "" {
			all += ","
		}
		want := profile(smap.New(optionsByName(all+c.s("then", ""))...), seed)
		if got != want {
			fail("New(%s).Options(%s): %s, New(%s): %s", c.s("new", ""), c.s("then", ""), got, all+c.s("then", ""), want)
		}
	}
	if w := c.s("expect", ""); w != "" {
		// what options promise
		var buckets int
		fmt.Sscanf(base, "buckets=%d", &buckets)
		lim := strings.Split(w, "-")
		lo, _ := strconv.Atoi(lim[0])
		hi, _ := strconv.Atoi(lim[1])
		if buckets < lo || buckets > hi {
			fail("New(%s) makes %d buckets for 400 keys, expected %s", c.s("new", ""), buckets, w)
		}
	}
	res.add("profiles", 3)
	for _, ch := range base {
		res.mix(uint64(ch))
	}
	res.note = base
}

// ---------------------------------------------------------------- hash functions

func mustPanic(what string, f func()) {
	defer func() {
		if recover() == nil {
			fail("%s did not panic", what)
		}
	}()
	f()
}

func runHash(c kase, res *result) {
	r := newRnd(int64(c.i("seed", 1)), "hash")
	n := c.i("no", 2000)
	type pair struct{ h, c uint64 }
	seen := map[pair]string{}
	hs := map[uint64]int{}
	top := [16]int{}
	bitc := [64]int{}
	cbit := [64]int{}
	for i := 0; i < n; i++ {
		ln := []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1000}[r.n(23)]
		if r.pct(60) {
			ln = r.n(40)
		}
		if i%50 == 7 { // long keys
			ln = 1<<uint(9+r.n(10)) + r.n(70) - 35
		} else if i%50 == 8 {
			ln = 900 + r.n(9000)
		}
		b := make([]byte, ln)
		for j := range b {
			b[j] = byte(r.u())
			if c.i("ascii", 0) == 1 {
				b[j] = '0' + b[j]%10
			}
		}
		s := string(b)
		h, cf := smap.KeyToHash(s)
		if h2, c2 := smap.KeyToHash(b); h2 != h || c2 != cf {
			fail("KeyToHash of string and []byte %q differ: %x,%x and %x,%x", s, h, cf, h2, c2)
		}
		if smap.MemHashString(s) != h || smap.MemHash(b) != h {
			fail("MemHashString/MemHash(%q) differ from KeyToHash: %x %x %x", s, smap.MemHashString(s), smap.MemHash(b), h)
		}
		// other memory, other alignment, part of a longer string
		pad := r.n(17)
		long := make([]byte, pad+ln+5)
		copy(long[pad:], b)
		for j := pad + ln; j < len(long); j++ {
			long[j] = byte(r.u())
		}
		if h2, c2 := smap.KeyToHash(long[pad : pad+ln]); h2 != h || c2 != cf {
			fail("KeyToHash(%q) depends on where the key is", s)
		}
		if h2, c2 := smap.KeyToHash(string(long)[pad : pad+ln]); h2 != h || c2 != cf {
			fail("KeyToHash(%q) depends on where the string is", s)
		}
		if i%64 == 0 {
			runtime.GC()
			if h2, c2 := smap.KeyToHash(s); h2 != h || c2 != cf {
				fail("KeyToHash(%q) changed", s)
			}
		}
		it := smap.NewSampleItem(s, 1)
		if a, b := it.KeyHash(); a != h || b != cf {
			fail("KeyHash of NewSampleItem(%q) = %x,%x, KeyToHash gives %x,%x", s, a, b, h, cf)
		}
		it.Setup()
		if it.PtrMapHead().KeyInHmap() != h || it.PtrMapHead().ConflictInHamp() != cf {
			fail("Setup of NewSampleItem(%q) places it with %x,%x, KeyToHash gives %x,%x", s, it.PtrMapHead().KeyInHmap(), it.PtrMapHead().ConflictInHamp(), h, cf)
		}
		if a, b := smap.NewEntryMap(s, 1).KeyHash(); a != h || b != cf {
			fail("KeyHash of NewEntryMap(%q) = %x,%x, KeyToHash gives %x,%x", s, a, b, h, cf)
		}
		if o, ok := seen[pair{h, cf}]; ok && o != s {
			fail("keys %q and %q have the same hash and conflict", o, s)
		} else if !ok {
			seen[pair{h, cf}] = s
			hs[h]++
			top[h&15]++
			for j := 0; j < 64; j++ {
				bitc[j] += int(h >> uint(j) & 1)
				cbit[j] += int(cf >> uint(j) & 1)
			}
		}
		if ln > 0 && (ln > 200 || i%16 == 0) { // every byte of the key counts
			for j := 0; j < 6; j++ {
				p := r.n(ln)
				switch j {
				case 0:
					p = ln - 1
				case 1:
					p = 0
				}
				b2 := append([]byte{}, b...)
				b2[p] ^= 1 << uint(r.n(8))
				if h2, c2 := smap.KeyToHash(b2); h2 == h && c2 == cf {
					fail("keys of length %d which differ in byte %d have the same hash and conflict", ln, p)
				}
			}
			if h2, c2 := smap.KeyToHash(s[:ln-1]); h2 == h && c2 == cf {
				fail("key of length %d and the same without its last byte have the same hash and conflict", ln)
			}
		}
		if i%16 == 0 {
			for _, o := range []string{s + "\x00", "\x00" + s, s + " ", s + s, s + "\n", "\xff" + s} {
				if h2, c2 := smap.KeyToHash(o); o != s && h2 == h && c2 == cf {
					fail("keys %q and %q have the same hash and conflict", o, s)
				}
			}
		}
		res.mix(h ^ cf)
	}
	m := len(seen)
	if m > 1000 {
		for j := 0; j < 64; j++ {
			if bitc[j] < m/3 || bitc[j] > m*2/3 || cbit[j] < m/3 || cbit[j] > m*2/3 {
				fail("bit %d is set in %d (hash) and %d (conflict) of %d keys", j, bitc[j], cbit[j], m)
			}
		}
		for j, x := range top {
			if x < m/32 || x > m/8 {
				fail("%d of %d keys are in top bucket %d of 16", x, m, j)
			}
		}
		if len(hs) < m-3 {
			fail("%d keys have only %d hashes", m, len(hs))
		}
	}
	// integers are their own hash, whatever their type
	for i := 0; i < n; i++ {
		u := r.u() >> uint(r.n(64))
		chk := func(what string, k interface{}, want uint64) {
			if h, c := smap.KeyToHash(k); h != want || c != 0 {
				fail("KeyToHash(%s(%v)) = %x,%x, expected %x,0", what, k, h, c, want)
			}
			if h, c := smap.NewEntryMap(k, 1).KeyHash(); h != want || c != 0 {
				fail("KeyHash of NewEntryMap(%s(%v)) = %x,%x, expected %x,0", what, k, h, c, want)
			}
		}
		chk("uint64", u, u)
		chk("int", int(u), u)
		chk("int64", int64(u), u)
		chk("int32", int32(u), uint64(int32(u)))
		chk("uint32", uint32(u), uint64(uint32(u)))
		chk("byte", byte(u), uint64(byte(u)))
	}
	if h, c := smap.KeyToHash(nil); h != 0 || c != 0 {
		fail("KeyToHash(nil) = %x,%x", h, c)
	}
	mustPanic("KeyToHash(1.5)", func() { smap.KeyToHash(1.5) })
	mustPanic("KeyToHash(struct{}{})", func() { smap.KeyToHash(struct{}{}) })
	mustPanic("KeyToHash([]int)", func() { smap.KeyToHash([]int{1}) })
	res.add("keys", m)
	res.add("ints", n*6)
}

// ---------------------------------------------------------------- capacity of pools

func runPoolCap(c kase, res *result) {
	from, no := c.i("from", 0), c.i("no", 5000)
	if from < 0 { // long ones
		poolCapLong(c, res)
		return
	}
	prev := 0
	for n := from; n < from+no; n++ {
		v := smap.PoolCap(n)
		if v <= n {
			fail("PoolCap(%d) = %d leaves no room for another item", n, v)
		}
		if n > from && v < prev {
			fail("PoolCap(%d) = %d is less than PoolCap(%d) = %d", n, v, n-1, prev)
		}
		if v > 2*n+64 {
			fail("PoolCap(%d) = %d is more than twice as much", n, v)
		}
		prev = v
	}
	// growing from one to the next always gets anywhere
	steps := 0
	for n := 1; n < 200000; n = smap.PoolCap(n) {
		steps++
		if steps > 100000 {
			fail("growing by PoolCap does not get anywhere")
		}
	}
	res.add("lengths", no)
	res.mix(uint64(prev))
}

// poolCapLong looks at runs of lengths next to powers of two and at any place, up to 2^40.
func poolCapLong(c kase, res *result) {
	r := newRnd(int64(c.i("seed", 1)), "poolcap")
	for k := 0; k < c.i("no", 1000); k++ {
		bit := 10 + r.n(31)
		from := 1<<uint(bit) + r.n(1<<uint(bit))
		if r.pct(50) {
			from = 1<<uint(bit) - r.n(200)
		}
		last := 0
		for n := from; n < from+200; n++ {
			v := smap.PoolCap(n)
			if v <= n || v > 2*n+64 || v < last {
				fail("PoolCap(%d) = %d, PoolCap(%d) = %d", n, v, n-1, last)
			}
			last = v
		}
	}
	res.add("lengths", 200*c.i("no", 1000))
	res.mix(r.u())
}

// ---------------------------------------------------------------- atomic integers

func runAtomInt(c kase, res *result) {
	r := newRnd(int64(c.i("seed", 1)), "atomint")
	var vals []int
	for _, v := range []int64{0, 1, -1, 2, 1 << 31, 1<<31 - 1, -(1 << 31), 1 << 32, 1<<32 + 1, -(1 << 32), 1<<62 + 5, -(1 << 62), 1<<63 - 1, -1 << 63} {
		vals = append(vals, int(v)) // int may have 32 bits
	}
	for i := 0; i < 200; i++ {
		vals = append(vals, int(r.u()))
	}
	var box struct {
		before uint64
		x      int
		after  uint64
	}
	box.before, box.after = 0x1111111111111111, 0x2222222222222222
	guard := func(what string) {
		if box.before != 0x1111111111111111 || box.after != 0x2222222222222222 {
			fail("%s changed memory next to the integer", what)
		}
	}
	for _, a := range vals {
		for _, b := range vals {
			atomic_util.StoreInt(&box.x, a)
			guard("StoreInt")
			if box.x != a {
				fail("StoreInt(%d) stored %d", a, box.x)
			}
			if v := atomic_util.LoadInt(&box.x); v != a {
				fail("LoadInt = %d after StoreInt(%d)", v, a)
			}
			ok := atomic_util.CompareAndSwapInt(&box.x, b, ^a)
			guard("CompareAndSwapInt")
			if ok != (a == b) {
				fail("CompareAndSwapInt(%d: %d -> %d) = %v", a, b, ^a, ok)
			}
			if want := map[bool]int{true: ^a, false: a}[ok]; box.x != want {
				fail("after CompareAndSwapInt(%d: %d -> %d) = %v the integer is %d", a, b, ^a, ok, box.x)
			}
			if !atomic_util.CompareAndSwapInt(&box.x, box.x, b) || box.x != b {
				fail("CompareAndSwapInt did not swap")
			}
		}
	}
	// counter: no increment is lost, no value is seen twice
	const tasks = 8
	per := c.i("no", 3000)
	ctr := 0
	var wg sync.WaitGroup
	got := make([][]int, tasks)
	for t := 0; t < tasks; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				for {
					o := atomic_util.LoadInt(&ctr)
					if atomic_util.CompareAndSwapInt(&ctr, o, o+1) {
						got[t] = append(got[t], o)
						break
					}
				}
			}
		}()
	}
	wg.Wait()
	if ctr != tasks*per {
		fail("%d increments by CompareAndSwapInt made %d", tasks*per, ctr)
	}
	all := make([]bool, tasks*per)
	for t := range got {
		last := -1
		for _, v := range got[t] {
			if v <= last || all[v] {
				fail("two increments started from %d", v)
			}
			all[v], last = true, v
		}
	}
	// both halves of an integer are written at once
	stop := int32(0)
	var x int
	pat := [2]int{0, -1}
	wg.Add(2)
	torn := int64(0)
	go func() {
		defer wg.Done()
		for i := 0; i < per*20; i++ {
			atomic_util.StoreInt(&x, pat[i&1])
		}
		atomic.StoreInt32(&stop, 1)
	}()
	go func() {
		defer wg.Done()
		for atomic.LoadInt32(&stop) == 0 {
			if v := atomic_util.LoadInt(&x); v != 0 && v != -1 {
				atomic.StoreInt64(&torn, int64(v))
			}
		}
	}()
	wg.Wait()
	if torn != 0 {
		fail("LoadInt gave %x, a value never stored", torn)
	}
	res.add("pairs", len(vals)*len(vals))
	res.add("increments", tasks*per)
}

// ---------------------------------------------------------------- callbacks of iteration that use the map

// cb: act=get,upd,del,delother,ins,nest,setv  what the callback does
func runCallback(c kase, res *result) {
	k2 := kase{kind: "cb", p: c.p}
	q := newSeqRun(k2, res)
	s, r := q.s, q.r
	nf := len(q.m.ks) * 3 / 4
	for i := 0; i < nf; i++ {
		q.doSet(i)
	}
	if !s.def.noDel {
		for i := 0; i < nf/8; i++ {
			q.doDel(r.n(nf))
		}
	}
	q.full()
	acts := strings.Split(c.s("act", "get,upd"), ",")
	byKey := map[interface{}]int{}
	for i, k := range q.m.ks {
		byKey[k.k] = i
	}
	for round := 0; round < c.i("rounds", 6); round++ {
		was := append([]bool{}, q.m.has...)
		deleted := make([]bool, len(was))
		seen := make([]int, len(was))
		n, prev := 0, uint64(0)
		ended := false
		useRange := c.i("range", 0) == 1
		iterate := func(f func(key, value interface{}, it smap.MapItem) bool) {
			defer func() {
				if v := recover(); v != nil {
					if v != "panic of callback" {
						panic(v)
					}
					ended = true
				}
			}()
			if useRange {
				s.m.Range(func(k, v interface{}) bool { return f(k, v, nil) })
				return
			}
			s.m.RangeItem(func(it smap.MapItem) bool { return f(it.Key(), it.Value(), it) })
		}
		iterate(func(key, value interface{}, it smap.MapItem) bool {
			i, ok := 0, false
			if it != nil {
				i, ok = q.index[[2]uint64{it.PtrMapHead().KeyInHmap(), it.PtrMapHead().ConflictInHamp()}]
			} else {
				i, ok = byKey[key]
			}
			if !ok {
				fail("iteration gives an item never stored: %v", key)
			}
			rank := hashRank(q.m.ks[i].h)
			if n > 0 && rank < prev {
				fail("iteration with operations in the callback is out of order at %v", q.m.ks[i])
			}
			prev = rank
			n++
			if n > 4*len(was)+100 {
				fail("iteration with operations in the callback does not end")
			}
			seen[i]++
			if seen[i] > 1 {
				fail("iteration with operations in the callback gives %v twice", q.m.ks[i])
			}
			if !q.m.has[i] {
				fail("iteration gives %v which was deleted before", q.m.ks[i])
			}
			if !same(value, q.m.val[i]) || key != q.m.ks[i].k {
				fail("iteration gives %v=%v, expected %v", key, value, q.m.val[i])
			}
			switch acts[r.n(len(acts))] {
			case "get":
				q.checkLookups(r.n(len(was)))
				q.checkLookups(i)
			case "upd":
				q.doSet(i)
				if it != nil && !same(it.Value(), q.m.val[i]) {
					fail("item given to the callback shows %v after Set(%v)", it.Value(), q.m.val[i])
				}
			case "updother":
				if j := r.n(len(was)); q.m.has[j] {
					q.doSet(j)
				}
			case "setv":
				v := q.nextVal()
				if it == nil {
					it, _ = s.load(q.m.ks[i])
				}
				it.SetValue(v)
				q.m.set(i, v)
				q.checkGet(i)
			case "del":
				q.doDel(i)
				deleted[i] = true
				q.checkGet(i)
			case "delother":
				j := r.n(len(was))
				q.doDel(j)
				deleted[j] = true
				q.checkGet(j)
			case "ins":
				j := r.n(len(was))
				q.doSet(j)
				q.checkGet(j)
			case "panic":
				if r.pct(10) {
					q.last = "iteration ended by a panic of the callback"
					res.add("panics", 1)
					panic("panic of callback")
				}
			case "stop":
				if r.pct(10) {
					ended = true
					return false
				}
			case "nest":
				cnt := 0
				s.m.Range(func(k, v interface{}) bool { cnt++; return true })
				if cnt != q.m.n {
					fail("iteration inside of iteration gives %d items, expected %d", cnt, q.m.n)
				}
			}
			return true
		})
		for i := range was {
			if was[i] && !deleted[i] && seen[i] != 1 && !ended {
				fail("iteration with operations in the callback missed %v", q.m.ks[i])
			}
		}
		q.last = "iteration with operations in the callback"
		q.full()
		res.add("callbacks", n)
		for i := 0; i < len(was)/4; i++ {
			q.doSet(r.n(len(was)))
		}
	}
	res.mix(uint64(q.m.n))
}

// ---------------------------------------------------------------- diagnostics

type lockedBuf struct {
	mu sync.Mutex
	n  int
}

func (b *lockedBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	b.n += len(p)
	b.mu.Unlock()
	return len(p), nil
}

func (b *lockedBuf) len() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.n
}

// checkLogIO: messages of the current level and more important ones are written to the writer given last, others are not.
func checkLogIO(b *lockedBuf, q *seqRun) {
	msg := fmt.Sprintf("a message of %d", q.opNo)
	for _, l := range []smap.LogLevel{smap.LogDebug, smap.LogInfo, smap.LogWarn, smap.LogError} {
		was, want := b.len(), 0
		if l >= smap.CurrentLogLevel {
			want = len(msg)
		}
		smap.Log(l, "a message of %d", q.opNo)
		if n := b.len() - was; n != want {
			fail("%s: Log(%d) of a message of %d bytes wrote %d bytes to the writer of SetLogIO, not %d", q.where(), l, len(msg), n, want)
		}
	}
	var got interface{}
	func() {
		defer func() { got = recover() }()
		smap.Log(smap.LogFatal, "a message of %d", q.opNo)
	}()
	if fmt.Sprint(got) != msg {
		fail("%s: Log(LogFatal) panics with %v, not with the message", q.where(), got)
	}
	q.res.add("logged", 5)
}

var hexNo = regexp.MustCompile("0x *([0-9a-f]+)")

// diag: two maps get the same operations, one with diagnostics on. Nothing a user sees may differ.
func runDiag(c kase, res *result) {
	old := os.Stderr
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stderr = null
		defer func() { os.Stderr = old; null.Close() }()
	}
	defer func() { smap.EnableStats = false; smap.SetLogIO(&lockedBuf{}) }()
	lb := &lockedBuf{}
	smap.SetLogIO(lb)
	smap.EnableStats = c.i("stats", 1) == 1
	smap.ResetStats()
	q := newSeqRun(c, res)
	q.full()
	r := q.r
	dumps := 0
	dump := func() {
		var a, b, d bytes.Buffer
		q.s.m.DumpBucket(&a)
		q.s.m.DumpBucketPerLevel(&b)
		q.s.m.DumpEntry(&d)
		dumps += 3
		if a.Len() == 0 && q.m.n > 0 {
			fail("DumpBucket writes nothing")
		}
		if q.s.def.item != "citem" && q.s.def.item != "ditem" {
			// every live key is in the dump of entries
			txt := d.String()
			if c.i("fill", 0) == 1 {
				shown := map[uint64]bool{}
				for _, x := range hexNo.FindAllStringSubmatch(txt, -1) {
					if h, err := strconv.ParseUint(x[1], 16, 64); err == nil {
						shown[h] = true
					}
				}
				for i, k := range q.m.ks {
					if q.m.has[i] && !shown[bits.Reverse64(k.h)] {
						fail("%s: DumpEntry does not show key %v of %d", q.where(), k, q.m.n)
					}
				}
			}
			for j := 0; j < 5; j++ {
				i := r.n(len(q.m.ks))
				if q.m.has[i] && !strings.Contains(txt, fmt.Sprintf("0x%016x), conflict: 0x%x", bits.Reverse64(q.m.ks[i].h), q.m.ks[i].c)) &&
					!strings.Contains(txt, fmt.Sprintf("%x", bits.Reverse64(q.m.ks[i].h))) {
					fail("%s: DumpEntry does not show key %v", q.where(), q.m.ks[i])
				}
			}
		}
		q.last += " + dump"
	}
	no := c.i("no", 300)
	if c.i("fill", 0) == 1 {
		for i := range q.m.ks {
			q.doSet(i)
		}
		q.last = "stored all keys"
	}
	for n := 0; n < no; n++ {
		i := q.randomOp(c.i("del", 20))
		q.afterOp(i)
		switch r.n(12) {
		case 0:
			dump()
			q.full()
		case 1:
			if c.i("toggle", 0) == 1 {
				smap.EnableStats = !smap.EnableStats
			}
		case 2:
			smap.ResetStats()
		case 3: // messages go to the writer given last, whatever the maps do
			checkLogIO(lb, q)
		case 4:
			lb = &lockedBuf{}
			smap.SetLogIO(lb)
			if r.pct(50) {
				smap.New(smap.MaxPefBucket(mbs[r.n(len(mbs))]), smap.UsePool(r.pct(50))).Set("k", 1)
			}
			checkLogIO(lb, q)
		}
	}
	smap.EnableStats = false
	dump()
	q.last = "diagnostics off"
	q.full()
	res.add("ops", no)
	res.add("dumps", dumps)
	res.mix(uint64(q.m.n))
}

// ---------------------------------------------------------------- values stay alive, also for the garbage collector

type payload struct {
	id   int
	data [4]uint64
	next *payload
}

func newPayload(id int) *payload {
	p := &payload{id: id, next: &payload{id: id ^ 0x5555}}
	for i := range p.data {
		p.data[i] = uint64(id) * 0x9e3779b97f4a7c15
	}
	return p
}

func (p *payload) ok(id int) bool {
	if p == nil || p.id != id || p.next == nil || p.next.id != id^0x5555 {
		return false
	}
	for i := range p.data {
		if p.data[i] != uint64(id)*0x9e3779b97f4a7c15 {
			return false
		}
	}
	return true
}

// gcval: only the map refers to items, keys and values; collections happen all the time. Every value must
// come back as it was, and iteration must show the keys.
func runGCVal(c kase, res *result) {
	r := newRnd(int64(c.i("seed", 1)), "gcval"+c.s("cfg", ""))
	s := newSut(c.s("cfg", "nest"), c.i("mb", 8))
	n := c.i("nk", 300)
	ks := s.keys(c.s("shape", "rand"), n, r)
	ids := make([]int, n)
	id := 0
	var junk [][]byte
	churn := func() {
		for i := 0; i < 30; i++ {
			junk = append(junk, bytes.Repeat([]byte{0xee}, 16<<uint(r.n(6))))
		}
		if len(junk) > 300 {
			junk = nil
		}
	}
	check := func(i int, when string) {
		v, ok := s.get(ks[i])
		if (ids[i] != 0) != ok {
			fail("%s: Get(%v) = %v, expected %v", when, ks[i], ok, ids[i] != 0)
		}
		if ok {
			if p, isP := v.(*payload); !isP || !p.ok(ids[i]) {
				fail("%s: value of %v is damaged", when, ks[i])
			}
		}
	}
	for op := 0; op < c.i("no", 600); op++ {
		i := r.n(n)
		if op < n/2 {
			i = op
		}
		if !s.def.noDel && r.pct(20) {
			ok := false
			if r.pct(50) && s.rm == nil {
				ok = s.purge(ks[i])
			} else {
				ok = s.del(ks[i])
			}
			if ok != (ids[i] != 0) {
				fail("deleting %v = %v, expected %v", ks[i], ok, ids[i] != 0)
			}
			ids[i] = 0
		} else {
			id++
			// the key is a copy that nobody else refers to
			k := ks[i]
			if str, ok := k.k.(string); ok && s.def.item != "citem" && s.def.item != "ditem" {
				k.k = string(append([]byte(nil), str...))
			}
			if !s.set(k, newPayload(id)) {
				fail("Set(%v) returned false", k)
			}
			ids[i] = id
		}
		churn()
		if op%c.i("gc", 10) == 0 {
			runtime.GC()
		}
		check(r.n(n), "after operation")
		check(i, "after operation")
	}
	runtime.GC()
	runtime.GC()
	for i := range ks {
		check(i, "at the end")
	}
	if s.rm == nil {
		live := map[interface{}]int{}
		for i, k := range ks {
			if ids[i] != 0 {
				live[k.k] = ids[i]
			}
		}
		s.m.Range(func(k, v interface{}) bool {
			want, ok := live[k]
			p, isP := v.(*payload)
			if !ok || !isP || !p.ok(want) {
				fail("iteration after collections gives key %v, value ok: %v", k, ok)
			}
			delete(live, k)
			return true
		})
		if len(live) != 0 {
			fail("iteration after collections misses %d keys", len(live))
		}
	}
	runtime.KeepAlive(s)
	res.add("ops", c.i("no", 600))
	res.add("collections", c.i("no", 600)/c.i("gc", 10)+2)
	res.mix(uint64(id))
}

// ---------------------------------------------------------------- number of entries

// grow: overwriting keys adds no entry; in embedded mode keys deleted and stored again do not pile up either.
func runGrow(c kase, res *result) {
	q := newSeqRun(c, res)
	n := len(q.m.ks)
	entries := func() (all, live int) {
		for cur := q.s.m.First().PtrMapHead(); cur != nil; cur = cur.NextWithNil() {
			all++
			if !cur.IsIgnored() {
				live++
			}
			if all > 1000*n+10000 {
				fail("%s: chain of entries does not end", q.where())
			}
		}
		return
	}
	for i := 0; i < n; i++ {
		q.doSet(i)
	}
	a0, l0 := entries()
	if l0 != n {
		fail("%s: %d live entries after storing %d keys", q.where(), l0, n)
	}
	rounds := c.i("rounds", 20)
	for r := 0; r < rounds; r++ {
		for j := 0; j < n; j++ {
			i := q.r.n(n)
			if r%2 == 0 {
				i = j
			}
			q.doSet(i)
			q.afterOp(i)
		}
		if a, l := entries(); a != a0 || l != n {
			fail("%s: overwriting keys changed number of entries from %d to %d, live ones from %d to %d", q.where(), a0, a, n, l)
		}
		res.add("walks", 1)
	}
	if !q.s.def.noDel {
		a1 := 0
		for r := 0; r < rounds; r++ {
			for j := 0; j < n; j++ {
				i := q.r.n(n)
				q.doDel(i)
				q.afterOp(i)
				q.doSet(i)
				q.afterOp(i)
			}
			a, l := entries()
			if l != n {
				fail("%s: %d live entries, expected %d", q.where(), l, n)
			}
			if r == 1 {
				a1 = a
			}
			if q.s.def.emb && a > 3*n+a0+100 {
				fail("%s: %d entries for %d keys after %d rounds of deleting and storing again (%d after 2 rounds)", q.where(), a, n, r+1, a1)
			}
			res.add("walks", 1)
			res.mix(uint64(l))
			if q.s.def.emb {
				continue
			}
			if r > 3 {
				break // deleted entries stay in this mode
			}
		}
	}
	q.full()
	res.mix(uint64(a0))
}
