package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	smap "github.com/kazu/skiplistmap"
)

// concurrent histories. The same workload runs with real threads ("par") and under the cooperative
// scheduler ("sched", only in the instrumented build).
//
// roles, one letter per task:
//
//	W inserts new keys and reads them back     X inserts the same new keys as other X tasks
//	U mixes Set/Get/Delete on a few hot keys    D deletes its own part of the preloaded keys
//	P like D with Purge                         V like U with Purge instead of Delete
//	R reads keys that nobody changes            A reads keys that are never stored
//	I iterates                                  N walks neighbours of stable keys
//	L watches Len                               H updates by handles, reads by Get
//	S updates hot keys only, no delete          B first insert into empty map
//	G reads hot keys only
type concRun struct {
	s       *sut
	res     *result
	c       kase
	o       oracle
	hot     []keyT
	stable  []keyT
	fresh   []keyT // inserted by W
	shared  []keyT // inserted by X
	doomed  []keyT // deleted by D
	absent  []keyT
	handles []keyT

	stableVal map[int]int
	hist      [][]op // per task
	lens      []op   // results of Len
	lenMu     sync.Mutex
	nextVal   int64
	viol      atomic.Value
	sched     bool
	shares    map[byte]int
	freshPart map[int][]int
	doomPart  map[int][]int
	handPart  map[int][]int
}

// runner of tasks; set by sched build
var schedRun func(c kase, res *result, fns []func()) (viol string)

// yield between operations of a task (no-op under real threads)
var schedYield = func() {}

func (q *concRun) val() int { return int(atomic.AddInt64(&q.nextVal, 1)) }

func (q *concRun) rec(t int, o op) { q.hist[t] = append(q.hist[t], o) }

func (q *concRun) set(t int, key int, k keyT) {
	v := q.val()
	o := op{task: t, kind: opSet, key: key, val: v, name: "Set", call: stamp()}
	o.ok = q.s.set(k, v)
	o.ret = stamp()
	q.rec(t, o)
	if !o.ok {
		fail("task %d: Set(%v) returned false", t, k)
	}
}

func toInt(v interface{}) int {
	if v == nil {
		return 0
	}
	n, ok := v.(int)
	if !ok {
		fail("value of unexpected type %T", v)
	}
	return n
}

func (q *concRun) get(t int, key int, k keyT, how int) (int, bool) {
	o := op{task: t, kind: opGet, key: key, call: stamp()}
	if q.s.def.emb || q.s.rm != nil {
		how %= 2 // handles are not stable in this mode
	}
	switch how % 4 {
	case 0:
		o.name = "Get"
		v, ok := q.s.get(k)
		o.val, o.ok = toInt(v), ok
	case 1:
		o.name = "GetByHash"
		v, ok := q.s.getByHash(k)
		o.val, o.ok = toInt(v), ok
	default:
		o.name = "LoadItem"
		var it smap.MapItem
		if how%4 == 2 {
			it, o.ok = q.s.load(k)
		} else {
			it, o.ok = q.s.loadByHash(k)
		}
		if o.ok {
			v := it.Value()
			if v == nil && it.PtrMapHead().IsDeleted() { // deleted since it was found
				o.ok = false
			} else {
				o.val = toInt(v)
			}
			if !q.s.sameKey(it, k) && q.s.def.item != "entry" {
				fail("task %d: LoadItem(%v) gives item of key %v", t, k, it.Key())
			}
		}
	}
	o.ret = stamp()
	q.rec(t, o)
	if o.ok && o.val == 0 {
		fail("task %d: %s(%v) found without a value", t, o.name, k)
	}
	return o.val, o.ok
}

func (q *concRun) del(t int, key int, k keyT, purge bool) bool {
	o := op{task: t, kind: opDel, key: key, name: "Delete", call: stamp()}
	if purge {
		o.name = "Purge"
		o.ok = q.s.purge(k)
	} else {
		o.ok = q.s.del(k)
	}
	o.ret = stamp()
	q.rec(t, o)
	return o.ok
}

// key numbers in histories: hot 0.., then shared, doomed, handles and fresh, stable not recorded
const (
	kShared = 100000
	kDoomed = 200000
	kHand   = 500000
	kFresh  = 1000000
)

func (q *concRun) task(t int, role byte, r *rnd) func() {
	no := q.c.i("no", 20)
	return func() {
		pause := func() {
			schedYield()
			if !q.sched {
				switch r.n(8) {
				case 0:
					runtime.Gosched()
				case 1:
					for i := r.n(200); i > 0; i-- {
						atomic.LoadInt64(&clock)
					}
				}
			}
		}
		switch role {
		case 'W', 'B':
			for _, i := range q.freshPart[t] {
				pause()
				q.set(t, kFresh+i, q.fresh[i])
				if r.pct(40) {
					if _, ok := q.get(t, kFresh+i, q.fresh[i], r.n(4)); !ok {
						fail("task %d: key %v not found after its insert returned", t, q.fresh[i])
					}
				}
			}
		case 'X':
			for i := range q.shared {
				pause()
				q.set(t, kShared+i, q.shared[i])
				if r.pct(30) {
					q.get(t, kShared+i, q.shared[i], r.n(4))
				}
			}
		case 'U', 'V':
			for n := 0; n < no; n++ {
				pause()
				i := r.n(len(q.hot))
				switch x := r.n(10); {
				case x < 4:
					q.set(t, i, q.hot[i])
				case x < 7:
					q.get(t, i, q.hot[i], r.n(4))
				default:
					q.del(t, i, q.hot[i], role == 'V' && r.pct(70))
				}
			}
		case 'S':
			for n := 0; n < no; n++ {
				pause()
				i := r.n(len(q.hot))
				if r.pct(50) {
					q.set(t, i, q.hot[i])
				} else {
					q.get(t, i, q.hot[i], r.n(4))
				}
			}
		case 'G':
			for n := 0; n < no; n++ {
				pause()
				i := r.n(len(q.hot))
				q.get(t, i, q.hot[i], r.n(4))
			}
		case 'D', 'P':
			for _, i := range q.doomPart[t] {
				pause()
				ok := q.del(t, kDoomed+i, q.doomed[i], role == 'P')
				if !ok {
					fail("task %d: deleting present key %v returned false", t, q.doomed[i])
				}
				if _, ok := q.get(t, kDoomed+i, q.doomed[i], r.n(4)); ok {
					fail("task %d: key %v found after its deletion returned", t, q.doomed[i])
				}
			}
		case 'R':
			for n := 0; n < no; n++ {
				pause()
				i := r.n(len(q.stable))
				q.readStable(t, i, r.n(5))
			}
		case 'A':
			for n := 0; n < no; n++ {
				pause()
				k := q.absent[r.n(len(q.absent))]
				if v, ok := q.s.get(k); ok {
					fail("task %d: Get(%v) = %v although the key was never stored", t, k, v)
				}
				if q.s.rm != nil {
					continue
				}
				if it, ok := q.s.loadByHash(k); ok {
					fail("task %d: LoadItemByHash(%v) = %v although the key was never stored", t, k, it.Key())
				}
			}
		case 'I':
			for n := 0; n < (no+9)/10; n++ {
				pause()
				q.iterate(t, r)
			}
		case 'N':
			for n := 0; n < no; n++ {
				pause()
				q.walk(t, r)
			}
		case 'L':
			for n := 0; n < no; n++ {
				pause()
				o := op{task: t, name: "Len", call: stamp()}
				o.val = q.s.length()
				o.ret = stamp()
				q.lenMu.Lock()
				q.lens = append(q.lens, o)
				q.lenMu.Unlock()
			}
		case 'H':
			for n := 0; n < no; n++ {
				pause()
				part := q.handPart[t]
				i := part[r.n(len(part))]
				k := q.handles[i]
				it, ok := [2]func(keyT) (smap.MapItem, bool){q.s.load, q.s.loadByHash}[r.n(2)](k)
				if !ok {
					fail("task %d: LoadItem(%v) not found although nobody deletes it", t, k)
				}
				for j := 0; j < 2; j++ {
					pause()
					o := op{task: t, kind: opSet, key: kHand + i, val: q.val(), name: "SetValue", call: stamp()}
					o.ok = it.SetValue(o.val)
					o.ret = stamp()
					q.rec(t, o)
					pause()
					q.get(t, kHand+i, k, r.n(4))
				}
			}
		case 'Z': // operations that panic
			for n := 0; n < no; n++ {
				pause()
				i := r.n(len(q.stable))
				what, _ := q.s.badOp(r, q.stable[i], true, false)
				q.readStable(t, i, r.n(5))
				_ = what
			}
		default:
			panic("role " + string(role))
		}
	}
}

func (q *concRun) readStable(t, i, how int) {
	k := q.stable[i]
	want := q.stableVal[i]
	if q.s.rm != nil {
		how %= 2
	}
	if q.s.def.emb && how >= 2 {
		// handles are moved by writers: only whether there is one
		ok := false
		switch how {
		case 2:
			_, ok = q.s.load(k)
		case 3:
			_, ok = q.s.loadByHash(k)
		default:
			ok = q.s.m.SearchKey(k.h) != nil
		}
		if !ok {
			fail("task %d: %s(%v) finds nothing, the key is present all the time", t, []string{"LoadItem", "LoadItemByHash", "SearchKey"}[how-2], k)
		}
		return
	}
	switch how {
	case 0:
		v, ok := q.s.get(k)
		if !ok || v != want {
			fail("task %d: Get(%v) = (%v,%v), the key holds %d all the time", t, k, v, ok, want)
		}
	case 1:
		v, ok := q.s.getByHash(k)
		if !ok || v != want {
			fail("task %d: GetByHash(%v) = (%v,%v), the key holds %d all the time", t, k, v, ok, want)
		}
	case 2, 3:
		f, name := q.s.load, "LoadItem"
		if how == 3 {
			f, name = q.s.loadByHash, "LoadItemByHash"
		}
		it, ok := f(k)
		if !ok || it == nil {
			fail("task %d: %s(%v) = %v, the key is present all the time", t, name, k, ok)
		}
		if it.Value() != want || !q.s.sameKey(it, k) {
			fail("task %d: %s(%v) gives key %v value %v, expected %d", t, name, k, it.Key(), it.Value(), want)
		}
	default:
		e := q.s.m.SearchKey(k.h)
		if e == nil || e.PtrMapHead().KeyInHmap() != k.h {
			fail("task %d: SearchKey(%v) does not find the key that is present all the time", t, k)
		}
	}
}

// iterate: stable keys exactly once, nothing twice, in order, nothing that was never stored.
func (q *concRun) iterate(t int, r *rnd) {
	stable := map[[2]uint64]int{}
	for i, k := range q.stable {
		stable[[2]uint64{k.h, k.c}] = i
	}
	once := map[[2]uint64]bool{} // keys never deleted: at most once
	other := map[[2]uint64]bool{}
	for _, l := range [][]keyT{q.fresh, q.shared, q.doomed, q.handles} {
		for _, k := range l {
			once[[2]uint64{k.h, k.c}] = true
		}
	}
	for _, k := range q.hot {
		other[[2]uint64{k.h, k.c}] = true
	}
	seen := map[[2]uint64]bool{}
	prev, n := uint64(0), 0
	limit := 20*(len(stable)+len(once)+len(other)) + 20000
	missing := len(stable)
	visit := func(id [2]uint64, key, value interface{}) bool {
		rank := hashRank(id[0])
		if n > 0 && rank < prev {
			fail("task %d: iteration out of order: %x after %x", t, rank, prev)
		}
		prev = rank
		n++
		if n > limit {
			fail("task %d: iteration does not end (%d items)", t, n)
		}
		if i, ok := stable[id]; ok {
			if seen[id] {
				fail("task %d: iteration gives key %v twice", t, q.stable[i])
			}
			missing--
			if value != q.stableVal[i] || key != q.stable[i].k {
				fail("task %d: iteration gives %v=%v for stable key %v=%v", t, key, value, q.stable[i], q.stableVal[i])
			}
		} else if once[id] {
			if seen[id] {
				fail("task %d: iteration gives key %v twice", t, key)
			}
		} else if !other[id] {
			fail("task %d: iteration gives an item never stored: hash %x", t, id[0])
		}
		seen[id] = true
		return true
	}
	if q.s.def.emb || r.pct(50) {
		ids := map[interface{}][2]uint64{}
		for _, l := range [][]keyT{q.stable, q.fresh, q.shared, q.doomed, q.handles, q.hot} {
			for _, k := range l {
				ids[k.k] = [2]uint64{k.h, k.c}
			}
		}
		q.s.m.Range(func(key, value interface{}) bool {
			id, ok := ids[key]
			if !ok {
				fail("task %d: iteration gives a key never stored: %v", t, key)
			}
			if value == nil {
				fail("task %d: iteration gives key %v without a value", t, key)
			}
			return visit(id, key, value)
		})
	} else {
		q.s.m.RangeItem(func(it smap.MapItem) bool {
			mh := it.PtrMapHead()
			return visit([2]uint64{mh.KeyInHmap(), mh.ConflictInHamp()}, it.Key(), it.Value())
		})
	}
	if missing != 0 {
		for id, i := range stable {
			if !seen[id] {
				fail("task %d: iteration misses key %v which is present all the time", t, q.stable[i])
			}
		}
	}
}

// walk follows neighbours from a stable key.
func (q *concRun) walk(t int, r *rnd) {
	i := r.n(len(q.stable))
	it, ok := q.s.load(q.stable[i])
	if !ok {
		fail("task %d: LoadItem(%v) not found, the key is present all the time", t, q.stable[i])
	}
	fwd := r.pct(50)
	cur := it.PtrMapHead()
	for n := 0; n < 30; n++ {
		var nx *smap.MapHead
		if fwd {
			nx = cur.NextWithNil()
		} else {
			nx = cur.PrevtWithNil()
		}
		if nx == nil {
			return
		}
		a, b := hashRank(cur.KeyInHmap()), hashRank(nx.KeyInHmap())
		if fwd && b < a || !fwd && b > a {
			fail("task %d: walking from %v forward=%v out of order: %x then %x", t, q.stable[i], fwd, a, b)
		}
		cur = nx
	}
}

func runConc(c kase, res *result) { runConcMode(c, res, false) }

func runConcMode(c kase, res *result, sched bool) {
	rounds := c.i("rounds", 1)
	res.hists = map[uint64]bool{}
	defer func() { res.add("distinct_histories", len(res.hists)) }()
	for i := 0; i < rounds; i++ {
		concOnce(c, res, sched, c.i("seed", 1)*1000+i)
		res.add("histories", 1)
	}
}

func concOnce(c kase, res *result, sched bool, seed int) {
	r := newRnd(int64(seed), c.kind+c.s("cfg", "")+c.s("roles", ""))
	atomic.StoreInt64(&clock, 0)
	mb := c.i("mb", 0)
	if mb == 0 {
		mb = r.pick([]int{1, 2, 3, 4, 8, 16})
	}
	q := &concRun{s: newSut(c.s("cfg", "nest"), mb), res: res, c: c, sched: sched,
		stableVal: map[int]int{}, shares: map[byte]int{}, freshPart: map[int][]int{}, doomPart: map[int][]int{}, handPart: map[int][]int{}}
	q.s.col = c.i("coll", 15)
	q.o = oracle(c.i("o", int(oOps|oReads|oRange|oChain|oLen)))
	roles := c.s("roles", "WR")
	for i := range roles {
		q.shares[roles[i]]++
	}
	shape := c.s("shape", "")
	if shape == "" || shape == "any" {
		sh := q.s.shapes()
		shape = sh[r.n(len(sh))]
	}
	nStable, nHot, nNew, nShared, nDoom, nAbs, nHand := c.i("stable", 20), c.i("hot", 3), c.i("new", 6), c.i("shared", 4), c.i("doom", 4), 10, 4
	if q.shares['W']+q.shares['B'] == 0 {
		nNew = 0
	}
	if q.shares['X'] == 0 {
		nShared = 0
	}
	if q.shares['D']+q.shares['P'] == 0 {
		nDoom = 0
	}
	if q.shares['H'] == 0 {
		nHand = 0
	}
	if q.shares['U']+q.shares['V']+q.shares['S']+q.shares['G'] == 0 {
		nHot = 0
	}
	ks := q.s.keys(shape, nStable+nHot+nNew+nShared+nDoom+nAbs+nHand, r)
	if r.pct(60) {
		r.shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	take := func(n int) []keyT { p := ks[:n]; ks = ks[n:]; return p }
	q.stable, q.hot, q.fresh, q.shared, q.doomed, q.handles, q.absent = take(nStable), take(nHot), take(nNew), take(nShared), take(nDoom), take(nHand), take(nAbs)
	// distribute
	part := func(m map[int][]int, n int, rs string) {
		var ts []int
		for t := range roles {
			if strings.IndexByte(rs, roles[t]) >= 0 {
				ts = append(ts, t)
			}
		}
		for i := 0; i < n; i++ {
			m[ts[i%len(ts)]] = append(m[ts[i%len(ts)]], i)
		}
	}
	if nNew > 0 {
		part(q.freshPart, nNew, "WB")
	}
	if nDoom > 0 {
		part(q.doomPart, nDoom, "DP")
	}
	if nHand > 0 {
		// handles of different tasks may be the same key
		for t := range roles {
			if roles[t] == 'H' {
				for i := 0; i < nHand; i++ {
					q.handPart[t] = append(q.handPart[t], i)
				}
			}
		}
	}
	q.hist = make([][]op, len(roles)+1)
	main := len(roles)

	// preload
	empty := q.shares['B'] > 0
	if !empty {
		type pre struct{ grp, i int }
		var all []pre
		for i := range q.stable {
			all = append(all, pre{0, i})
		}
		for i := range q.doomed {
			all = append(all, pre{1, i})
		}
		for i := range q.handles {
			all = append(all, pre{2, i})
		}
		for i := range q.hot {
			if i%2 == 0 {
				all = append(all, pre{3, i})
			}
		}
		r.shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		for _, p := range all {
			switch p.grp {
			case 0:
				v := q.val()
				q.stableVal[p.i] = v
				if !q.s.set(q.stable[p.i], v) {
					fail("preload: Set returned false")
				}
			case 1:
				q.set(main, kDoomed+p.i, q.doomed[p.i])
			case 2:
				q.set(main, kHand+p.i, q.handles[p.i])
			case 3:
				q.set(main, p.i, q.hot[p.i])
			}
		}
	} else {
		q.stable = nil
	}
	// tasks
	var fns []func()
	for t := range roles {
		fns = append(fns, q.task(t, roles[t], newRnd(int64(seed), fmt.Sprint("task", t))))
	}
	if sched {
		if v := schedRun(c, res, fns); v != "" {
			fail("%s", v+q.histTail())
		}
	} else {
		stop := make(chan struct{})
		if c.i("gcbg", 0) == 1 { // collections happen all the time
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
						runtime.GC()
					}
				}
			}()
			defer wg.Wait()
			defer close(stop)
		}
		q.parallel(fns)
	}
	q.finish(main, r)
}

func (q *concRun) histTail() string {
	if len(q.hist) == 0 {
		return ""
	}
	var b strings.Builder
	b.WriteString("\nlast completed operations:")
	for t, h := range q.hist[:len(q.hist)-1] {
		for i := len(h) - 2; i < len(h); i++ {
			if i >= 0 {
				fmt.Fprintf(&b, "\n  task %d %v", t, h[i])
			}
		}
	}
	return b.String()
}

func (q *concRun) parallel(fns []func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range fns {
		wg.Add(1)
		fn := fns[i]
		go func() {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					if vi, ok := v.(violation); ok {
						q.viol.CompareAndSwap(nil, vi.msg)
						return
					}
					buf := make([]byte, 1<<13)
					q.viol.CompareAndSwap(nil, fmt.Sprintf("panic: %v\n%s", v, trimStack(buf[:runtime.Stack(buf, false)])))
				}
			}()
			<-start
			fn()
		}()
	}
	close(start)
	wg.Wait()
	if v := q.viol.Load(); v != nil {
		fail("%s", v.(string))
	}
}

// finish: quiescent state and histories.
func (q *concRun) finish(main int, r *rnd) {
	s := q.s
	m := &model{}
	addKeys := func(base int, ks []keyT) {
		for i, k := range ks {
			v, ok := 0, false
			if base < 0 {
				x, k2 := s.get(k)
				v, ok = toInt(x), k2
				if !ok || v != q.stableVal[i] {
					fail("at the end Get(%v) = (%v,%v), expected %d", k, v, ok, q.stableVal[i])
				}
			} else {
				v, ok = q.get(main, base+i, k, 0)
			}
			m.ks = append(m.ks, k)
			m.has = append(m.has, ok)
			if ok {
				m.val = append(m.val, v)
				m.n++
			} else {
				m.val = append(m.val, nil)
			}
		}
	}
	addKeys(-1, q.stable)
	addKeys(0, q.hot)
	addKeys(kShared, q.shared)
	addKeys(kDoomed, q.doomed)
	addKeys(kHand, q.handles)
	addKeys(kFresh, q.fresh)
	for i, k := range q.fresh {
		if v, ok := q.get(main, kFresh+i, k, 1); !ok {
			fail("key %v was inserted and is lost (%v)", k, v)
		}
	}
	// histories
	byKey := map[int][]op{}
	total := 0
	hh := uint64(14695981039346656037)
	for _, h := range q.hist {
		for _, o := range h {
			ok := uint64(0)
			if o.ok {
				ok = 1
			}
			for _, v := range [...]uint64{uint64(o.task), uint64(o.kind)<<1 | ok, uint64(o.key), uint64(o.val), uint64(o.call), uint64(o.ret)} {
				hh = (hh ^ v) * 1099511628211
				hh ^= hh >> 31
			}
		}
	}
	if q.res.hists != nil {
		q.res.hists[hh] = true
	}
	for _, h := range q.hist {
		for _, o := range h {
			byKey[o.key] = append(byKey[o.key], o)
			total++
		}
	}
	q.res.add("ops", total)
	q.res.add("keys", len(byKey))
	var keys []int
	for key := range byKey {
		keys = append(keys, key)
	}
	sort.Ints(keys)
	lo, hi := make([]int, len(q.lens)), make([]int, len(q.lens))
	for _, key := range keys {
		ops := byKey[key]
		v, why, segs := checkKey(ops, 0)
		switch v {
		case linBad:
			fail("history of key k%d is not linearizable:\n%s", key, why)
		case linUnknown:
			q.res.add("inconclusive", 1)
		}
		if v == linOK {
			for i, l := range q.lens {
				a, b := lenBounds(ops, segs, l)
				lo[i] += a
				hi[i] += b
			}
		} else {
			for i := range q.lens {
				lo[i] -= len(ops)
				hi[i] += len(ops)
			}
		}
		for _, o := range ops {
			q.res.mix(uint64(o.kind)<<8 | uint64(o.task)<<16 | uint64(o.key)<<24)
		}
	}
	for i, l := range q.lens {
		if n := l.val - len(q.stable); n < lo[i] || n > hi[i] {
			fail("[%d,%d] task%d Len() = %d, finished and started operations give %d to %d", l.call, l.ret, l.task, l.val, lo[i]+len(q.stable), hi[i]+len(q.stable))
		}
	}
	q.res.add("lens", len(q.lens))
	// quiescent structure
	sq := &seqRun{s: s, m: m, r: r, o: q.o, res: q.res, index: map[[2]uint64]int{}, last: "all tasks finished"}
	for i, k := range m.ks {
		sq.index[[2]uint64{k.h, k.c}] = i
	}
	sq.opNo = total
	sq.full()
	for _, k := range q.absent {
		if v, ok := s.get(k); ok {
			fail("at the end Get(%v) = %v although the key was never stored", k, v)
		}
	}
}
