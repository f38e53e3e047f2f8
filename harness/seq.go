package main

import (
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"runtime"

	smap "github.com/kazu/skiplistmap"
)

// oracles that a sequential run can ask for.
type oracle uint32

const (
	oOps    oracle = 1 << iota // results of operations agree with the model
	oReads                     // every key is looked up by every lookup call
	oRange                     // iteration: exactly once, order, values, early stop
	oChain                     // chain of entries: order, both directions
	oLen                       // Len
	oSearch                    // SearchKey
	oHandle                    // handles got from LoadItem stay valid
	oIdent                     // LoadItem returns the stored item itself
	oVals                      // values of any type
)

type model struct {
	ks  []keyT
	val []interface{} // nil: absent, else value
	has []bool
	n   int
}

func newModel(ks []keyT) *model {
	return &model{ks: ks, val: make([]interface{}, len(ks)), has: make([]bool, len(ks))}
}
func (m *model) set(i int, v interface{}) {
	if !m.has[i] {
		m.has[i] = true
		m.n++
	}
	m.val[i] = v
}
func (m *model) del(i int) {
	if m.has[i] {
		m.has[i] = false
		m.n--
	}
	m.val[i] = nil
}

type seqRun struct {
	s      *sut
	m      *model
	r      *rnd
	o      oracle
	res    *result
	opNo   int
	val    int
	last   string
	purge  bool // delete by Purge
	hdel   bool // delete by handles also
	both   bool
	index  map[[2]uint64]int
	items  map[int]smap.MapItem // stored items (oIdent)
	hands  map[int]smap.MapItem // handles (oHandle)
	anyVal bool
}

func (q *seqRun) where() string {
	return fmt.Sprintf("op %d (%s)", q.opNo, q.last)
}

// listValue is a type whose values cannot be compared.
type listValue struct {
	n int
	l []string
}

// same: identical values, also of types that cannot be compared.
func same(a, b interface{}) bool {
	t := reflect.TypeOf(a)
	if t != reflect.TypeOf(b) {
		return false
	}
	if t == nil {
		return true
	}
	switch v := a.(type) {
	case float64:
		return math.Float64bits(v) == math.Float64bits(b.(float64))
	case listValue:
		w := b.(listValue)
		return v.n == w.n && same(v.l, w.l)
	}
	switch t.Kind() {
	case reflect.Slice:
		return reflect.ValueOf(a).Len() == reflect.ValueOf(b).Len() && reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	case reflect.Map, reflect.Func:
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}
	return a == b
}

// nextVal: unique value; with anyVal values of many types.
func (q *seqRun) nextVal() interface{} {
	q.val++
	if !q.anyVal {
		return q.val
	}
	switch q.r.n(18) {
	case 11:
		return []int{q.val}
	case 12:
		return map[string]int{"v": q.val}
	case 13:
		n := q.val
		return func() int { return n }
	case 14:
		return listValue{q.val, []string{"x"}}
	case 15:
		return math.NaN()
	case 16:
		return []byte(nil)
	case 0:
		return nil
	case 1:
		return fmt.Sprint("s", q.val)
	case 2:
		return float64(q.val) + 0.5
	case 3:
		v := q.val
		return &v
	case 4:
		return struct{ A, B int }{q.val, -q.val}
	case 5:
		return [3]string{"x", fmt.Sprint(q.val), ""}
	case 6:
		return error(fmt.Errorf("e%d", q.val))
	case 7:
		return (*int)(nil)
	case 8:
		return q.val%2 == 0
	case 9:
		return smap.NewSampleItem("v", q.val)
	case 10:
		return make(chan int)
	}
	return q.val
}

func (q *seqRun) checkGet(i int) {
	k := q.m.ks[i]
	v, ok := q.s.get(k)
	q.res.add("reads", 1)
	if ok != q.m.has[i] || (ok && !same(v, q.m.val[i])) || (!ok && v != nil) {
		fail("%s: Get(%v) = (%v,%v), expected (%v,%v)", q.where(), k, v, ok, q.m.val[i], q.m.has[i])
	}
}

func (q *seqRun) checkLookups(i int) {
	k := q.m.ks[i]
	q.checkGet(i)
	v, ok := q.s.getByHash(k)
	if ok != q.m.has[i] || (ok && !same(v, q.m.val[i])) {
		fail("%s: GetByHash(%v) = (%v,%v), expected (%v,%v)", q.where(), k, v, ok, q.m.val[i], q.m.has[i])
	}
	if q.s.rm != nil {
		return
	}
	for n, f := range []func(keyT) (smap.MapItem, bool){q.s.load, q.s.loadByHash} {
		it, ok := f(k)
		name := [2]string{"LoadItem", "LoadItemByHash"}[n]
		if ok != q.m.has[i] {
			fail("%s: %s(%v) = %v, expected %v", q.where(), name, k, ok, q.m.has[i])
		}
		if ok {
			q.checkItem(it, i, name)
		}
	}
	q.res.add("reads", 3)
}

func (q *seqRun) checkItem(it smap.MapItem, i int, what string) {
	k := q.m.ks[i]
	if it == nil {
		fail("%s: %s(%v) gives nil item", q.where(), what, k)
	}
	if !same(it.Value(), q.m.val[i]) {
		fail("%s: item of %s(%v) has value %v, expected %v", q.where(), what, k, it.Value(), q.m.val[i])
	}
	if !q.s.sameKey(it, k) {
		fail("%s: item of %s(%v) has key %v", q.where(), what, k, it.Key())
	}
	if h, c := it.KeyHash(); h != k.h || c != k.c {
		fail("%s: item of %s(%v) has KeyHash %x,%x", q.where(), what, k, h, c)
	}
	mh := it.PtrMapHead()
	if mh.KeyInHmap() != k.h || mh.ConflictInHamp() != k.c {
		fail("%s: item of %s(%v) is placed with hash %x conflict %x", q.where(), what, k, mh.KeyInHmap(), mh.ConflictInHamp())
	}
	if mh.IsDeleted() || mh.IsDummy() || mh.IsIgnored() {
		fail("%s: item of %s(%v) is flagged deleted/dummy", q.where(), what, k)
	}
}

func (q *seqRun) checkSearch(i int) {
	k := q.m.ks[i]
	e := q.s.m.SearchKey(k.h)
	any := false
	for j := range q.m.ks {
		if q.m.ks[j].h == k.h && q.m.has[j] {
			any = true
		}
	}
	found := e != nil && e.PtrMapHead().KeyInHmap() == k.h && !e.PtrMapHead().IsIgnored()
	if any && !found {
		fail("%s: SearchKey(%v) does not find the entry", q.where(), k)
	}
	if !any && found {
		fail("%s: SearchKey(%v) finds a live entry for an absent key", q.where(), k)
	}
	q.res.add("searches", 1)
}

// checkRange: iteration oracle
func (q *seqRun) checkRange() {
	type kv struct {
		i int
		v interface{}
	}
	var seq []kv
	seen := make([]bool, len(q.m.ks))
	var prev uint64
	limit := q.m.n*2 + 1000
	q.s.m.RangeItem(func(it smap.MapItem) bool {
		mh := it.PtrMapHead()
		i, ok := q.index[[2]uint64{mh.KeyInHmap(), mh.ConflictInHamp()}]
		if !ok {
			fail("%s: iteration gives an item never stored: key %v hash %x conflict %x", q.where(), it.Key(), mh.KeyInHmap(), mh.ConflictInHamp())
		}
		if !q.m.has[i] {
			fail("%s: iteration gives deleted/absent key %v", q.where(), q.m.ks[i])
		}
		if seen[i] {
			fail("%s: iteration gives key %v twice", q.where(), q.m.ks[i])
		}
		seen[i] = true
		q.checkItem(it, i, "RangeItem")
		rank := hashRank(mh.KeyInHmap())
		if len(seq) > 0 && rank < prev {
			fail("%s: iteration is out of order at key %v: %x after %x", q.where(), q.m.ks[i], rank, prev)
		}
		prev = rank
		seq = append(seq, kv{i, it.Value()})
		return len(seq) < limit
	})
	if len(seq) != q.m.n {
		for i := range seen {
			if q.m.has[i] && !seen[i] {
				fail("%s: iteration misses key %v (%d of %d keys)", q.where(), q.m.ks[i], len(seq), q.m.n)
			}
		}
	}
	// Range gives the same sequence
	n := 0
	q.s.m.Range(func(k, v interface{}) bool {
		if n >= len(seq) || k != q.m.ks[seq[n].i].k || !same(v, seq[n].v) {
			fail("%s: Range differs from RangeItem at position %d: (%v,%v)", q.where(), n, k, v)
		}
		n++
		return true
	})
	if n != len(seq) {
		fail("%s: Range gives %d entries, RangeItem %d", q.where(), n, len(seq))
	}
	// stop early
	if len(seq) > 0 {
		stop, n := q.r.n(len(seq)), 0
		q.s.m.Range(func(k, v interface{}) bool {
			if k != q.m.ks[seq[n].i].k {
				fail("%s: second iteration differs at position %d", q.where(), n)
			}
			n++
			return n <= stop
		})
		if n != stop+1 {
			fail("%s: iteration called f %d times although it returned false at call %d", q.where(), n, stop+1)
		}
		n = 0
		q.s.m.RangeItem(func(smap.MapItem) bool { n++; return n <= stop })
		if n != stop+1 {
			fail("%s: RangeItem called f %d times although it returned false at call %d", q.where(), n, stop+1)
		}
	}
	q.res.add("iterated", len(seq))
	for _, e := range seq {
		q.res.mix(uint64(e.i))
	}
}

// checkChain walks neighbours from both ends.
func (q *seqRun) checkChain() {
	if q.m.n == 0 && q.opNo == 0 {
		return
	}
	first, last := q.s.m.First().PtrMapHead(), q.s.m.Last().PtrMapHead()
	if first.KeyInHmap() != 0 && false {
		fail("first")
	}
	if last.KeyInHmap() != ^uint64(0) {
		fail("%s: last entry has hash %x", q.where(), last.KeyInHmap())
	}
	var fwd []*smap.MapHead
	limit := 80*len(q.m.ks) + q.opNo*4 + 5000
	live := make([]int, len(q.m.ks))
	for cur := first; cur != nil; cur = cur.NextWithNil() {
		fwd = append(fwd, cur)
		if len(fwd) > limit {
			fail("%s: chain of entries is longer than %d: cycle?", q.where(), limit)
		}
		if n := len(fwd); n > 1 && hashRank(fwd[n-2].KeyInHmap()) > hashRank(cur.KeyInHmap()) {
			fail("%s: entries out of order: %x after %x", q.where(), hashRank(cur.KeyInHmap()), hashRank(fwd[n-2].KeyInHmap()))
		}
		if !cur.IsIgnored() {
			i, ok := q.index[[2]uint64{cur.KeyInHmap(), cur.ConflictInHamp()}]
			if !ok || !q.m.has[i] {
				fail("%s: chain has a live entry that was not stored: hash %x", q.where(), cur.KeyInHmap())
			}
			live[i]++
		}
	}
	if fwd[len(fwd)-1] != last {
		fail("%s: walking forward from First does not end at Last", q.where())
	}
	for i, n := range live {
		if q.m.has[i] && n != 1 {
			fail("%s: key %v is %d times in the chain", q.where(), q.m.ks[i], n)
		}
	}
	pos := len(fwd)
	for cur := last; cur != nil; cur = cur.PrevtWithNil() {
		pos--
		if pos < 0 || fwd[pos] != cur {
			fail("%s: walking backward differs from walking forward at entry %d of %d (hash %x)", q.where(), pos, len(fwd), cur.KeyInHmap())
		}
	}
	if pos != 0 {
		fail("%s: walking backward ends %d entries early", q.where(), pos)
	}
	q.res.add("chain", len(fwd))
}

func (q *seqRun) checkNeighbours(i int) {
	if !q.m.has[i] {
		return
	}
	it, ok := q.s.load(q.m.ks[i])
	if !ok {
		return
	}
	// an entry next to the item may be of another type: only its MapHead is used
	nx := it.Next()
	if nx == nil || nx.PtrMapHead().PrevtWithNil() != it.PtrMapHead() {
		fail("%s: item %v is not Prev of its Next", q.where(), q.m.ks[i])
	}
	pv := it.Prev()
	if pv == nil || pv.PtrMapHead().NextWithNil() != it.PtrMapHead() {
		fail("%s: item %v is not Next of its Prev", q.where(), q.m.ks[i])
	}
	a, b, c := hashRank(pv.PtrMapHead().KeyInHmap()), hashRank(it.PtrMapHead().KeyInHmap()), hashRank(nx.PtrMapHead().KeyInHmap())
	if a > b || b > c {
		fail("%s: neighbours of %v are out of order: %x %x %x", q.where(), q.m.ks[i], a, b, c)
	}
}

func (q *seqRun) checkLen() {
	if n := q.s.length(); n != q.m.n {
		fail("%s: Len() = %d, expected %d", q.where(), n, q.m.n)
	}
	q.res.add("lens", 1)
}

func (q *seqRun) checkHandles() {
	for i, h := range q.hands {
		if !q.m.has[i] {
			continue
		}
		if !same(h.Value(), q.m.val[i]) || !q.s.sameKey(h, q.m.ks[i]) {
			fail("%s: handle of key %v shows key %v value %v, expected value %v", q.where(), q.m.ks[i], h.Key(), h.Value(), q.m.val[i])
		}
		it, ok := q.s.load(q.m.ks[i])
		if !ok || it.PtrMapHead() != h.PtrMapHead() {
			fail("%s: handle of key %v is no longer the item in the map", q.where(), q.m.ks[i])
		}
		q.res.add("handles", 1)
	}
}

func (q *seqRun) full() {
	q.last = "full check after " + q.last
	if q.o&oLen != 0 {
		q.checkLen()
	}
	if q.o&oReads != 0 {
		for i := range q.m.ks {
			q.checkLookups(i)
		}
	}
	if q.o&oRange != 0 {
		q.checkRange()
	}
	if q.o&oChain != 0 {
		q.checkChain()
		for j := 0; j < 20; j++ {
			q.checkNeighbours(q.r.n(len(q.m.ks)))
		}
	}
	if q.o&oSearch != 0 {
		for j := 0; j < 20 || j < len(q.m.ks)/10; j++ {
			q.checkSearch(q.r.n(len(q.m.ks)))
		}
	}
	if q.o&oHandle != 0 {
		q.checkHandles()
	}
	if q.o&oIdent != 0 {
		for i, it := range q.items {
			if !q.m.has[i] {
				continue
			}
			got, ok := q.s.load(q.m.ks[i])
			if !ok || got != it {
				fail("%s: LoadItem(%v) is not the item that was stored", q.where(), q.m.ks[i])
			}
		}
	}
	q.res.add("fullchecks", 1)
}

func (q *seqRun) doSet(i int) {
	k := q.m.ks[i]
	v := q.nextVal()
	q.last = fmt.Sprintf("Set %v", k)
	was := q.m.has[i]
	var ok bool
	if q.s.def.item == "set" || q.s.rm != nil || q.s.def.item == "mix" && q.r.pct(50) {
		ok = q.s.set(k, v)
	} else {
		it := q.s.newItem(k, v)
		ok = q.s.m.StoreItem(it)
		if !was {
			q.items[i] = it
		}
	}
	q.m.set(i, v)
	if q.o&oOps != 0 && !ok {
		fail("%s: Set(%v) returned false", q.where(), k)
	}
	if was {
		q.res.add("updates", 1)
	} else {
		q.res.add("inserts", 1)
	}
}

func (q *seqRun) doDel(i int) {
	k := q.m.ks[i]
	var ok bool
	if q.hdel && q.m.has[i] && q.r.pct(40) {
		// what rmap does: mark the item, count down
		q.last = fmt.Sprintf("Delete of item %v by handle", k)
		it, found := q.handle(i)
		if ok = found; ok {
			it.Delete()
			q.s.m.AddLen(-1)
			if it.PtrMapHead().IsDeleted() != true {
				fail("%s: item is not deleted", q.where())
			}
		}
		q.res.add("handledeletes", 1)
	} else if q.purge && (!q.both || q.r.pct(50)) {
		q.last = fmt.Sprintf("Purge %v", k)
		ok = q.s.purge(k)
		q.res.add("purges", 1)
	} else {
		q.last = fmt.Sprintf("Delete %v", k)
		ok = q.s.del(k)
		q.res.add("deletes", 1)
	}
	if ok != q.m.has[i] && q.o&oOps != 0 {
		fail("%s: returned %v, key present: %v", q.where(), ok, q.m.has[i])
	}
	if h := q.hands[i]; h != nil && ok && q.o&oHandle != 0 && (h.Value() != nil || !q.s.sameKey(h, k)) {
		fail("%s: the item held shows key %v and value %v after its key was deleted", q.where(), h.Key(), h.Value())
	}
	q.m.del(i)
	delete(q.items, i)
	delete(q.hands, i)
}

// doDelHandle deletes by callback of Range or item handle: sequential user code does that.
func (q *seqRun) afterOp(i int) {
	q.opNo++
	if q.o&oLen != 0 {
		q.checkLen()
	}
	if q.o&oOps != 0 {
		q.checkGet(i)
		q.checkGet(q.r.n(len(q.m.ks)))
	}
	if q.o&oReads != 0 {
		q.checkLookups(i)
		q.checkLookups(q.r.n(len(q.m.ks)))
	}
	if q.o&oChain != 0 {
		q.checkNeighbours(i)
	}
	if q.o&oSearch != 0 && q.opNo%8 == 0 {
		q.checkSearch(i)
	}
}

// seq: one sequential history.
//
//	cfg, mb, nk (keys), no (operations), del (% of operations), shape, order (of first inserts), seed,
//	purge=0|1|2, o (oracles), every (full check), any=1 values of any type, opt=1 change search mode and bucket size on the way
func newSeqRun(c kase, res *result) *seqRun {
	r := newRnd(int64(c.i("seed", 1)), c.kind+c.s("cfg", "")+c.s("mb", ""))
	s := newSut(c.s("cfg", "nest"), c.i("mb", 16))
	s.col = c.i("coll", 15)
	s.raw = c.i("raw", 0) == 1
	kr := r
	if c.s("salt", "") != "" { // maps with the same kind of items get the same keys
		kr = newRnd(int64(c.i("seed", 1)), c.s("salt", ""))
	}
	ks := s.keys(c.s("shape", "rand"), c.i("nk", 100), kr)
	q := &seqRun{s: s, r: r, res: res, o: oracle(c.i("o", int(oOps|oRange|oLen))), items: map[int]smap.MapItem{}, hands: map[int]smap.MapItem{}, index: map[[2]uint64]int{}}
	q.anyVal = c.i("any", 0) == 1
	q.hdel = c.i("hdel", 0) == 1 && s.rm == nil && !s.def.emb && !s.def.noDel
	switch c.i("purge", 0) {
	case 1:
		q.purge = true
	case 2:
		q.purge, q.both = true, true
	}
	switch c.s("order", "rand") {
	case "asc":
		sortedRanks(ks)
	case "desc":
		sortedRanks(ks)
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	case "zig": // from both ends
		sortedRanks(ks)
		o := append([]keyT{}, ks...)
		for i := range ks {
			if i%2 == 0 {
				ks[i] = o[i/2]
			} else {
				ks[i] = o[len(o)-1-i/2]
			}
		}
	case "mid": // always in the middle of what is there
		sortedRanks(ks)
		o := append([]keyT{}, ks...)
		for i := range ks {
			if i%2 == 0 {
				ks[len(ks)-1-i] = o[i/2]
			} else {
				ks[len(ks)-1-i] = o[len(o)-1-i/2]
			}
		}
	}
	q.m = newModel(ks)
	for i, k := range ks {
		q.index[[2]uint64{k.h, k.c}] = i
	}
	return q
}

func runSeq(c kase, res *result) {
	q := newSeqRun(c, res)
	s, r, ks := q.s, q.r, q.m.ks
	del := c.i("del", 0)
	if s.def.noDel {
		del = 0
	}
	every := c.i("every", 0)
	no := c.i("no", 1000)
	fill := c.i("fill", 70) // % of keys inserted in order before the random phase
	opt := c.i("opt", 0) == 1
	gcEvery := c.i("gc", 0)
	bad := c.i("bad", 0) == 1

	q.last = "new map"
	q.full()
	for i := range ks {
		q.checkEmptyLookup(i)
	}
	step := func(i int) {
		q.afterOp(i)
		if every > 0 && q.opNo%every == 0 {
			q.full()
		}
		if gcEvery > 0 && q.opNo%gcEvery == 0 {
			runtime.GC()
		}
		if opt && r.n(20) == 0 {
			q.switchOption()
		}
	}
	nf := len(ks) * fill / 100
	for i := 0; i < nf; i++ {
		if bad && r.pct(20) {
			q.last, _ = s.badOp(r, ks[i], false, true)
			step(i)
		}
		q.doSet(i)
		step(i)
		if del > 0 && r.pct(del/4) {
			j := r.n(i + 1)
			q.doDel(j)
			step(j)
		}
	}
	if nf > 0 {
		q.full()
	}
	burst := c.i("burst", 0)
	for n := 0; n < no; n++ {
		i := r.n(len(ks))
		if burst > 0 { // work on a window of neighbouring keys for a while
			i = ((n/burst)*31 + r.n(burst)) % len(ks)
		}
		if r.pct(del) {
			q.doDel(i)
		} else {
			q.doSet(i)
		}
		if q.o&oHandle != 0 && q.m.has[i] && r.pct(20) {
			if it, ok := q.handle(i); ok {
				q.hands[i] = it
			}
		}
		if q.o&oHandle != 0 && r.pct(10) {
			q.handleUpdate()
		}
		step(i)
		if bad && r.pct(30) {
			j := r.n(len(ks))
			what, _ := s.badOp(r, ks[j], q.m.has[j], true)
			q.last = what
			q.checkLookups(j)
			q.res.add("refused", 1)
			step(j)
		}
	}
	q.full()
	if del > 0 && c.i("drain", 0) == 1 {
		perm := make([]int, len(ks))
		for i := range perm {
			perm[i] = i
		}
		r.shuffle(len(perm), func(a, b int) { perm[a], perm[b] = perm[b], perm[a] })
		for _, i := range perm {
			q.doDel(i)
			step(i)
		}
		q.full()
		for _, i := range perm {
			q.doSet(i)
			step(i)
		}
		q.full()
	}
	res.add("ops", q.opNo)
	res.mix(uint64(q.m.n))
	res.note = fmt.Sprintf("%d keys live at the end, %d operations", q.m.n, q.opNo)
}

// handle gets the item of a key in one of the ways to do so.
func (q *seqRun) handle(i int) (it smap.MapItem, ok bool) {
	k := q.m.ks[i]
	switch n := q.r.n(20); {
	case n == 0 && q.s.def.item != "entry":
		q.s.m.RangeItem(func(e smap.MapItem) bool {
			if h, c := e.KeyHash(); h == k.h && c == k.c {
				it, ok = e, true
			}
			return !ok
		})
	case n < 10:
		it, ok = q.s.loadByHash(k)
	default:
		it, ok = q.s.load(k)
	}
	return
}

// handleUpdate writes through a handle and expects the map to show it.
func (q *seqRun) handleUpdate() {
	for i, h := range q.hands {
		if !q.m.has[i] {
			continue
		}
		v := q.nextVal()
		q.last = fmt.Sprintf("SetValue by handle of %v", q.m.ks[i])
		h.SetValue(v)
		q.m.set(i, v)
		q.checkGet(i)
		q.res.add("handleupdates", 1)
		return
	}
}

func (q *seqRun) checkEmptyLookup(i int) {
	if i > 50 {
		return
	}
	if q.o&(oOps|oReads) != 0 {
		q.checkGet(i)
	}
}

// switchOption changes how the map searches; contents must not change.
func (q *seqRun) switchOption() {
	modes := []smap.SearchMode{smap.LenearSearchForBucket, smap.NestedSearchForBucket, smap.CombineSearch, smap.CombineSearch2, smap.CombineSearch3, smap.CombineSearch4}
	switch n := q.r.n(100); {
	case n < 50:
		m := modes[q.r.n(len(modes))]
		q.last = fmt.Sprintf("BucketMode(%d)", m)
		q.s.m.Options(smap.BucketMode(m))
	case n < 75 && q.s.rm == nil && !q.s.def.emb:
		q.last = fmt.Sprintf("UsePool(%v)", n&1 == 0)
		q.s.m.Options(smap.UsePool(n&1 == 0))
	default:
		m := mbs[q.r.n(len(mbs))]
		q.last = fmt.Sprintf("MaxPefBucket(%d)", m)
		q.s.m.Options(smap.MaxPefBucket(m))
	}
	q.res.add("switches", 1)
	q.full()
}

var _ = bits.Reverse64
