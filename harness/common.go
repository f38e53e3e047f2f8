package main

import (
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/kazu/elist_head"
	smap "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/rmap"
)

// ---------------------------------------------------------------- random numbers, violations, cases

type rnd struct{ s uint64 }

func newRnd(seed int64, salt string) *rnd {
	h := uint64(seed)*0x9e3779b97f4a7c15 + 0x6a09e667f3bcc909
	for i := 0; i < len(salt); i++ {
		h = (h ^ uint64(salt[i])) * 1099511628211
	}
	r := &rnd{h}
	r.u()
	return r
}

func (r *rnd) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rnd) n(n int) int      { return int(r.u() % uint64(n)) }
func (r *rnd) pct(p int) bool   { return r.n(100) < p }
func (r *rnd) pick(a []int) int { return a[r.n(len(a))] }
func (r *rnd) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.n(i+1))
	}
}

// violation is what an oracle raises.
type violation struct{ msg string }

func fail(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// kase is one case: kind and parameters, written as "kind k=v k=v".
type kase struct {
	kind string
	p    map[string]string
}

func parseCase(s string) kase {
	f := strings.Fields(s)
	c := kase{kind: f[0], p: map[string]string{}}
	for _, kv := range f[1:] {
		i := strings.IndexByte(kv, '=')
		c.p[kv[:i]] = kv[i+1:]
	}
	return c
}

func (c kase) i(k string, def int) int {
	if v, ok := c.p[k]; ok {
		n, err := strconv.Atoi(v)
		if err != nil {
			panic(err)
		}
		return n
	}
	return def
}
func (c kase) s(k, def string) string {
	if v, ok := c.p[k]; ok {
		return v
	}
	return def
}

// result of a case: counters, fingerprint of what was seen.
type result struct {
	counts map[string]int
	finger uint64
	note   string
	incon  string
	hists  map[uint64]bool // fingerprints of concurrent histories
}

func (r *result) add(k string, n int) { r.counts[k] += n }
func (r *result) mix(v uint64) {
	r.finger = (r.finger ^ v) * 1099511628211
	r.finger ^= r.finger >> 29
}

// ---------------------------------------------------------------- keys

type keyT struct {
	k    interface{} // key given to the map
	h, c uint64      // hash and conflict of key
}

func (k keyT) String() string { return fmt.Sprintf("%v(h=%x c=%x)", k.k, k.h, k.c) }

func strKey(s string) keyT {
	h, c := smap.KeyToHash(s)
	return keyT{s, h, c}
}

func uintKey(u uint64) keyT { return keyT{u, u, 0} }

// stringKeys makes n string keys of a shape.
func stringKeys(shape string, n int, r *rnd) (ks []keyT) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			ks = append(ks, strKey(s))
		}
	}
	switch shape {
	case "num":
		for i := 0; len(ks) < n; i++ {
			add(strconv.Itoa(i))
		}
	case "cluster": // low bits of hash are equal: all keys are next to each other
		b := uint(6 + r.n(6))
		want := r.u() & (1<<b - 1)
		salt := r.n(1 << 20)
		for i := 0; len(ks) < n; i++ {
			s := fmt.Sprintf("c%d-%d", salt, i)
			if smap.MemHashString(s)&(1<<b-1) == want {
				add(s)
			}
		}
	case "twoclu": // two dense regions and a few keys elsewhere
		salt := r.n(1 << 20)
		a, b := r.u()&0xff, r.u()&0xff
		for i := 0; len(ks) < n; i++ {
			s := fmt.Sprintf("t%d-%d", salt, i)
			h := smap.MemHashString(s) & 0xff
			if h == a || h == b || i%97 == 0 {
				add(s)
			}
		}
	case "len": // very different lengths, empty string included
		add("")
		for i := 0; len(ks) < n; i++ {
			k := strings.Repeat(string(rune('a'+i%26)), i%200) + strconv.Itoa(i/3)
			switch i % 7 { // other contents: bytes that are no text, and keys that differ little
			case 2:
				add(k + "\x00")
			case 3:
				add("\x00\xff\xfe" + k)
			case 4:
				add(strings.ToUpper(k))
			case 5:
				add(k + " ")
			}
			add(k)
		}
	default: // "rand"
		salt := r.n(1 << 20)
		for i := 0; len(ks) < n; i++ {
			add(fmt.Sprintf("key%d-%d", salt, i))
		}
	}
	return ks[:n]
}

// uintKeys makes n integer keys (hash of integer is itself).
func uintKeys(shape string, n int, r *rnd) (ks []keyT) {
	seen := map[uint64]bool{}
	add := func(u uint64) {
		if !seen[u] {
			seen[u] = true
			ks = append(ks, uintKey(u))
		}
	}
	rev := bits.Reverse64
	switch shape {
	case "num":
		for i := 0; len(ks) < n; i++ {
			add(uint64(i))
		}
	case "revnum": // dense from the first bucket's start
		for i := 0; len(ks) < n; i++ {
			add(rev(uint64(i)))
		}
	case "revtail": // dense below the last dummy
		for i := 0; len(ks) < n; i++ {
			add(rev(^uint64(0) - uint64(i)))
		}
	case "bnd": // around starts of buckets of every level
		for len(ks) < n {
			lv := uint(r.n(6) + 1)
			base := (r.u() & (1<<(4*lv) - 1)) << (64 - 4*lv)
			d := uint64(r.n(5))
			if r.pct(50) {
				add(rev(base + d))
			} else {
				add(rev(base - d))
			}
		}
	case "half": // midpoints, where new buckets are made
		for len(ks) < n {
			lv := uint(r.n(20) + 1)
			add(rev((2*(r.u()&(1<<lv-1))+1)<<(63-lv) + uint64(r.n(3)) - 1))
		}
	case "dense":
		base := r.u()
		for i := 0; len(ks) < n; i++ {
			add(rev(base + uint64(i)))
		}
	case "ext":
		for _, u := range []uint64{0, ^uint64(0), 1, 1 << 63, rev(1 << 60), rev(1<<60 - 1), rev(1<<60 + 1), ^uint64(0) - 1, ^uint64(0) >> 1} {
			if len(ks) < n {
				add(u)
			}
		}
		for len(ks) < n {
			add(r.u() | r.u()<<uint(r.n(64)))
		}
	default:
		for len(ks) < n {
			add(r.u())
		}
	}
	return
}

// ---------------------------------------------------------------- item types of a user

// cItem is a user's item built on SampleItem: own hash, fields around it.
type cItem struct {
	before [3]uint64
	name   string
	hash   uint64
	conf   uint64
	smap.SampleItem
	after uint64
}

var emptyCItem *cItem

const cItemOff = unsafe.Offsetof(emptyCItem.SampleItem) + smap.SampleItemOffsetOf

func cItemFrom(l *elist_head.ListHead) *cItem {
	return (*cItem)(smap.ElementOf(unsafe.Pointer(l), cItemOff))
}
func (c *cItem) Offset() uintptr { return cItemOff }
func (c *cItem) HmapEntryFromListHead(l *elist_head.ListHead) smap.HMapEntry {
	return cItemFrom(l)
}
func (c *cItem) Key() interface{}          { return c.name }
func (c *cItem) Next() smap.HMapEntry      { return neighbour(c, c.PtrListHead().DirectNext()) }
func (c *cItem) Prev() smap.HMapEntry      { return neighbour(c, c.PtrListHead().DirectPrev()) }
func (c *cItem) KeyHash() (uint64, uint64) { return c.hash, c.conf }
func newCItem(k keyT, v interface{}) *cItem {
	c := &cItem{name: fmt.Sprint(k.k), hash: k.h, conf: k.c, before: [3]uint64{1, 2, 3}, after: 4}
	c.SetValue(v)
	return c
}

// panicValue is a value that the user's item type dItem does not take.
var panicValue = &struct{ n int }{1}

// pItem is an item whose methods panic.
type pItem struct {
	smap.SampleItem
	inValue bool
}

func (p *pItem) KeyHash() (uint64, uint64) {
	if !p.inValue {
		panic("KeyHash of the user's item")
	}
	return p.SampleItem.KeyHash()
}
func (p *pItem) Value() interface{} { panic("Value of the user's item") }

// neighbour: an entry without key between items is not of the type of the items.
func neighbour(e smap.HMapEntry, l *elist_head.ListHead) smap.HMapEntry {
	if (*smap.MapHead)(nil).FromListHead(l).(*smap.MapHead).IsDummy() {
		return smap.EmptyEntryHMap.HmapEntryFromListHead(l)
	}
	return e.HmapEntryFromListHead(l)
}

// dItem is a user's item with its own fields, built on MapHead.
type dItem struct {
	smap.MapHead
	key interface{}
	h   uint64
	c   uint64
	val interface{}
	pad [5]byte
}

var emptyDItem *dItem

const dItemOff = unsafe.Offsetof(emptyDItem.MapHead)

func dItemFrom(l *elist_head.ListHead) *dItem {
	m := (*smap.MapHead)(nil).FromListHead(l).(*smap.MapHead)
	return (*dItem)(smap.ElementOf(unsafe.Pointer(m), dItemOff))
}
func (d *dItem) Offset() uintptr                                             { return dItemOff + d.MapHead.Offset() }
func (d *dItem) HmapEntryFromListHead(l *elist_head.ListHead) smap.HMapEntry { return dItemFrom(l) }
func (d *dItem) PtrMapHead() *smap.MapHead                                   { return &d.MapHead }
func (d *dItem) Key() interface{}                                            { return d.key }
func (d *dItem) Value() interface{}                                          { return d.val }
func (d *dItem) SetValue(v interface{}) bool {
	if v == panicValue {
		panic("SetValue of the user's item")
	}
	d.val = v
	return true
}
func (d *dItem) KeyHash() (uint64, uint64) { return d.h, d.c }
func (d *dItem) Delete()                   { panic("dItem is not deletable") }
func (d *dItem) Next() smap.HMapEntry      { return neighbour(d, d.PtrListHead().DirectNext()) }
func (d *dItem) Prev() smap.HMapEntry      { return neighbour(d, d.PtrListHead().DirectPrev()) }

// ---------------------------------------------------------------- configurations

type cfgDef struct {
	mode  smap.SearchMode
	pool  bool
	gor   bool
	emb   bool
	item  string // how keys are stored: set, store, storenf, entry, citem, ditem
	noDel bool
	gets  string // key: by key; hash: only by hash
}

var cfgs = map[string]cfgDef{
	"nest":     {mode: smap.NestedSearchForBucket, item: "set"},
	"lin":      {mode: smap.LenearSearchForBucket, item: "set"},
	"cs":       {mode: smap.CombineSearch, item: "set"},
	"cs2":      {mode: smap.CombineSearch2, item: "set"},
	"cs3":      {mode: smap.CombineSearch3, item: "set"},
	"cs4":      {mode: smap.CombineSearch4, item: "set"},
	"pnest":    {mode: smap.NestedSearchForBucket, pool: true, item: "set"},
	"pcs":      {mode: smap.CombineSearch, pool: true, item: "set"},
	"pcs2":     {mode: smap.CombineSearch2, pool: true, item: "set"},
	"pcs3":     {mode: smap.CombineSearch3, pool: true, item: "set"},
	"pcs4":     {mode: smap.CombineSearch4, pool: true, item: "set"},
	"gcs4":     {mode: smap.CombineSearch4, pool: true, gor: true, item: "set"},
	"store":    {mode: smap.CombineSearch3, item: "store"},
	"storecs":  {mode: smap.CombineSearch, item: "store"},
	"storenf":  {mode: smap.NestedSearchForBucket, item: "storenf"},
	"pstore":   {mode: smap.CombineSearch2, pool: true, item: "store"},
	"pstorenf": {mode: smap.CombineSearch4, pool: true, item: "storenf"},
	"mix":      {mode: smap.CombineSearch3, item: "mix"},
	"pmix":     {mode: smap.NestedSearchForBucket, pool: true, item: "mix"},
	"embmix":   {mode: smap.NestedSearchForBucket, emb: true, item: "mix"},
	"pentry":   {mode: smap.CombineSearch4, pool: true, item: "entry"},
	"entry":    {mode: smap.NestedSearchForBucket, item: "entry"},
	"entrycs":  {mode: smap.CombineSearch, item: "entry"},
	"entrycs3": {mode: smap.CombineSearch3, item: "entry"},
	"citem":    {mode: smap.NestedSearchForBucket, item: "citem", noDel: true, gets: "hash"},
	"citemcs2": {mode: smap.CombineSearch2, item: "citem", noDel: true, gets: "hash"},
	"ditem":    {mode: smap.CombineSearch3, item: "ditem", noDel: true, gets: "hash"},
	"ditemcs":  {mode: smap.CombineSearch, item: "ditem", noDel: true, gets: "hash"},
	"emb":      {mode: smap.NestedSearchForBucket, emb: true, item: "set"},
	"embcs":    {mode: smap.CombineSearch, emb: true, item: "set"},
	"embcs3":   {mode: smap.CombineSearch3, emb: true, item: "set"},
	"embcs4":   {mode: smap.CombineSearch4, emb: true, item: "set"},
	"rmap":     {item: "rmap"},
}

var (
	cfgSet    = []string{"nest", "lin", "cs", "cs2", "cs3", "cs4", "pnest", "pcs", "pcs2", "pcs3", "pcs4"}
	cfgStore  = []string{"store", "storecs", "storenf"}
	cfgUint   = []string{"entry", "entrycs", "entrycs3"}
	cfgCustom = []string{"citem", "citemcs2", "ditem", "ditemcs"}
	cfgEmb    = []string{"emb", "embcs", "embcs3", "embcs4"}
	cfgNonEmb = append(append(append(append([]string{}, cfgSet...), cfgStore...), cfgUint...), cfgCustom...)
	cfgAll    = append(append([]string{}, cfgNonEmb...), cfgEmb...)
	mbs       = []int{1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32, 64}
)

type sut struct {
	m   *smap.Map
	rm  *rmap.RMap
	def cfgDef
	cfg string
	raw bool // some items have a value put to V by the user
	col int  // % of keys of a custom item that share their hash with another key
}

func newSut(cfg string, mb int) *sut {
	def, ok := cfgs[cfg]
	if !ok {
		panic("no configuration " + cfg)
	}
	s := &sut{def: def, cfg: cfg, col: 15}
	if def.item == "rmap" {
		s.rm = rmap.New()
		return s
	}
	opts := []smap.OptHMap{smap.MaxPefBucket(mb)}
	if def.emb {
		opts = append(opts, smap.UseEmbeddedPool(true))
	}
	if def.gor && !smap.UseGoroutineInPool {
		smap.UseGoroutineInPool = true
	}
	if def.pool {
		opts = append(opts, smap.UsePool(true))
	}
	opts = append(opts, smap.BucketMode(def.mode))
	switch def.item {
	case "store":
		opts = append(opts, smap.ItemFn(func() smap.MapItem { return smap.EmptySampleHMapEntry }))
	case "citem":
		opts = append(opts, smap.ItemFn(func() smap.MapItem { return emptyCItem }))
	case "ditem":
		opts = append(opts, smap.ItemFn(func() smap.MapItem { return emptyDItem }))
	}
	s.m = smap.New(opts...)
	return s
}

// keys of the shape that fits the configuration.
func (s *sut) keys(shape string, n int, r *rnd) []keyT {
	switch s.def.item {
	case "entry":
		return uintKeys(shape, n, r)
	case "citem", "ditem":
		ks := uintKeys(shape, n, r)
		for i := range ks {
			if r.pct(30) {
				ks[i].c = r.u() >> 1
			}
			if i > 0 && r.pct(s.col) { // same hash, other conflict
				ks[i].h = ks[r.n(i)].h
				ks[i].c = uint64(i) + 1<<40
				if r.pct(40) { // differs in the upper or the lower half only
					ks[i].c = uint64(i+1)<<41 | 5
				}
			}
			ks[i].k = fmt.Sprintf("u%d", i)
		}
		return ks
	}
	return stringKeys(shape, n, r)
}

func (s *sut) shapes() []string {
	switch s.def.item {
	case "entry", "citem", "ditem":
		return []string{"num", "revnum", "revtail", "bnd", "half", "dense", "ext", "rand"}
	}
	return []string{"rand", "num", "cluster", "twoclu", "len"}
}

func (s *sut) newItem(k keyT, v interface{}) smap.MapItem {
	switch s.def.item {
	case "store", "storenf", "set", "rmap", "mix":
		if n, ok := v.(int); ok && s.raw && n%3 == 0 {
			it := &smap.SampleItem{K: k.k.(string)}
			it.V.Store(v)
			return it
		} else if ok && s.raw && n%3 == 1 { // hash is of a key it had before
			it := smap.NewSampleItem("before", v)
			it.Setup()
			it.K = k.k.(string)
			return it
		}
		return smap.NewSampleItem(k.k.(string), v)
	case "entry":
		return smap.NewEntryMap(k.k, v)
	case "citem":
		return newCItem(k, v)
	case "ditem":
		return &dItem{key: k.k, h: k.h, c: k.c, val: v}
	}
	panic("item")
}

func (s *sut) set(k keyT, v interface{}) bool {
	if s.rm != nil {
		if k.h&1 == 0 {
			return s.rm.Set(k.k.(string), v)
		}
		return s.rm.Set2(k.h, k.c, k.k.(string), v)
	}
	n, _ := v.(int)
	if s.def.item == "set" || s.def.item == "mix" && bits.OnesCount64(k.h^uint64(n))&1 == 0 { // items are made by the map or by the user
		return s.m.Set(k.k, v)
	}
	return s.m.StoreItem(s.newItem(k, v))
}

func (s *sut) get(k keyT) (interface{}, bool) {
	if s.rm != nil {
		return s.rm.Get(k.k.(string))
	}
	if s.def.gets == "hash" {
		return s.m.GetByHash(k.h, k.c)
	}
	return s.m.Get(k.k)
}

func (s *sut) getByHash(k keyT) (interface{}, bool) {
	if s.rm != nil {
		return s.rm.Get2(k.h, k.c)
	}
	return s.m.GetByHash(k.h, k.c)
}

func (s *sut) length() int {
	if s.rm != nil {
		return s.rm.Len()
	}
	return s.m.Len()
}

func (s *sut) load(k keyT) (smap.MapItem, bool) {
	if s.def.gets == "hash" {
		return s.m.LoadItemByHash(k.h, k.c)
	}
	return s.m.LoadItem(k.k)
}

func (s *sut) loadByHash(k keyT) (smap.MapItem, bool) { return s.m.LoadItemByHash(k.h, k.c) }

func (s *sut) del(k keyT) bool {
	if s.rm != nil {
		return s.rm.Delete(k.k.(string))
	}
	return s.m.Delete(k.k)
}
func (s *sut) purge(k keyT) bool { return s.m.Purge(k.k) }

// badOp is an operation that cannot work. It gives a description and whether the operation panicked.
func (s *sut) badOp(r *rnd, present keyT, has, alone bool) (what string, panicked bool) {
	unsup := []interface{}{struct{}{}, 1.5, []int{1}, make(chan int), float32(2), true, uint16(1), [2]int{}, &struct{}{}, func() {}}
	other := []interface{}{int(r.u() >> 1), r.u(), int64(r.u()), []byte(fmt.Sprint("bytes", r.u()))}
	run := func(w string, k interface{}, f func()) {
		what = fmt.Sprintf("%s(%T)", w, k)
		defer func() { panicked = recover() != nil }()
		f()
	}
	k := unsup[r.n(len(unsup))]
	str := s.def.item == "set" || s.def.item == "store" || s.def.item == "storenf" || s.def.item == "mix"
	switch n := r.n(14); {
	case n < 2:
		run("Set", k, func() { s.m.Set(k, 1) })
	case n == 2:
		run("Get", k, func() { s.m.Get(k) })
	case n == 3:
		run("LoadItem", k, func() { s.m.LoadItem(k) })
	case n == 4 && !s.def.noDel:
		run("Delete", k, func() { s.m.Delete(k) })
	case n == 5 && !s.def.noDel:
		run("Purge", k, func() { s.m.Purge(k) })
	case n == 6:
		run("StoreItem", nil, func() { s.m.StoreItem(nil) })
	case n == 7 && str:
		p := &pItem{inValue: r.pct(50)}
		p.K = fmt.Sprint("p", r.u())
		if has && r.pct(30) {
			p.K = present.k.(string)
		}
		run("StoreItem", p, func() { s.m.StoreItem(p) })
	case n == 8 && !s.def.emb: // an item is in one list only
		fresh := keyT{k: fmt.Sprint("fresh", r.u()), h: r.u(), c: r.u()}
		switch s.def.item {
		case "entry":
			fresh = keyT{k: fresh.h, h: fresh.h}
		case "citem", "ditem":
		default:
			fresh.h, fresh.c = smap.KeyToHash(fresh.k)
		}
		it := s.newItem(fresh, 1)
		where := s.m
		if !alone || s.def.noDel || r.pct(50) {
			where = smap.New(smap.ItemFn(func() smap.MapItem { return it }))
		}
		if !s.def.noDel && r.pct(25) {
			it.Delete()
			before := s.m.Len()
			if s.m.StoreItem(it) {
				fail("StoreItem of an item deleted before succeeds")
			}
			if _, ok := s.m.GetByHash(fresh.h, fresh.c); ok || alone && s.m.Len() != before {
				fail("StoreItem of an item deleted before returned false, and is found %v, Len %d after %d", ok, s.m.Len(), before)
			}
			return "StoreItem of an item deleted before", false
		}
		if !where.StoreItem(it) {
			fail("StoreItem of a new item returned false")
		}
		what = "StoreItem of an item of another map"
		if where == s.m {
			what = "StoreItem of a deleted item"
			if !where.Delete(fresh.k) {
				fail("Delete(%v) returned false behind StoreItem", fresh.k)
			}
		}
		if s.m.StoreItem(it) {
			fail("%s succeeds", what)
		}
		if _, ok := s.m.GetByHash(fresh.h, fresh.c); ok {
			fail("%s returned false and is found", what)
		}
		if v, ok := where.GetByHash(fresh.h, fresh.c); where != s.m && (!ok || v != 1) {
			fail("%s: the other map gives (%v,%v)", what, v, ok)
		}
	case s.def.item == "ditem" && has:
		run("StoreItem with a value not taken", present, func() { s.m.StoreItem(s.newItem(present, panicValue)) })
	case str:
		k = other[r.n(len(other))]
		stored := false
		run("Set", k, func() { stored = s.m.Set(k, 1) })
		if v, ok := s.m.Get(k); ok || stored {
			fail("%s, an item of which has a string as key: panicked %v, success %v, and then Get gives (%v,%v)", what, panicked, stored, v, ok)
		}
	default:
		run("Set", k, func() { s.m.Set(k, 1) })
	}
	return
}

// keyOf gives the key an item of this configuration must show.
func (s *sut) sameKey(item smap.MapItem, k keyT) bool {
	return item.Key() == k.k
}

// hashRank is the position of a hash in iteration order.
func hashRank(h uint64) uint64 { return bits.Reverse64(h) }

func sortedRanks(ks []keyT) {
	sort.Slice(ks, func(i, j int) bool { return hashRank(ks[i].h) < hashRank(ks[j].h) })
}

func memStats() (m runtime.MemStats) { runtime.ReadMemStats(&m); return }
