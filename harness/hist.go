package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
)

// ---------------------------------------------------------------- histories and linearizability per key

type opKind byte

const (
	opSet opKind = iota
	opGet
	opDel
)

type op struct {
	task      int
	kind      opKind
	key       int
	val       int // value written or read
	ok        bool
	call, ret int64
	name      string
}

func (o op) String() string {
	switch o.kind {
	case opSet:
		return fmt.Sprintf("[%d,%d] task%d %s(k%d,%d)=%v", o.call, o.ret, o.task, o.name, o.key, o.val, o.ok)
	case opDel:
		return fmt.Sprintf("[%d,%d] task%d %s(k%d)=%v", o.call, o.ret, o.task, o.name, o.key, o.ok)
	}
	return fmt.Sprintf("[%d,%d] task%d %s(k%d)=(%d,%v)", o.call, o.ret, o.task, o.name, o.key, o.val, o.ok)
}

var clock int64

func stamp() int64 {
	n := atomic.AddInt64(&clock, 1)
	if onStamp != nil {
		onStamp(n)
	}
	return n
}

var onStamp func(int64) // for debugging

// state of one key: 0 absent, else value (values are > 0 and unique)
type linState int

// apply gives the next state if the operation is possible in st.
func apply(o *op, st linState) (linState, bool) {
	switch o.kind {
	case opSet:
		return linState(o.val), o.ok
	case opGet:
		if o.ok {
			return st, st == linState(o.val) && st != 0
		}
		return st, st == 0
	default:
		if o.ok {
			return 0, st != 0
		}
		return st, st == 0
	}
}

type linVerdict int

const (
	linOK linVerdict = iota
	linBad
	linUnknown
)

// checkKey checks the history of one key. starts: possible states at the beginning.
func checkKey(ops []op, start linState) (linVerdict, string, []segment) {
	sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	states := map[linState]bool{start: true}
	segs := []segment{{states: states}}
	for i := 0; i < len(ops); {
		// segment ends where no operation is open
		j, end := i, int64(0)
		for ; j < len(ops); j++ {
			if j > i && ops[j].call > end {
				break
			}
			if ops[j].ret > end {
				end = ops[j].ret
			}
		}
		seg := ops[i:j]
		next, v := checkSegment(seg, states)
		if v != linOK {
			return v, segString(seg, states), nil
		}
		states = next
		segs = append(segs, segment{seg[0].call, end, states})
		i = j
	}
	return linOK, "", segs
}

// segment of a history of a key: no operation is open before and after it
type segment struct {
	call, ret int64
	states    map[linState]bool // possible afterwards
}

// lenBounds: how many entries of a key may be counted in Len l
func lenBounds(ops []op, segs []segment, l op) (lo, hi int) {
	i := sort.Search(len(segs), func(i int) bool { return segs[i].ret > l.call }) - 1
	if i+1 == len(segs) || segs[i+1].call > l.ret { // no operation on the key is open
		st := segs[i].states
		switch {
		case !st[0]:
			return 1, 1
		case len(st) == 1:
			return 0, 0
		}
		return 0, 1
	}
	hi = 1
	for _, o := range ops { // what is done may not be counted yet
		if o.call < l.ret && o.ret > l.call {
			if o.kind == opSet {
				lo--
			} else if o.kind == opDel && o.ok {
				hi++
			}
		}
	}
	return
}

func segString(seg []op, st map[linState]bool) string {
	var b strings.Builder
	var ss []int
	for s := range st {
		ss = append(ss, int(s))
	}
	sort.Ints(ss)
	fmt.Fprintf(&b, "possible values before: %v (0: absent)\n", ss)
	for i, o := range seg {
		if i > 60 {
			fmt.Fprintf(&b, "  ... %d more\n", len(seg)-i)
			break
		}
		fmt.Fprintf(&b, "  %s\n", o)
	}
	return b.String()
}

type linKey struct {
	a, b, c, d uint64
	st         linState
}

func checkSegment(seg []op, starts map[linState]bool) (map[linState]bool, linVerdict) {
	if len(seg) > 256 {
		return nil, linUnknown
	}
	ends := map[linState]bool{}
	seen := map[linKey]bool{}
	var stack []linKey
	for s := range starts {
		stack = append(stack, linKey{st: s})
	}
	has := func(k *linKey, i int) bool {
		w := [4]uint64{k.a, k.b, k.c, k.d}[i>>6]
		return w>>(uint(i)&63)&1 == 1
	}
	set := func(k linKey, i int) linKey {
		m := uint64(1) << (uint(i) & 63)
		switch i >> 6 {
		case 0:
			k.a |= m
		case 1:
			k.b |= m
		case 2:
			k.c |= m
		default:
			k.d |= m
		}
		return k
	}
	for len(stack) > 0 {
		k := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 400000 {
			return nil, linUnknown
		}
		// earliest return of operations not linearized
		minRet, left := int64(1<<62), false
		for i := range seg {
			if !has(&k, i) {
				left = true
				if seg[i].ret < minRet {
					minRet = seg[i].ret
				}
			}
		}
		if !left {
			ends[k.st] = true
			continue
		}
		for i := range seg {
			if seg[i].call > minRet {
				break
			}
			if has(&k, i) {
				continue
			}
			st, ok := apply(&seg[i], k.st)
			if ok {
				nk := set(k, i)
				nk.st = st
				stack = append(stack, nk)
			}
		}
	}
	if len(ends) == 0 {
		return nil, linBad
	}
	return ends, linOK
}
