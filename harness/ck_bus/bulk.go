//go:build go1.22

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/pkg/disksyncmap"
	"github.com/levilutz/basiccoin/pkg/queue"
	"github.com/levilutz/basiccoin/pkg/set"
	"github.com/levilutz/basiccoin/pkg/syncmap"
	"github.com/levilutz/basiccoin/pkg/syncqueue"
	"github.com/levilutz/basiccoin/pkg/util"
)

// The containers at the sizes a busy node has: tens of thousands of queued messages, pool entries and records.

// bulkQueue fills and drains a queue in long waves, around every power of two of its size.
func bulkQueue(i int, id string) {
	rng := vlib.Rng("bq", i)
	type qi interface {
		Push(...int)
		Pop() (int, bool)
		Peek() (int, bool)
		Size() int
	}
	var q qi = queue.NewQueue[int]()
	if i%2 == 0 {
		q = syncqueue.NewSyncQueue[int]()
	}
	in, out, high := 0, 0, 0
	trace := []string{}
	fail := func(f string, a ...any) bool {
		rep.Violate("bulk-queue", id, fmt.Sprintf(f, a...)+fmt.Sprintf(" (after %d pushed, %d popped)", in, out), trace)
		return false
	}
	push := func(n int) {
		l := make([]int, n)
		for j := range l {
			l[j] = in + 1
			in++
		}
		q.Push(l...)
		high = max(high, in-out)
	}
	pop := func(n int) bool {
		for ; n > 0; n-- {
			if v, ok := q.Pop(); ok != (out < in) || (ok && v != out+1) {
				return fail("pop gave %d %v, expected %d", v, ok, out+1)
			} else if ok {
				out++
			}
		}
		if v, ok := q.Peek(); ok != (out < in) || (ok && v != out+1) {
			return fail("peek gave %d %v, expected %d", v, ok, out+1)
		}
		if q.Size() != in-out {
			return fail("size %d, expected %d", q.Size(), in-out)
		}
		return true
	}
	for w := 0; w < 4; w++ {
		target := 1 << (8 + rng.Intn(9)) // up to 65536
		target += rng.Intn(5) - 2
		trace = append(trace, fmt.Sprintf("fill to %d, drain", target))
		switch rng.Intn(3) {
		case 0: // at once
			push(max(0, target-(in-out)))
		case 1: // one by one
			for in-out < target {
				push(1)
			}
		case 2: // pieces, with pops in between
			for in-out < target {
				push(1 + rng.Intn(600))
				if !pop(rng.Intn(200)) {
					return
				}
			}
		}
		left := 0
		if rng.Intn(3) > 0 {
			left = rng.Intn(target)
		}
		if !pop(in - out - left) {
			return
		}
	}
	pop(in - out + 1)
	rep.Max("queue_depth", int64(high))
	rep.Count("bulk_items", int64(in))
	rep.Eval(fmt.Sprint("bulkq", i%2, high/4096))
}

// bulkSet keeps large sets and compares them with maps.
func bulkSet(i int, id string) {
	rng := vlib.Rng("bs", i)
	n := 500 + rng.Intn(30000)
	fail := func(f string, a ...any) {
		rep.Violate("bulk-set", id, fmt.Sprintf(f, a...)+fmt.Sprintf(" (set of %d)", n), nil)
	}
	list := make([]int, n)
	m := map[int]bool{}
	for j := range list {
		list[j] = rng.Intn(3 * n)
		m[list[j]] = true
	}
	var s *set.Set[int]
	switch i % 3 {
	case 0:
		s = set.NewSetFromList(list)
	case 1:
		s = set.NewSet[int]()
		s.Add(list...)
	case 2:
		s = set.NewSet[int]()
		for _, x := range list {
			s.Add(x)
		}
	}
	same := func(what string, s *set.Set[int], m map[int]bool) bool {
		l := s.ToList()
		if len(l) != len(m) || s.Size() != len(m) {
			fail("%s: size %d and a list of %d, expected %d", what, s.Size(), len(l), len(m))
			return false
		}
		seen := map[int]bool{}
		for _, x := range l {
			if !m[x] || seen[x] {
				fail("%s: %d is listed twice or should not be there", what, x)
				return false
			}
			seen[x] = true
		}
		for x := 0; x < 3*n; x++ {
			if s.Includes(x) != m[x] {
				fail("%s: Includes(%d) = %v", what, x, !m[x])
				return false
			}
		}
		return true
	}
	if !same("built", s, m) {
		return
	}
	// two copies that go separate ways
	c := s.Copy()
	cm := util.CopyMap(m)
	for x := range cm {
		if rng.Intn(2) == 0 {
			if !c.Remove(x) || c.Remove(x) {
				fail("Remove(%d) of an element misreports", x)
				return
			}
			delete(cm, x)
		}
	}
	mod := 2 + rng.Intn(5)
	s.Filter(func(y int) bool { return y%mod != 0 })
	for x := range m {
		if x%mod == 0 {
			delete(m, x)
		}
	}
	if !same("filtered", s, m) || !same("copied and reduced", c, cm) {
		return
	}
	want := false
	for x := range m {
		want = want || cm[x]
	}
	if s.HasIntersection(c) != want || c.HasIntersection(s) != want {
		fail("HasIntersection is %v", !want)
	}
	// disjoint but for one last element
	odd, even := set.NewSet[int](), set.NewSet[int]()
	all := make([]int, 0, n)
	for x := 0; x < n; x++ {
		if x%2 == 0 {
			even.Add(x)
			all = append(all, x)
		} else {
			odd.Add(x)
		}
	}
	if odd.HasIntersection(even) || even.HasIntersection(odd) || odd.IncludesAny(all...) {
		fail("odd and even numbers are said to intersect")
	}
	x := all[rng.Intn(len(all))]
	odd.Add(x)
	if !odd.HasIntersection(even) || !even.HasIntersection(odd) || !odd.IncludesAny(all...) {
		fail("two sets that share %d alone are said to be disjoint", x)
	}
	rep.Max("set_size", int64(len(m)))
	rep.Eval(fmt.Sprint("bulks", i%3, n/4096))
}

// bulkMap stores thousands of entries, and reads them back in another order and, from disk, in another instance.
func bulkMap(dir string) func(i int, id string) {
	return func(i int, id string) {
		rng := vlib.Rng("bm", i)
		disk := i%2 == 0
		path := filepath.Join(dir, fmt.Sprintf("big%d", i))
		n := 3000 + rng.Intn(6000)
		if !disk {
			n *= 5
		}
		open := func() aMap { return syncmap.NewSyncMap[vkey, vval]() }
		if disk {
			defer os.RemoveAll(path)
			open = func() aMap { return disksyncmap.NewDiskSyncMap[vkey, vval](path, parseVal) }
		}
		key := func(j int) vkey { return vkey(fmt.Sprintf("k%07d", j*7919%10000019)) }
		m := open()
		val := map[int]int{}
		check := func(what string, m aMap) bool {
			for _, j := range rng.Perm(n + 20) {
				v, there := val[j]
				if m.Has(key(j)) != there {
					rep.Violate("bulk-map", id, fmt.Sprintf("%s: Has of entry %d of %d says %v", what, j, n, !there), nil)
					return false
				}
				if there {
					if got := mapOp(m, "get", string(key(j)), 0, 0); !got.ok || got.v != v {
						rep.Violate("bulk-map", id, fmt.Sprintf("%s: entry %d of %d holds %v, expected %d", what, j, n, got, v), nil)
						return false
					}
				}
			}
			return true
		}
		for _, j := range rng.Perm(n) {
			m.Store(key(j), mkval(j+1, 20))
			val[j] = j + 1
		}
		for k := 0; k < n/10; k++ { // stored again
			j := rng.Intn(n)
			val[j] = n + 1 + k
			m.Store(key(j), mkval(val[j], 20))
		}
		if !check("after the stores", m) || !check("read again", m) {
			return
		}
		if disk && (!check("another instance", open()) || !check("the first instance again", m)) {
			return
		}
		rep.Max("map_entries", int64(n))
		rep.Eval(fmt.Sprint("bulkm", disk, n/4096))
	}
}

// bulkUtil runs the slice and map helpers over long arguments.
func bulkUtil(i int, id string) {
	rng := vlib.Rng("bu", i)
	n := 100 + rng.Intn(20000)
	fail := func(name string) {
		rep.Violate("bulk-util", id, fmt.Sprintf("%s of %d elements is wrong", name, n), nil)
	}
	l := rng.Perm(n)
	in := append([]int{}, l...)
	rev := util.Reverse(l)
	cp := util.CopyList(l)
	pre := util.Prepend(l, -1)
	okRev := len(rev) == n
	for j := 0; okRev && j < n; j++ {
		okRev = rev[j] == in[n-1-j]
	}
	if !okRev {
		fail("Reverse")
	}
	if !eqInts(cp, in) {
		fail("CopyList")
	}
	if !eqInts(pre, append([]int{-1}, in...)) {
		fail("Prepend")
	}
	if !eqInts(l, in) {
		fail("the argument of a helper")
	}
	lists, flat := [][]int{}, []int{}
	for k := 0; k < n; {
		e := min(n, k+rng.Intn(9))
		lists = append(lists, in[k:e])
		flat = append(flat, in[k:e]...)
		k = e
		if e == n {
			break
		}
	}
	if !eqInts(util.FlattenLists(lists), flat) {
		fail("FlattenLists")
	}
	m := map[int]int{}
	for j, x := range in {
		m[x*3] = j
	}
	keys := util.MapKeys(m)
	sort.Ints(keys)
	ok := len(keys) == n
	for j := 0; ok && j < n; j++ {
		ok = keys[j] == 3*j
	}
	if !ok {
		fail("MapKeys")
	}
	c := util.CopyMap(m)
	ok = len(c) == n
	for x, j := range m {
		ok = ok && c[x] == j
	}
	if !ok {
		fail("CopyMap")
	}
	rep.Eval(fmt.Sprint("bulku", n/2048))
}
