//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/pkg/disksyncmap"
	"github.com/levilutz/basiccoin/pkg/queue"
	"github.com/levilutz/basiccoin/pkg/set"
	"github.com/levilutz/basiccoin/pkg/syncmap"
	"github.com/levilutz/basiccoin/pkg/syncqueue"
	"github.com/levilutz/basiccoin/pkg/util"
)

// ---- recorded histories ----

type cop struct {
	op  string
	key string
	arg []int // pushed values, or {value} of a store
}

type cres struct {
	v  int
	ok bool
}

type recorder struct {
	mu    sync.Mutex
	ops   []porcupine.Operation
	epoch time.Time
}

func (r *recorder) now() int64 { return int64(time.Since(r.epoch)) }

// do runs one operation and returns its record.
func do(r *recorder, client int, in cop, f func() cres) porcupine.Operation {
	c := r.now()
	out := f()
	return porcupine.Operation{ClientId: client, Input: in, Call: c, Output: out, Return: r.now()}
}

func (r *recorder) add(ops []porcupine.Operation) {
	r.mu.Lock()
	r.ops = append(r.ops, ops...)
	r.mu.Unlock()
}

func describe(ops []porcupine.Operation) []string {
	s := append([]porcupine.Operation{}, ops...)
	sort.Slice(s, func(i, j int) bool { return s[i].Call < s[j].Call })
	out := []string{}
	for _, o := range s {
		out = append(out, fmt.Sprintf("thread %d [%d..%d] %+v -> %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output))
	}
	return out
}

// overlap counts pairs of operations of different threads that ran at the same time.
func overlap(ops []porcupine.Operation) int {
	n := 0
	for i := range ops {
		for j := i + 1; j < len(ops); j++ {
			if ops[i].ClientId != ops[j].ClientId && ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
				n++
			}
		}
	}
	return n
}

// order is the schedule actually observed: the threads' operations by call time, and their outcomes.
func order(ops []porcupine.Operation) string {
	s := append([]porcupine.Operation{}, ops...)
	sort.Slice(s, func(i, j int) bool { return s[i].Return < s[j].Return })
	var b strings.Builder
	for _, o := range s {
		in := o.Input.(cop)
		fmt.Fprintf(&b, "%d%s%v%v;", o.ClientId, in.op, in.key, o.Output.(cres).ok)
	}
	return b.String()
}

// ---- the models ----

type qstate struct {
	items  string // comma separated values
	closed bool
}

func qsplit(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func qmodel(initial []int) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return qstate{items: joinInts(initial)} },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			s, in, out := state.(qstate), input.(cop), output.(cres)
			it := qsplit(s.items)
			switch in.op {
			case "push":
				if !s.closed {
					s.items = strings.Join(append(it, qsplit(joinInts(in.arg))...), ",")
				}
				return true, s
			case "pop", "peek":
				if s.closed || len(it) == 0 {
					return !out.ok && out.v == 0, s
				}
				if !out.ok || fmt.Sprint(out.v) != it[0] {
					return false, s
				}
				if in.op == "pop" {
					s.items = strings.Join(it[1:], ",")
				}
				return true, s
			case "size":
				n := len(it)
				if s.closed {
					n = 0
				}
				return out.v == n, s
			case "close":
				s.closed = true
				s.items = ""
				return true, s
			case "closed":
				return out.ok == s.closed, s
			}
			return false, s
		},
	}
}

func joinInts(v []int) string {
	p := make([]string, len(v))
	for i, x := range v {
		p[i] = fmt.Sprint(x)
	}
	return strings.Join(p, ",")
}

// one register per key; 0 = absent
var regModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(cop).key
			m[k] = append(m[k], o)
		}
		out := [][]porcupine.Operation{}
		for _, k := range vlib.SortedKeys(m) {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() interface{} { return 0 },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		v, in, out := state.(int), input.(cop), output.(cres)
		switch in.op {
		case "store":
			return true, in.arg[0]
		case "has":
			return out.ok == (v != 0), v
		case "get":
			if v == 0 {
				return !out.ok, v
			}
			return out.ok && out.v == v, v
		}
		return false, v
	},
}

// runThreads starts every thread at once.
func runThreads(threads []func()) {
	var ready int32
	var wg sync.WaitGroup
	for _, f := range threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < int32(len(threads)) {
				runtime.Gosched()
			}
			f()
		}()
	}
	wg.Wait()
}

func judge(what string, m porcupine.Model, r *recorder, id string) {
	res := porcupine.CheckOperationsTimeout(m, r.ops, 10*time.Second)
	rep.Count("operations_recorded", int64(len(r.ops)))
	rep.Count("histories", 1)
	ov := overlap(r.ops)
	rep.Count("overlapping_pairs", int64(ov))
	rep.Seen("histories", what+order(r.ops))
	sig := ""
	if ov > 0 {
		sig = what + order(r.ops)
	}
	rep.Eval(sig)
	switch res {
	case porcupine.Illegal:
		rep.Violate(what+"-not-linearizable", id, "no order of the "+what+" operations consistent with real time explains what they returned", describe(r.ops))
	case porcupine.Unknown:
		rep.Inconclusive("%s %s: the linearizability check ran out of time", what, id)
	}
	if len(r.ops) < 14 {
		rep.Sample(map[string]any{"container": what, "history": describe(r.ops)})
	}
}

func queueHistory(i int, id string) {
	rng := vlib.Rng("qh", i)
	r := &recorder{epoch: time.Now()}
	next := int64(100)
	initial := []int{}
	for k := rng.Intn(4); k > 0; k-- {
		initial = append(initial, k)
	}
	q := syncqueue.NewSyncQueue[int](initial...)
	nt := 2 + rng.Intn(3)
	perThread := 4 + rng.Intn(4)
	withClose := rng.Intn(3) == 0
	flavour := rng.Intn(4)
	threads := []func(){}
	for t := 0; t < nt; t++ {
		seed := rng.Int63()
		threads = append(threads, func() {
			tr := rand.New(rand.NewSource(seed))
			ops := []porcupine.Operation{}
			for k := 0; k < perThread; k++ {
				c := tr.Intn(100)
				switch flavour {
				case 1: // mostly pops
					c = c/2 + 40
				case 2: // producers and consumers
					if t%2 == 0 {
						c = c * 40 / 100
					} else {
						c = 40 + c*45/100
					}
				}
				switch {
				case c < 40:
					vals := []int{}
					for n := tr.Intn(4); n >= 0; n-- {
						vals = append(vals, int(atomic.AddInt64(&next, 1)))
					}
					if tr.Intn(12) == 0 {
						vals = nil
					}
					in := cop{op: "push", arg: append([]int{}, vals...)}
					ops = append(ops, do(r, t, in, func() cres {
						q.Push(vals...)
						return cres{}
					}))
					for j := range vals { // the caller still owns what it passed
						vals[j] = -7
					}
				case c < 70:
					ops = append(ops, do(r, t, cop{op: "pop"}, func() cres { v, ok := q.Pop(); return cres{v, ok} }))
				case c < 80:
					ops = append(ops, do(r, t, cop{op: "peek"}, func() cres { v, ok := q.Peek(); return cres{v, ok} }))
				case c < 92:
					ops = append(ops, do(r, t, cop{op: "size"}, func() cres { return cres{v: q.Size()} }))
				case c < 96 && withClose:
					ops = append(ops, do(r, t, cop{op: "close"}, func() cres { q.Close(); return cres{} }))
				default:
					ops = append(ops, do(r, t, cop{op: "closed"}, func() cres { return cres{ok: q.Closed()} }))
				}
				if tr.Intn(3) == 0 {
					runtime.Gosched()
				}
			}
			r.add(ops)
		})
	}
	runThreads(threads)
	// drain what is left, so the final content is part of the history
	ops := []porcupine.Operation{do(r, nt, cop{op: "closed"}, func() cres { return cres{ok: q.Closed()} })}
	for k := 0; k < nt*perThread*4+8; k++ {
		o := do(r, nt, cop{op: "pop"}, func() cres { v, ok := q.Pop(); return cres{v, ok} })
		ops = append(ops, o)
		if !o.Output.(cres).ok {
			break
		}
	}
	r.add(ops)
	judge("SyncQueue", qmodel(initial), r, id)
}

// queueStress checks a long run offline: everything pushed comes out once, each producer's items in order.
func queueStress(i int, id string) {
	rng := vlib.Rng("qs", i)
	q := syncqueue.NewSyncQueue[[2]int]()
	np, nc := 1+rng.Intn(4), 1+rng.Intn(4)
	per := vlib.N(2000, 30000)
	var produced, left int64
	left = int64(np)
	got := make([][][2]int, nc)
	threads := []func(){}
	for p := 0; p < np; p++ {
		seed := rng.Int63()
		threads = append(threads, func() {
			tr := rand.New(rand.NewSource(seed))
			for k := 0; k < per; {
				batch := [][2]int{}
				for n := tr.Intn(4); n >= 0 && k < per; n-- {
					batch = append(batch, [2]int{p, k})
					k++
				}
				q.Push(batch...)
				atomic.AddInt64(&produced, int64(len(batch)))
				if tr.Intn(50) == 0 {
					runtime.Gosched()
				}
			}
			atomic.AddInt64(&left, -1)
		})
	}
	bad := make([]string, nc)
	for c := 0; c < nc; c++ {
		threads = append(threads, func() {
			for {
				done := atomic.LoadInt64(&left) == 0
				if n := q.Size(); n < 0 || n > np*per {
					bad[c] = fmt.Sprintf("impossible size %d", n)
				}
				v, ok := q.Pop()
				if !ok {
					if done {
						return
					}
					runtime.Gosched()
					continue
				}
				got[c] = append(got[c], v)
			}
		})
	}
	runThreads(threads)
	seen := map[[2]int]int{}
	for c := range got {
		if bad[c] != "" {
			rep.Violate("queue-stress", id, bad[c], nil)
		}
		last := map[int]int{}
		for _, v := range got[c] {
			seen[v]++
			if l, ok := last[v[0]]; ok && l >= v[1] {
				rep.Violate("queue-stress", id, fmt.Sprintf("a consumer got item %d of producer %d after item %d", v[1], v[0], l), nil)
				return
			}
			last[v[0]] = v[1]
		}
	}
	for v, n := range seen {
		if n != 1 {
			rep.Violate("queue-stress", id, fmt.Sprintf("item %v came out %d times", v, n), nil)
			return
		}
	}
	if len(seen) != np*per {
		rep.Violate("queue-stress", id, fmt.Sprintf("%d items went in and %d came out", np*per, len(seen)), nil)
	}
	rep.Count("stress_items", int64(np*per))
	rep.Eval(fmt.Sprint("stress", np, nc))
}

// ---- maps ----

type vkey string

func (k vkey) String() string { return string(k) }

type vval string

func (v vval) String() string { return string(v) }

// mkval renders number n as a text of the given length that says where it ends.
func mkval(n, size int) vval {
	return vval(fmt.Sprintf("%d|%s|end", n, strings.Repeat("x", size)))
}

// A text cut short still parses (as records of this repository can), to a value that no caller stored.
func parseVal(raw string) (vval, error) {
	return vval(raw), nil
}

func valNum(v vval) int {
	n := 0
	if _, err := fmt.Sscanf(string(v), "%d|", &n); err != nil || !strings.HasSuffix(string(v), "|end") || n <= 0 {
		return -1
	}
	return n
}

type aMap interface {
	Has(vkey) bool
	Get(vkey) vval
	Store(vkey, vval)
}

func mapOp(m aMap, op, key string, n, size int) cres {
	switch op {
	case "store":
		m.Store(vkey(key), mkval(n, size))
		return cres{}
	case "has":
		return cres{ok: m.Has(vkey(key))}
	}
	return func() (out cres) {
		defer func() {
			if recover() != nil {
				out = cres{} // documented: panics when the key is unknown
			}
		}()
		v := m.Get(vkey(key))
		return cres{v: valNum(v), ok: true}
	}()
}

func mapHistory(disk bool, dir string) func(i int, id string) {
	return func(i int, id string) {
		rng := vlib.Rng("mh", disk, i)
		r := &recorder{epoch: time.Now()}
		what := "SyncMap"
		var m aMap
		path := filepath.Join(dir, fmt.Sprintf("m%d", i))
		reopen := func() aMap {
			return disksyncmap.NewDiskSyncMap[vkey, vval](path, parseVal)
		}
		var next int64
		keys := []string{"a", "b", "c0ffee"}[:1+rng.Intn(3)]
		size := []int{0, 3, 300, 20000, 200000}[rng.Intn(5)]
		sizeOf := func(n int) int {
			if n%2 == 0 {
				return size
			}
			return size / 2
		}
		if disk {
			what = "DiskSyncMap"
			defer os.RemoveAll(path)
			m = reopen()
			// entries of an earlier run, on disk only
			if rng.Intn(2) == 0 {
				ops := []porcupine.Operation{}
				for _, k := range keys {
					if rng.Intn(3) > 0 {
						n := int(atomic.AddInt64(&next, 1))
						ops = append(ops, do(r, 9, cop{op: "store", key: k, arg: []int{n}}, func() cres { return mapOp(m, "store", k, n, sizeOf(n)) }))
					}
				}
				r.add(ops)
				m = reopen()
			}
		} else {
			m = syncmap.NewSyncMap[vkey, vval]()
		}
		nt := 2 + rng.Intn(4)
		perThread := 4 + rng.Intn(5)
		single := rng.Intn(3) == 0 // only one thread stores
		threads := []func(){}
		for t := 0; t < nt; t++ {
			seed := rng.Int63()
			threads = append(threads, func() {
				tr := rand.New(rand.NewSource(seed))
				ops := []porcupine.Operation{}
				for k := 0; k < perThread; k++ {
					key := keys[tr.Intn(len(keys))]
					op := []string{"store", "has", "get", "get"}[tr.Intn(4)]
					if single && t > 0 && op == "store" {
						op = "has"
					}
					n := 0
					in := cop{op: op, key: key}
					if op == "store" {
						n = int(atomic.AddInt64(&next, 1))
						in.arg = []int{n}
					}
					ops = append(ops, do(r, t, in, func() cres { return mapOp(m, op, key, n, sizeOf(n)) }))
					if tr.Intn(4) == 0 {
						runtime.Gosched()
					}
				}
				r.add(ops)
			})
		}
		runThreads(threads)
		final := func(client int) {
			ops := []porcupine.Operation{}
			for _, k := range keys {
				for _, op := range []string{"has", "get"} {
					ops = append(ops, do(r, client, cop{op: op, key: k}, func() cres { return mapOp(m, op, k, 0, 0) }))
				}
			}
			r.add(ops)
		}
		final(nt)
		if disk {
			m = reopen()
			rep.Count("reopens", 1)
			final(nt + 1)
		}
		judge(what, regModel, r, id)
	}
}

// diskHammer: several threads look up entries that are only on disk, or just being written, many times.
func diskHammer(dir string) func(i int, id string) {
	return func(i int, id string) {
		rng := vlib.Rng("dh", i)
		path := filepath.Join(dir, fmt.Sprintf("h%d", i))
		defer os.RemoveAll(path)
		m := disksyncmap.NewDiskSyncMap[vkey, vval](path, parseVal)
		n := 60
		size := []int{10, 5000, 100000}[rng.Intn(3)]
		var stored [60]int32
		bad := make(chan string, 16)
		threads := []func(){func() {
			for k := 0; k < n; k++ {
				m.Store(vkey(fmt.Sprint(k)), mkval(k+1, size))
				atomic.StoreInt32(&stored[k], 1)
			}
		}}
		for t := 0; t < 4; t++ {
			threads = append(threads, func() {
				for k := 0; k < n; k++ {
					key := vkey(fmt.Sprint(k))
					for {
						was := atomic.LoadInt32(&stored[k]) == 1
						if m.Has(key) {
							if got := valNum(m.Get(key)); got != k+1 {
								select {
								case bad <- fmt.Sprintf("entry %d reads back as %d", k, got):
								default:
								}
							}
							break
						}
						if was {
							select {
							case bad <- fmt.Sprintf("entry %d was stored and is not there", k):
							default:
							}
							break
						}
					}
				}
			})
		}
		runThreads(threads)
		m2 := disksyncmap.NewDiskSyncMap[vkey, vval](path, parseVal)
		for _, mm := range []aMap{m, m2} {
			for k := 0; k < n; k++ {
				key := vkey(fmt.Sprint(k))
				if !mm.Has(key) {
					rep.Violate("disk-map-lost", id, fmt.Sprintf("entry %d is gone", k), nil)
				} else if got := valNum(mm.Get(key)); got != k+1 {
					rep.Violate("disk-map-lost", id, fmt.Sprintf("entry %d reads back as %d at the end", k, got), nil)
				}
			}
		}
		select {
		case s := <-bad:
			rep.Violate("disk-map-wrong", id, s, nil)
		default:
		}
		rep.Count("hammer_entries", int64(n))
		rep.Eval(fmt.Sprint("hammer", size))
	}
}

// ---- plain containers ----

// owned is a caller's slice with spare capacity, watched for changes over its whole capacity.
func owned(rng *rand.Rand, n int, next *int) (s []int, check func() bool, scribble func()) {
	back := make([]int, n+rng.Intn(5))
	for i := range back {
		back[i] = -1000 - i
	}
	s = back[:n]
	for i := range s {
		*next++
		s[i] = *next
	}
	snap := append([]int{}, back...)
	return s, func() bool { return reflect.DeepEqual(back, snap) }, func() {
		for i := range back {
			back[i] = -5
			snap[i] = -5
		}
	}
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func plainQueue(i int, id string) {
	rng := vlib.Rng("pq", i)
	next := 0
	s, ok0, scrib := owned(rng, rng.Intn(5), &next)
	model := append([]int{}, s...)
	sync_ := rng.Intn(2) == 0
	type qi interface {
		Push(...int)
		Pop() (int, bool)
		Peek() (int, bool)
		Size() int
	}
	var q qi
	if sync_ {
		q = syncqueue.NewSyncQueue(s...)
	} else {
		q = queue.NewQueue(s...)
	}
	watch := []func() bool{ok0}
	trace := []string{fmt.Sprintf("new(sync=%v) %v cap %d", sync_, model, cap(s))}
	if rng.Intn(2) == 0 {
		scrib()
	}
	fail := func(f string, a ...any) {
		rep.Violate("plain-queue", id, fmt.Sprintf(f, a...), trace)
	}
	for k := 0; k < 60; k++ {
		switch rng.Intn(5) {
		case 0, 1:
			v, ok, sc := owned(rng, rng.Intn(4), &next)
			trace = append(trace, fmt.Sprintf("push %v", v))
			model = append(model, v...)
			q.Push(v...)
			watch = append(watch, ok)
			if rng.Intn(2) == 0 {
				sc()
			}
		case 2:
			v, ok := q.Pop()
			trace = append(trace, fmt.Sprintf("pop -> %v %v", v, ok))
			if len(model) == 0 {
				if ok || v != 0 {
					fail("pop of an empty queue gave %v %v", v, ok)
					return
				}
			} else {
				if !ok || v != model[0] {
					fail("pop gave %v %v, expected %v", v, ok, model[0])
					return
				}
				model = model[1:]
			}
		case 3:
			v, ok := q.Peek()
			if ok != (len(model) > 0) || (ok && v != model[0]) {
				fail("peek gave %v %v, the queue should hold %v", v, ok, model)
				return
			}
		case 4:
			if q.Size() != len(model) {
				fail("size %d, expected %d", q.Size(), len(model))
				return
			}
		}
		for _, w := range watch {
			if !w() {
				fail("a slice the caller still owns was changed by the queue")
				return
			}
		}
	}
	for len(model) > 0 {
		v, ok := q.Pop()
		if !ok || v != model[0] {
			fail("draining gave %v %v, expected %v", v, ok, model[0])
			return
		}
		model = model[1:]
	}
	if _, ok := q.Pop(); ok {
		fail("something is left in a drained queue")
	}
	rep.Eval(fmt.Sprint("queue", sync_, len(trace)/8))
}

func plainSet(i int, id string) {
	rng := vlib.Rng("ps", i)
	next := 0
	trace := []string{}
	fail := func(f string, a ...any) { rep.Violate("plain-set", id, fmt.Sprintf(f, a...), trace) }
	type pair struct {
		s *set.Set[int]
		m map[int]bool
	}
	mk := func() pair {
		switch rng.Intn(2) {
		case 0:
			return pair{set.NewSet[int](), map[int]bool{}}
		}
		n := rng.Intn(6)
		l, ok, sc := owned(rng, n, &next)
		for j := range l {
			l[j] = rng.Intn(8)
		}
		m := map[int]bool{}
		for _, x := range l {
			m[x] = true
		}
		cp := append([]int{}, l...)
		p := pair{set.NewSetFromList(l), m}
		if !eqInts(l, cp) {
			fail("NewSetFromList changed its list")
		}
		_ = ok
		sc()
		return p
	}
	sets := []pair{mk(), mk(), mk()}
	same := func(p pair) bool {
		l := p.s.ToList()
		if len(l) != len(p.m) || p.s.Size() != len(p.m) {
			return false
		}
		seen := map[int]bool{}
		for _, x := range l {
			if !p.m[x] || seen[x] {
				return false
			}
			seen[x] = true
		}
		if rng.Intn(3) == 0 {
			for j := range l { // the list is the caller's
				l[j] = 99
			}
		}
		return true
	}
	for k := 0; k < 50; k++ {
		a := rng.Intn(len(sets))
		p := sets[a]
		x := rng.Intn(8)
		switch rng.Intn(9) {
		case 0:
			trace = append(trace, fmt.Sprintf("s%d.Add(%d)", a, x))
			p.s.Add(x)
			p.m[x] = true
		case 1:
			l := []int{}
			for n := rng.Intn(5); n > 0; n-- {
				l = append(l, rng.Intn(8))
			}
			trace = append(trace, fmt.Sprintf("s%d.Add(%v)", a, l))
			p.s.Add(l...)
			for _, y := range l {
				p.m[y] = true
			}
		case 2:
			got := p.s.Remove(x)
			trace = append(trace, fmt.Sprintf("s%d.Remove(%d) -> %v", a, x, got))
			if got != p.m[x] {
				fail("Remove reports %v for an element that was%s there", got, map[bool]string{true: "", false: " not"}[p.m[x]])
				return
			}
			delete(p.m, x)
		case 3:
			if p.s.Includes(x) != p.m[x] {
				fail("Includes(%d) = %v", x, p.s.Includes(x))
				return
			}
		case 4:
			l := []int{}
			want := false
			for n := rng.Intn(4); n > 0; n-- {
				y := rng.Intn(10)
				l = append(l, y)
				want = want || p.m[y]
			}
			if p.s.IncludesAny(l...) != want {
				fail("IncludesAny(%v) = %v over %v", l, !want, p.m)
				return
			}
		case 5:
			b := rng.Intn(len(sets))
			c := pair{p.s.Copy(), map[int]bool{}}
			for y := range p.m {
				c.m[y] = true
			}
			trace = append(trace, fmt.Sprintf("s%d = s%d.Copy()", b, a))
			sets[b] = c
		case 6:
			mod := 2 + rng.Intn(3)
			trace = append(trace, fmt.Sprintf("s%d.Filter(not multiple of %d)", a, mod))
			p.s.Filter(func(y int) bool { return y%mod != 0 })
			for y := range p.m {
				if y%mod == 0 {
					delete(p.m, y)
				}
			}
		case 7:
			b := rng.Intn(len(sets))
			want := false
			for y := range p.m {
				want = want || sets[b].m[y]
			}
			if p.s.HasIntersection(sets[b].s) != want {
				fail("HasIntersection = %v for %v and %v", !want, p.m, sets[b].m)
				return
			}
		case 8:
			sets[a] = mk()
			trace = append(trace, fmt.Sprintf("s%d = new %v", a, sets[a].m))
		}
		for j, q := range sets {
			if !same(q) {
				fail("set s%d holds %v, expected %v", j, q.s.ToList(), q.m)
				return
			}
		}
	}
	rep.Eval(fmt.Sprint("set", len(trace)/4))
}

func plainUtil(i int, id string) {
	rng := vlib.Rng("pu", i)
	next := 0
	fail := func(f string, a ...any) { rep.Violate("plain-util", id, fmt.Sprintf(f, a...), nil) }
	n := rng.Intn(7)
	l, ok, sc := owned(rng, n, &next)
	in := append([]int{}, l...)
	// each helper's result must be right, leave its argument alone, and not change when the argument later does
	hold := func(name string, got, want []int) func() {
		g := got
		if !eqInts(g, want) {
			fail("%s of %v gave %v, expected %v", name, in, g, want)
		}
		if !ok() {
			fail("%s changed its argument (or memory after it)", name)
		}
		rep.Eval(fmt.Sprint(name, n))
		return func() {
			if !eqInts(g, want) {
				fail("the result of %s shares memory with its argument", name)
			}
			// and the other way round
		}
	}
	later := []func(){}
	rev := make([]int, n)
	for j, x := range in {
		rev[n-1-j] = x
	}
	r1 := util.Reverse(l)
	later = append(later, hold("Reverse", r1, rev))
	r2 := util.CopyList(l)
	later = append(later, hold("CopyList", r2, in))
	item := 77777
	r3 := util.Prepend(l, item)
	later = append(later, hold("Prepend", r3, append([]int{item}, in...)))
	r3b := util.Prepend(l)
	later = append(later, hold("Prepend(nothing)", r3b, in))
	if n > 0 {
		// two results of one argument are independent
		a, b := util.Prepend(l, 1), util.Prepend(l, 2)
		if a[0] != 1 || b[0] != 2 {
			fail("two results of Prepend share memory")
		}
		a = append(a, 5)
		a[n] = 6
		if b[n] != in[n-1] || !ok() {
			fail("two results of Prepend share memory")
		}
	}
	lists := [][]int{}
	flat := []int{}
	watch := []func() bool{}
	scs := []func(){}
	for k := rng.Intn(5); k > 0; k-- {
		x, w, s := owned(rng, rng.Intn(4), &next)
		lists = append(lists, x)
		flat = append(flat, x...)
		watch = append(watch, w)
		scs = append(scs, s)
	}
	r4 := util.FlattenLists(lists)
	if !eqInts(r4, flat) {
		fail("FlattenLists of %v gave %v", lists, r4)
	}
	r4 = append(r4, 1, 2, 3)[:len(r4)]
	for _, w := range watch {
		if !w() {
			fail("FlattenLists, or using its result, changed its argument")
		}
	}
	for _, s := range scs {
		s()
	}
	if !eqInts(r4, flat) {
		fail("the result of FlattenLists shares memory with its argument")
	}
	rep.Eval(fmt.Sprint("flatten", len(lists), len(flat) > 0))
	// results changed in place leave the argument alone
	for _, r := range [][]int{r1, r2, r3, r3b} {
		cp := append([]int{}, r...)
		for j := range r {
			r[j] = -3
		}
		if !ok() {
			fail("changing a result changed the argument")
		}
		copy(r, cp)
	}
	sc()
	for _, f := range later {
		f()
	}

	m := map[int]string{}
	for k := rng.Intn(8); k > 0; k-- {
		m[rng.Intn(30)] = fmt.Sprint("v", rng.Intn(9))
	}
	keys := util.MapKeys(m)
	sort.Ints(keys)
	want := []int{}
	for k := range m {
		want = append(want, k)
	}
	sort.Ints(want)
	if !eqInts(keys, want) {
		fail("MapKeys of %v gave %v", m, keys)
	}
	snap := map[int]string{}
	for k, v := range m {
		snap[k] = v
	}
	c := util.CopyMap(m)
	if c == nil || len(c) != len(snap) || (len(snap) > 0 && !reflect.DeepEqual(c, snap)) {
		fail("CopyMap of %v gave %v", m, c)
	}
	c[1000] = "new"
	if _, there := m[1000]; there || len(m) != len(snap) {
		fail("CopyMap shares its argument")
	}
	m[2000] = "new"
	if _, there := c[2000]; there {
		fail("CopyMap shares its argument")
	}
	rep.Eval(fmt.Sprint("maps", len(snap)))
}

func channels(i int, id string) {
	rng := vlib.Rng("ch", i)
	// never blocks, never panics; the value arrives when somebody reads, and the channel is closed after it
	type outcome struct {
		v  int
		ok bool
	}
	kind := rng.Intn(4)
	ch := make(chan int, []int{0, 1, 0, 1}[kind])
	if kind == 2 {
		close(ch)
	}
	ret := make(chan struct{})
	go func() {
		util.WriteChIfPossible(ch, 41+i)
		close(ret)
	}()
	select {
	case <-ret:
	case <-time.After(20 * time.Second):
		rep.Violate("write-blocks", id, "WriteChIfPossible blocks its caller", nil)
		return
	}
	if kind == 3 {
		rep.Eval("write-unread")
		return // nobody reads
	}
	if rng.Intn(2) == 0 {
		time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
	}
	for k := 0; k < 2; k++ {
		var o outcome
		select {
		case o.v, o.ok = <-ch:
		case <-time.After(20 * time.Second):
			rep.Violate("write-lost", id, "a value written with WriteChIfPossible never arrives, or its channel is not closed", nil)
			return
		}
		wantOk := k == 0 && kind != 2
		if o.ok != wantOk || (wantOk && o.v != 41+i) {
			rep.Violate("write-wrong", id, fmt.Sprintf("reading gave %+v", o), nil)
		}
	}
	rep.Eval(fmt.Sprint("write", kind))
}

func containers() {
	dir := filepath.Join(vlib.Work, "maps")
	os.MkdirAll(dir, 0755)
	rep.Parallel("queue", vlib.N(3000, 60000), 3, queueHistory)
	rep.Parallel("map", vlib.N(1500, 30000), 3, mapHistory(false, dir))
	rep.Parallel("diskmap", vlib.N(2500, 40000), 3, mapHistory(true, dir))
	rep.Parallel("hammer", vlib.N(40, 600), 2, diskHammer(dir))
	rep.Parallel("stress", vlib.N(16, 100), 2, queueStress)
	rep.Parallel("pq", vlib.N(2000, 60000), 8, plainQueue)
	rep.Parallel("set", vlib.N(2000, 60000), 8, plainSet)
	rep.Parallel("util", vlib.N(2000, 60000), 8, plainUtil)
	rep.Parallel("chan", vlib.N(200, 2000), 8, channels)
	rep.Parallel("bulkqueue", vlib.N(40, 600), 8, bulkQueue)
	rep.Parallel("bulkset", vlib.N(24, 300), 8, bulkSet)
	rep.Parallel("bulkmap", vlib.N(8, 80), 4, bulkMap(dir))
	rep.Parallel("bulkutil", vlib.N(60, 1000), 8, bulkUtil)
}
