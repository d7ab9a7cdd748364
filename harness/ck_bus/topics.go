//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/pkg/topic"
)

const watchdog = 120 * time.Second

type msg struct{ Pub, Seq int }

// pubLog records, per publisher, when each message's Pub call started and returned.
type pubLog struct {
	mu   sync.Mutex
	call []int64
	ret  []int64
}

type received struct {
	mu   sync.Mutex
	msgs []msg
}

// subLog is one subscription's life as seen by its owner.
type subLog struct {
	name                string
	ch                  bool
	subCall, subRet     int64
	closeCall, closeRet int64 // 0 while open
	got                 []msg
	afterClose          int
	drained             bool
	markCall            int64
}

var clock0 = time.Now()

func tick() int64 { return int64(time.Since(clock0)) }

type lab struct {
	id   string
	t    *topic.Topic[msg]
	pubs []*pubLog
	mu   sync.Mutex
	subs []*subLog

	markMu sync.Mutex
	huge   int // size of the largest batches
}

func (l *lab) publish(p int, r *rand.Rand, n int, pace func()) {
	lg := l.pubs[p]
	for k := 0; k < n; {
		m := 1
		if r.Intn(3) == 0 {
			m = 1 + r.Intn(4)
		}
		if l.huge > 0 && r.Intn(4) == 0 {
			m = 1 + r.Intn(l.huge)
		}
		var batch []msg
		lg.mu.Lock()
		for j := 0; j < m; j++ {
			batch = append(batch, msg{p, len(lg.call) + j})
		}
		c := tick()
		for j := 0; j < m; j++ {
			lg.call = append(lg.call, c)
			lg.ret = append(lg.ret, 0)
		}
		first := len(lg.call) - m
		lg.mu.Unlock()
		l.t.Pub(batch...)
		e := tick()
		lg.mu.Lock()
		for j := 0; j < m; j++ {
			lg.ret[first+j] = e
		}
		lg.mu.Unlock()
		for j := range batch {
			batch[j] = msg{-1, -1} // the caller may reuse its slice
		}
		k += m
		rep.Count("published", int64(m))
		pace()
	}
}

// subscribe opens a subscription and reads it until stop says so; then drains (if asked) and closes.
func (l *lab) subscribe(name string, ch bool, r *rand.Rand, stop func(n int) bool, early bool) {
	s := &subLog{name: name, ch: ch}
	var q topic.Sub[msg]
	var c *topic.SubCh[msg]
	s.subCall = tick()
	if ch {
		c = l.t.SubCh()
	} else {
		q = l.t.Sub()
	}
	s.subRet = tick()
	read := func() bool {
		if ch {
			select {
			case m, ok := <-c.C:
				if !ok {
					return false
				}
				s.got = append(s.got, m)
				return true
			case <-time.After(time.Duration(r.Intn(3)) * time.Millisecond):
				return false
			}
		}
		if r.Intn(4) == 0 {
			pm, pok := q.Peek()
			n := q.Size()
			m, ok := q.Pop()
			if pok && (!ok || pm != m || n < 1) {
				rep.Violate("peek", l.id, fmt.Sprintf("Peek said %v,%v, Size %d, then Pop said %v,%v", pm, pok, n, m, ok), nil)
			}
			if ok {
				s.got = append(s.got, m)
			}
			return ok
		}
		m, ok := q.Pop()
		if ok {
			s.got = append(s.got, m)
		}
		return ok
	}
	for !stop(len(s.got)) {
		if !read() && !ch {
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			} else {
				runtime.Gosched()
			}
		}
	}
	if !early {
		// publish a marker and read up to it: everything published before it comes first
		s.markCall = tick()
		mk := l.mark()
		seen := false
		for _, m := range s.got {
			seen = seen || m == mk
		}
		end := time.Now().Add(watchdog)
		for !seen && time.Now().Before(end) {
			n := len(s.got)
			if read() {
				seen = s.got[n] == mk
			} else if !ch {
				time.Sleep(200 * time.Microsecond)
			}
		}
		if !seen {
			rep.Violate("marker", l.id, fmt.Sprintf("%s never received a message published while it was open and being read", s.name), nil)
		}
		s.drained = true
	}
	s.closeCall = tick()
	if ch {
		c.Close()
	} else {
		q.Close()
	}
	s.closeRet = tick()
	// nothing further after closing
	for k := 0; k < 3; k++ {
		if ch {
			select {
			case _, ok := <-c.C:
				if ok {
					s.afterClose++
				}
			default:
			}
		} else if _, ok := q.Pop(); ok {
			s.afterClose++
		} else if q.Size() != 0 {
			s.afterClose++
		}
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
	}
	l.mu.Lock()
	l.subs = append(l.subs, s)
	l.mu.Unlock()
}

// mark publishes one message of the marker publisher (the last one).
func (l *lab) mark() msg {
	l.markMu.Lock()
	defer l.markMu.Unlock()
	p := len(l.pubs) - 1
	l.publish(p, rand.New(rand.NewSource(3)), 1, func() {})
	lg := l.pubs[p]
	lg.mu.Lock()
	defer lg.mu.Unlock()
	return msg{p, len(lg.call) - 1}
}

// judge checks every finished subscription against the publishing log.
func (l *lab) judge() {
	for _, s := range l.subs {
		next := map[int]int{}
		first := map[int]int{}
		for _, m := range s.got {
			if m.Pub < 0 || m.Pub >= len(l.pubs) || m.Seq < 0 || m.Seq >= len(l.pubs[m.Pub].call) {
				rep.Violate("invented", l.id, fmt.Sprintf("%s received %v, which nobody published", s.name, m), nil)
				return
			}
			n, ok := next[m.Pub]
			if !ok {
				first[m.Pub] = m.Seq
			} else if m.Seq != n {
				rep.Violate("order", l.id, fmt.Sprintf("%s received message %d of publisher %d where %d was due (lost, doubled or out of order)", s.name, m.Seq, m.Pub, n), nil)
				return
			}
			next[m.Pub] = m.Seq + 1
			if r := l.pubs[m.Pub].ret[m.Seq]; r != 0 && r < s.subCall {
				rep.Violate("early", l.id, fmt.Sprintf("%s received message %d of publisher %d published before it subscribed", s.name, m.Seq, m.Pub), nil)
				return
			}
		}
		if s.afterClose > 0 {
			rep.Violate("after-close", l.id, fmt.Sprintf("%s delivered %d messages after it was closed", s.name, s.afterClose), nil)
		}
		for p, lg := range l.pubs {
			for q := range lg.call {
				if lg.call[q] > s.subRet { // published while open: must be there from here on (or from earlier)
					f, ok := first[p]
					must := s.drained && lg.ret[q] != 0 && lg.ret[q] < s.markCall
					if ok && f > q {
						rep.Violate("missed-first", l.id, fmt.Sprintf("%s missed message %d of publisher %d (its first was %d)", s.name, q, p, f), nil)
						return
					}
					if must && next[p] <= q {
						rep.Violate("missed", l.id, fmt.Sprintf("%s never received message %d of publisher %d, published while it was open", s.name, q, p), nil)
						return
					}
				}
			}
		}
		rep.Count("deliveries", int64(len(s.got)))
		rep.Eval(fmt.Sprintf("%v/%v/%d/%d", s.ch, s.drained, len(l.pubs), min(len(s.got), 64)/4))
	}
}

func (l *lab) finish(wg *sync.WaitGroup) bool {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		l.judge()
		return true
	case <-time.After(2 * watchdog):
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		rep.Violate("blocked", l.id, fmt.Sprintf("publishers or subscribers made no progress for %s", 2*watchdog), vlib.Trunc(string(buf), 8000))
		return false
	}
}

// short: many publishers and subscribers coming and going.
func short(i int, id string) {
	r := vlib.Rng(id)
	l := &lab{id: id, t: topic.NewTopic[msg]()}
	np, ns := 1+r.Intn(4), 1+r.Intn(6)
	for p := 0; p <= np; p++ {
		l.pubs = append(l.pubs, &pubLog{})
	}
	many := i%40 == 7 // many messages, piling up before anybody reads them
	if many {
		l.huge = 1 << (8 + r.Intn(9))
	}
	idle := l.t.SubCh() // a subscriber that never reads must not matter
	_ = l.t.Sub()
	var wg, pw sync.WaitGroup
	var published atomic.Bool
	start := make(chan struct{})
	for p := 0; p < np; p++ {
		p := p
		pr := vlib.Rng(id, "pub", p)
		wg.Add(1)
		pw.Add(1)
		n := 20 + r.Intn(150)
		if many {
			n = 5000 + r.Intn(8000)
		}
		go func() {
			defer wg.Done()
			defer pw.Done()
			<-start
			l.publish(p, pr, n, func() {
				switch pr.Intn(6) {
				case 0:
					time.Sleep(time.Duration(pr.Intn(200)) * time.Microsecond)
				case 1:
					runtime.Gosched()
				}
			})
		}()
	}
	go func() { pw.Wait(); published.Store(true) }()
	for k := 0; k < ns; k++ {
		sr := vlib.Rng(id, "sub", k)
		wg.Add(1)
		late, early := k > 0 && sr.Intn(2) == 0, sr.Intn(3) == 0
		k := k
		go func() {
			defer wg.Done()
			if late {
				<-start
				time.Sleep(time.Duration(sr.Intn(4000)) * time.Microsecond)
			}
			limit := 1 << 30
			if early {
				limit = sr.Intn(60)
			}
			begun := time.Now()
			l.subscribe(fmt.Sprintf("subscriber %d (channel %v, late %v, early %v)", k, k%2 == 0, late, early), k%2 == 0, sr,
				func(n int) bool {
					if many && !early && k%3 != 0 { // reads nothing before everything is published
						for !published.Load() {
							time.Sleep(time.Millisecond)
						}
					}
					return n >= limit || published.Load() || early && time.Since(begun) > 30*time.Millisecond
				},
				early)
		}()
	}
	time.Sleep(2 * time.Millisecond)
	close(start)
	if l.finish(&wg) {
		idle.Close()
	}
}

// long: one topic across several garbage collections (every 15 s), with subscriptions opened and closed between.
func long(i int, id string) {
	r := vlib.Rng(id)
	l := &lab{id: id, t: topic.NewTopic[msg](), pubs: []*pubLog{{}, {}, {}}}
	var wg sync.WaitGroup
	end := time.Now().Add(time.Duration(vlib.N(34, 125)) * time.Second)
	var over atomic.Bool
	for p := 0; p < 2; p++ {
		p := p
		pr := vlib.Rng(id, "pub", p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				l.publish(p, pr, 1, func() { time.Sleep(time.Duration(2+pr.Intn(8)) * time.Millisecond) })
			}
			over.Store(true)
		}()
	}
	// early subscriptions, most of which close before the first collection, others live through all
	open := func(name string, ch bool, life time.Duration, sr *rand.Rand) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			begun := time.Now()
			l.subscribe(name, ch, sr, func(n int) bool {
				if !ch {
					time.Sleep(time.Millisecond)
				}
				return over.Load() || life > 0 && time.Since(begun) > life
			}, life > 0 && sr.Intn(2) == 0)
		}()
	}
	n := 0
	for k := 0; k < 6; k++ {
		life := time.Duration(0)
		if k%2 == 0 {
			life = time.Duration(100+r.Intn(9000)) * time.Millisecond
		}
		open(fmt.Sprintf("long-lived %d", n), k%3 == 0, life, vlib.Rng(id, "s", n))
		n++
	}
	// readers who turn to other things for a while: nothing is dropped meanwhile
	for k := 0; k < 6; k++ {
		sr := vlib.Rng(id, "away", k)
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			l.subscribe(fmt.Sprintf("away %d", k), k%3 != 2, sr, func(n int) bool {
				switch {
				case k < 2 && n <= 1: // at once, for nearly the whole time
					time.Sleep(time.Until(end.Add(-time.Duration(1+sr.Intn(4)) * time.Second)))
				case k >= 2 && sr.Intn(300) == 0:
					rep.Count("absences", 1)
					time.Sleep(min(time.Duration(1000+sr.Intn(11000))*time.Millisecond, max(0, time.Until(end))))
				}
				return over.Load()
			}, false)
		}(k)
	}
	for time.Now().Before(end.Add(-3 * time.Second)) {
		time.Sleep(time.Duration(300+r.Intn(900)) * time.Millisecond)
		life := time.Duration(r.Intn(4000)) * time.Millisecond
		if r.Intn(4) == 0 {
			life = 0
		}
		open(fmt.Sprintf("later %d", n), r.Intn(2) == 0, life, vlib.Rng(id, "s", n))
		n++
	}
	rep.Count("collections_crossed", int64(vlib.N(2, 8)))
	l.finish(&wg)
}

func topics() {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); rep.Parallel("long", vlib.N(6, 12), 12, long) }()
	rep.Parallel("short", vlib.N(400, 6000), 6, short)
	wg.Wait()
}
