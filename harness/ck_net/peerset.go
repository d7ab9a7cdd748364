//go:build go1.22

package main

import (
	"fmt"
	"net"
	"reflect"
	"runtime/debug"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/internal/verifx/vwire"
)

// stepLimit bounds one reaction of the node in C23; it takes milliseconds, or a second where the node waits on purpose.
const stepLimit = 60 * time.Second

func peerSet() {
	// a connection must be closed by the node, not by the garbage collector happening to find it
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(6 << 30)
	rep.Parallel("set", vlib.N(48, 600), 14, func(i int, id string) { newNW(id).set() })
	rep.Parallel("crowd", vlib.N(4, 40), 4, func(i int, id string) { newNW(id).crowd() })
	rep.Parallel("storm", vlib.N(16, 200), 6, func(i int, id string) { newNW(id).storm() })
	rep.Parallel("silent", vlib.N(12, 100), 12, func(i int, id string) { newNW(id).silent() })
	rep.Parallel("dial", vlib.N(16, 200), 8, func(i int, id string) { newNW(id).dial() })
}

type sess struct {
	p    *vwire.Peer
	id   string
	addr string // last announced
}

type pset struct {
	*nw
	n      *vnode.NetNode
	m      int
	alive  map[string]*sess
	closed map[string]int // PeerClosing events seen per id
	known  []string       // ids of the past
	ended  map[string]int // sessions of ours that ended, per id
}

func (c *pset) order() []*sess {
	out := []*sess{}
	for _, k := range vlib.SortedKeys(c.alive) {
		out = append(out, c.alive[k])
	}
	return out
}

func (c *pset) expect() map[string]string {
	out := map[string]string{}
	for id, s := range c.alive {
		if s.addr != "" {
			out[id] = s.addr
		}
	}
	return out
}

func (c *pset) drain() {
	for e, ok := c.n.Closing.Pop(); ok; e, ok = c.n.Closing.Pop() {
		c.closed[e.PeerRuntimeId]++
	}
}

// try connects once. res: accepted, refused, or an error text.
func (c *pset) try(id string) (*vwire.Peer, string) {
	p, v, err := vwire.DialPeer(c.n.Addr, "", id, c.p, stepLimit)
	if err != nil {
		return nil, "error " + err.Error()
	}
	if v != "continue" {
		p.C.Close()
		return nil, v
	}
	p.Start()
	if p.Ping(stepLimit) {
		return p, "accepted"
	}
	if p.Closed() {
		return p, "refused"
	}
	return p, "neither: " + fmt.Sprint(tail(p.Log()))
}

func (c *pset) begin() bool {
	c.alive, c.closed, c.ended = map[string]*sess{}, map[string]int{}, map[string]int{}
	if c.m == 0 {
		c.m = 1 + c.r.Intn(5)
	}
	c.n = c.add(vnode.NetParams{Listen: true, MaxPeers: c.m, Seek: time.Hour})
	if c.r.Intn(2) == 0 && !c.load(c.n, c.grow(H{}, 1+c.r.Intn(3), 2)) {
		return false
	}
	c.n.Join()
	ok := vlib.Eventually(60*time.Second, func() bool {
		x, err := net.DialTimeout("tcp", c.n.Addr, 5*time.Second)
		if err == nil {
			x.Close()
		}
		return err == nil
	})
	if !ok {
		rep.Inconclusive("%s: no listener", c.id)
	}
	return ok
}

// connect a new identity, which must be accepted (there is room).
func (c *pset) connect(id string) bool {
	last := ""
	ok := vlib.Eventually(stepLimit, func() bool {
		if c.anyCrash() {
			return true
		}
		p, res := c.try(id)
		last = res
		if res == "accepted" {
			c.alive[id] = &sess{p: p, id: id}
			return true
		}
		if p != nil {
			p.Stop()
		}
		time.Sleep(20 * time.Millisecond)
		return false
	})
	if c.dead {
		return false
	}
	if !ok {
		c.fail("slot-not-free", fmt.Sprintf("%d of %d sessions are open but a peer is not let in (%s)", len(c.alive), c.m, last), nil)
		return false
	}
	// it listens, so it tells where
	p := c.alive[id].p
	vlib.Eventually(stepLimit, func() bool { return p.Count("announce-addr", H{}) > 0 || p.Done() })
	for _, e := range p.Log() {
		if e.Kind == "announce-addr" && e.Addr != c.n.Addr {
			c.fail("announce", "the node announced "+e.Addr+" but listens on "+c.n.Addr, nil)
			return false
		}
	}
	if p.Count("announce-addr", H{}) == 0 {
		if p.Done() {
			c.fail("session-broken", "a new session ended by itself", tail(p.Log()))
		} else {
			c.fail("announce", fmt.Sprintf("a listening node did not tell its address to a peer it let in as number %d", len(c.alive)), tail(p.Log()))
		}
		return false
	}
	rep.Count("announcements_judged", 1)
	return true
}

// refused: this connection must be turned away.
func (c *pset) refused(id, why string) bool {
	p, res := c.try(id)
	if res == "accepted" {
		c.fail("too-many", fmt.Sprintf("a %s peer was let in: %d sessions open, maximum %d", why, len(c.alive), c.m), nil)
		return false
	}
	if res != "refused" {
		c.fail("refusal", fmt.Sprintf("a %s peer was neither let in nor asked to go: %s", why, res), nil)
		return false
	}
	want := c.expect()
	got := map[string]string{}
	for _, e := range p.Log() {
		if e.Kind == "peer-addrs" {
			got = e.Addrs
		}
	}
	if !reflect.DeepEqual(want, got) {
		c.fail("alternatives", fmt.Sprintf("a %s peer was told of %v instead of %v", why, got, want), tail(p.Log()))
		return false
	}
	if !vlib.Eventually(stepLimit, p.Done) {
		c.fail("socket-open", "the connection of a refused peer is never closed", nil)
		return false
	}
	rep.Count("refusals_judged", 1)
	return true
}

// settleAddrs waits until the node's answer to an address request is what it must be.
func (c *pset) settleAddrs() bool {
	ss := c.order()
	if len(ss) == 0 {
		return true
	}
	s := ss[c.r.Intn(len(ss))]
	want := c.expect()
	var got map[string]string
	ok := vlib.Eventually(stepLimit, func() bool {
		k := s.p.Count("peer-addrs", H{})
		s.p.RequestAddrs()
		if !vlib.Eventually(stepLimit, func() bool { return s.p.Done() || s.p.Count("peer-addrs", H{}) > k }) || s.p.Done() {
			return true
		}
		for _, e := range s.p.Log() {
			if e.Kind == "peer-addrs" {
				got = e.Addrs
			}
		}
		if reflect.DeepEqual(got, want) {
			return true
		}
		time.Sleep(30 * time.Millisecond)
		return false
	})
	if s.p.Done() || got == nil {
		c.fail("session-broken", "an address request ended the session or was never answered", tail(s.p.Log()))
		return false
	}
	if !ok {
		c.fail("addresses", fmt.Sprintf("the node hands out %v, its current peers announced %v", got, want), nil)
		return false
	}
	rep.Count("address_answers_judged", 1)
	return true
}

func (c *pset) end(s *sess, how string) bool {
	c.note("end %s by %s", s.id, how)
	delete(c.alive, s.id)
	c.ended[s.id]++
	needEOF := true
	switch how {
	case "close-cmd":
		s.p.CloseCmd()
	case "announce-close-cmd":
		s.p.Do(func() {
			s.p.Issue("announce-addr", func() { s.p.C.W(vwire.Str("10.0.0.1:1"), vwire.Str("cmd:close")) })
		})
	case "announce-eof":
		needEOF = false
		s.p.DoWait(func() { s.p.C.W(vwire.Str("cmd:announce-addr"), vwire.Str("10.0.0.2:2")) }, stepLimit)
		if c.r.Intn(2) == 0 {
			time.Sleep(time.Duration(c.r.Intn(5)) * time.Millisecond)
		}
		s.p.Stop()
	case "eof":
		needEOF = false
		s.p.Stop()
	case "reset":
		needEOF = false
		if tc, ok := s.p.C.C.(*net.TCPConn); ok {
			tc.SetLinger(0)
		}
		s.p.Stop()
	case "half":
		s.p.DoWait(func() { s.p.C.C.(*net.TCPConn).CloseWrite() }, stepLimit)
	case "truncated":
		needEOF = false
		s.p.DoWait(func() { s.p.C.W([]byte{0, 200, 'c', 'm'}) }, stepLimit)
		s.p.Stop()
	case "bad-sync":
		needEOF = false
		s.p.DoWait(func() { s.p.C.W(vwire.Str("cmd:sync-chain"), make([]byte, 40)) }, stepLimit)
		s.p.Stop()
	case "panic":
		// a chain request that the node cannot follow ends the session on its side
		s.p.OnSync = func(p *vwire.Peer) bool {
			cn := p.C
			cn.W(vwire.Hash(H{}), vwire.Hash(c.w.RandH()))
			cn.RHash()
			cn.RHash()
			cn.W(vwire.Str("continue"))
			cn.RStr()
			cn.RStr()
			cn.W(vwire.Str("sync:recv"))
			for cn.Err == nil {
				cn.RHash()
				cn.W(vwire.Bool(false))
			}
			return false
		}
		if c.n.Head.EqZero() {
			s.p.CloseCmd()
		} else {
			s.p.SyncNow()
		}
	}
	if needEOF && !vlib.Eventually(stepLimit, s.p.Done) {
		c.fail("socket-open", "a session ended by "+how+" but the node never closes the connection", tail(s.p.Log()))
		return false
	}
	ok := vlib.Eventually(stepLimit, func() bool { c.drain(); return c.closed[s.id] >= c.ended[s.id] })
	if !ok {
		c.fail("session-kept", "the node keeps a session which ended by "+how, nil)
		return false
	}
	rep.Count("ends_judged", 1)
	return true
}

var ends = []string{"close-cmd", "announce-close-cmd", "announce-eof", "announce-eof", "eof", "reset", "half", "truncated", "bad-sync", "panic"}

func (x *nw) set() {
	c := &pset{nw: x}
	r := c.r
	if !c.begin() {
		return
	}
	steps := 14 + r.Intn(12)
	for k := 0; k < steps && !c.dead; k++ {
		ss := c.order()
		sig := ""
		switch a := r.Intn(10); {
		case a < 3 && len(c.alive) < c.m:
			id := fmt.Sprintf("peer-%d", r.Int63())
			if len(c.known) > 0 && r.Intn(2) == 0 { // somebody comes back
				id = c.known[r.Intn(len(c.known))]
				if c.alive[id] != nil {
					continue
				}
				sig = "back"
			}
			c.note("connect %s", id)
			if !c.connect(id) {
				return
			}
			c.known = append(c.known, id)
			sig += fmt.Sprint("connect", len(c.alive), c.m)
		case a < 3:
			if !c.settleAddrs() || !c.refused(fmt.Sprintf("extra-%d", r.Int63()), "surplus") {
				return
			}
			sig = fmt.Sprint("surplus", c.m, len(c.expect()))
		case a == 3 && len(ss) > 0:
			if !c.settleAddrs() || !c.refused(ss[r.Intn(len(ss))].id, "duplicate") {
				return
			}
			sig = fmt.Sprint("duplicate", len(ss), c.m)
		case a == 4:
			p, res := c.try(c.n.Id)
			if res != "cancel" {
				c.fail("self", "a connection under the node's own identity was not cancelled: "+res, nil)
				return
			}
			_ = p
			sig = "self"
		case a == 5 && len(ss) > 0:
			s := ss[r.Intn(len(ss))]
			s.addr = fmt.Sprintf("127.0.0.1:%d", 1+r.Intn(60000))
			s.p.Announce(s.addr)
			c.note("%s announces %s", s.id, s.addr)
			if r.Intn(2) == 0 && !c.settleAddrs() {
				return
			}
			sig = "announce"
		case a == 6:
			if !c.settleAddrs() {
				return
			}
			sig = fmt.Sprint("addrs", len(c.expect()))
		case a >= 7 && len(ss) > 0:
			how := ends[r.Intn(len(ends))]
			if !c.end(ss[r.Intn(len(ss))], how) {
				return
			}
			sig = fmt.Sprint("end", how, len(ss) == c.m)
			if r.Intn(2) == 0 && !c.settleAddrs() {
				return
			}
		default:
			continue
		}
		// everybody else is unaffected
		for _, s := range c.order() {
			if s.p.Done() || (k%4 == 0 && !s.p.Ping(stepLimit)) {
				c.fail("session-broken", "an uninvolved session ended", tail(s.p.Log()))
				return
			}
		}
		if c.anyCrash() {
			return
		}
		rep.Eval("set" + sig)
	}
	c.settleAddrs()
	for _, s := range c.order() {
		s.p.Stop()
	}
	rep.Sample(map[string]any{"case": c.id, "max": c.m, "log": c.log})
}

// crowd: as many peers as a real node has, and more; filled, reduced and filled again.
func (x *nw) crowd() {
	r := x.r
	c := &pset{nw: x, m: 24 + r.Intn(60)}
	if !c.begin() {
		return
	}
	for round := 0; round < 3 && !c.dead; round++ {
		for len(c.alive) < c.m {
			id := fmt.Sprintf("peer-%d", r.Int63())
			if len(c.known) > 0 && r.Intn(3) == 0 {
				if id = c.known[r.Intn(len(c.known))]; c.alive[id] != nil {
					continue
				}
			}
			c.note("connect %s", id)
			if !c.connect(id) {
				return
			}
			c.known = append(c.known, id)
			if r.Intn(5) > 0 {
				s := c.alive[id]
				s.addr = fmt.Sprintf("127.0.0.1:%d", 1+r.Intn(60000))
				s.p.Announce(s.addr)
			}
		}
		rep.Max("sessions", int64(len(c.alive)))
		ss := c.order()
		if !c.settleAddrs() || !c.refused(fmt.Sprintf("extra-%d", r.Int63()), "surplus") ||
			!c.refused(ss[r.Intn(len(ss))].id, "duplicate") {
			return
		}
		rep.Eval(fmt.Sprint("crowd", c.m/8, round))
		for n := 1 + r.Intn(c.m); n > 0; n-- {
			ss := c.order()
			if !c.end(ss[r.Intn(len(ss))], ends[r.Intn(len(ends))]) {
				return
			}
		}
		if !c.settleAddrs() {
			return
		}
		for _, s := range c.order() {
			if s.p.Done() || !s.p.Ping(stepLimit) {
				c.fail("session-broken", "an uninvolved session ended", tail(s.p.Log()))
				return
			}
		}
		if c.anyCrash() {
			return
		}
		rep.Eval(fmt.Sprint("crowd-left", c.m/8, len(c.alive)/8))
	}
	for _, s := range c.order() {
		s.p.Stop()
	}
}

// storm: many connect at once; exactly as many as fit are let in, one per identity.
func (x *nw) storm() {
	c := &pset{nw: x}
	r := c.r
	if !c.begin() {
		return
	}
	n := c.m + 1 + r.Intn(6)
	dup := r.Intn(2) == 0
	ids := []string{}
	for i := 0; i < n; i++ {
		if dup && i%2 == 1 {
			ids = append(ids, ids[i-1])
		} else {
			ids = append(ids, fmt.Sprintf("storm-%d-%d", i, r.Int63()))
		}
	}
	distinct := map[string]bool{}
	for _, s := range ids {
		distinct[s] = true
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	acc := map[string][]*vwire.Peer{}
	total, odd := 0, ""
	for _, id := range ids {
		wg.Add(1)
		go func(id string) {
			defer wg.Done()
			p, res := c.try(id)
			mu.Lock()
			defer mu.Unlock()
			switch res {
			case "accepted":
				acc[id] = append(acc[id], p)
				total++
			case "refused":
			default:
				odd = res
			}
		}(id)
	}
	wg.Wait()
	if c.anyCrash() {
		return
	}
	for id, ps := range acc {
		if len(ps) > 1 {
			c.fail("duplicate", fmt.Sprintf("%d sessions with identity %s", len(ps), id), nil)
			return
		}
	}
	if odd != "" {
		c.fail("refusal", "a peer was neither let in nor asked to go: "+odd, nil)
		return
	}
	if total > c.m || total < min(c.m, len(distinct)) {
		c.fail("too-many", fmt.Sprintf("%d of %d simultaneous newcomers were let in, maximum %d", total, len(distinct), c.m), nil)
		return
	}
	rep.Eval(fmt.Sprint("storm", c.m, n, dup, total))
	// all go at once; then all the slots are free again
	for id, ps := range acc {
		c.alive[id] = &sess{p: ps[0], id: id}
	}
	for _, s := range c.order() {
		if r.Intn(2) == 0 {
			s.p.Stop()
		} else {
			s.p.CloseCmd()
		}
		delete(c.alive, s.id)
	}
	for i := 0; i < c.m; i++ {
		if !c.connect(fmt.Sprintf("after-%d", i)) {
			return
		}
	}
	if c.refused("one-more", "surplus") {
		rep.Eval(fmt.Sprint("storm-after", c.m))
	}
	for _, s := range c.order() {
		s.p.Stop()
	}
}

// silent: connections that say nothing or stop half-way keep nobody else out.
func (x *nw) silent() {
	c := &pset{nw: x}
	r := c.r
	if !c.begin() {
		return
	}
	k := 4 + r.Intn(3)
	kinds := ""
	greeting := append(append(vwire.Str("levilutz/basiccoin"), vwire.Str("v0.0.0")...), vwire.Str("silent")...)
	for i := 0; i < k; i++ {
		nc, err := net.Dial("tcp", c.n.Addr)
		if err != nil {
			rep.Inconclusive("%s: %v", c.id, err)
			return
		}
		defer nc.Close()
		switch m := r.Intn(4); m {
		case 0:
		case 1:
			nc.Write(greeting[:r.Intn(len(greeting))])
		case 2:
			nc.Write(greeting) // and never says what it wants
		case 3:
			nc.Write([]byte{0xff})
		}
		kinds += "s"
	}
	time.Sleep(30 * time.Millisecond)
	at := time.Now()
	type res struct {
		p *vwire.Peer
		s string
	}
	ch := make(chan res, 1)
	go func() { p, s := c.try("honest"); ch <- res{p, s} }()
	select {
	case x := <-ch:
		if c.anyCrash() {
			return
		}
		if x.s != "accepted" {
			c.fail("kept-out", fmt.Sprintf("behind %d silent connections an honest newcomer got: %s", k, x.s), nil)
			return
		}
		rep.Count("honest_wait_ms", time.Since(at).Milliseconds())
		x.p.Stop()
	case <-time.After(stepLimit):
		c.fail("kept-out", fmt.Sprintf("behind %d silent connections an honest newcomer was not answered for %v", k, stepLimit), nil)
		return
	}
	rep.Eval(fmt.Sprint("silent", k))
}

// dial: where the node is the one who connects.
func (x *nw) dial() {
	c := &pset{nw: x}
	r := c.r
	type inbound struct {
		p *vwire.Peer
		v string
	}
	listen := func(id string) (string, chan inbound, net.Listener) {
		l, err := net.Listen("tcp", vnode.FreshIP()+":0")
		if err != nil {
			panic(err)
		}
		ch := make(chan inbound, 100)
		go func() {
			for {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					cn := vwire.Wrap(nc, stepLimit)
					v := cn.Handshake(id)
					if cn.Err != nil {
						nc.Close()
						return
					}
					ch <- inbound{vwire.NewPeer(cn, false, id, c.p).Start(), v}
				}()
			}
		}()
		return l.Addr().String(), ch, l
	}
	wait := func(ch chan inbound) *vwire.Peer {
		select {
		case x := <-ch:
			return x.p
		case <-time.After(stepLimit):
			return nil
		}
	}
	a1, c1, l1 := listen("first")
	defer l1.Close()
	a2, c2, l2 := listen("second")
	defer l2.Close()
	deadL, _ := net.Listen("tcp", vnode.FreshIP()+":0")
	dead := deadL.Addr().String()
	deadL.Close()
	c.alive, c.closed, c.ended = map[string]*sess{}, map[string]int{}, map[string]int{}
	c.m = 3
	seeds := []string{a1}
	var gone net.Listener // a seed that is there at first only
	var c0 chan inbound
	if r.Intn(2) == 0 {
		var a0 string
		a0, c0, gone = listen("zeroth")
		seeds = []string{a0, a1}
		if r.Intn(3) == 0 {
			seeds = []string{a0, dead, a1}
		}
	}
	c.n = c.add(vnode.NetParams{Listen: true, MaxPeers: 3, Seek: 150 * time.Millisecond, Seeds: seeds})
	c.n.Join()
	if gone != nil {
		p0 := wait(c0)
		if p0 == nil {
			c.fail("seed", "the node never connected to its first seed", nil)
			return
		}
		gone.Close()
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		c.alive["zeroth"] = &sess{p: p0, id: "zeroth"}
		if !c.end(c.alive["zeroth"], []string{"eof", "close-cmd"}[r.Intn(2)]) {
			return
		}
	}
	p1 := wait(c1)
	if p1 == nil {
		c.fail("seed", "the node never connected to its seed", nil)
		return
	}
	// the seed is tried once more after success (it is queued as an address): that duplicate must be refused
	extra := 0
	list := map[string]string{c.n.Id: c.n.Addr, "alias-of-node": c.n.Addr, "alias-of-first": a1, "dead": dead, "junk": "not an address", "empty": ""}
	if r.Intn(2) == 0 {
		list["second"] = a2
	} else {
		list["alias-of-second"] = a2
	}
	if !vlib.Eventually(stepLimit, func() bool { return p1.Count("announce-addr", H{}) > 0 || p1.Done() }) || p1.Done() {
		c.fail("announce", "a listening node did not announce its address to the peer it dialled", tail(p1.Log()))
		return
	}
	for _, e := range p1.Log() {
		if e.Kind == "announce-addr" && e.Addr != c.n.Addr {
			c.fail("announce", "the node announced "+e.Addr+" but listens on "+c.n.Addr, nil)
			return
		}
	}
	p1.SendAddrs(list)
	p2 := wait(c2)
	if p2 == nil {
		c.fail("not-dialled", "the node never connected to an address it was given", tail(p1.Log()))
		return
	}
	if !p1.Ping(stepLimit) || !p2.Ping(stepLimit) {
		c.fail("session-broken", "a session the node opened does not answer", append(tail(p1.Log()), tail(p2.Log())...))
		return
	}
	for done := false; !done; {
		select {
		case x := <-c1:
			extra++
			if !vlib.Eventually(stepLimit, func() bool { return x.p.Done() }) || !x.p.Closed() {
				c.fail("duplicate", "the node keeps a second connection to the same identity", tail(x.p.Log()))
				return
			}
		case <-time.After(400 * time.Millisecond):
			done = true
		}
	}
	if p1.Done() || p2.Done() {
		c.fail("session-broken", "a duplicate or failing address ended another session", nil)
		return
	}
	c.alive["first"], c.alive["second"] = &sess{p: p1, id: "first"}, &sess{p: p2, id: "second"}
	for _, s := range c.order() {
		s.addr = "127.0.0.1:" + fmt.Sprint(1+r.Intn(9999))
		s.p.Announce(s.addr)
	}
	if !c.settleAddrs() {
		return
	}
	// one slot is left: not taken by a session of the node with itself
	if !c.connect("third") {
		return
	}
	if !c.refused("fourth", "surplus") {
		return
	}
	// nor does the node go over its maximum by dialling
	more := map[string]string{}
	var chs []chan inbound
	for k := 0; k < 1+r.Intn(3); k++ {
		name := fmt.Sprint("over-", k)
		a, ch, l := listen(name)
		defer l.Close()
		more[name] = a
		chs = append(chs, ch)
	}
	p1.SendAddrs(more)
	for _, ch := range chs {
		select {
		case x := <-ch:
			rep.Count("dialled_while_full", 1)
			if !vlib.Eventually(stepLimit, func() bool { return x.p.Done() }) || !x.p.Closed() {
				c.fail("over-maximum", "a node with as many peers as it may have keeps one more that it dialled itself", tail(x.p.Log()))
				return
			}
		case <-time.After(2 * time.Second): // it need not dial
		}
	}
	for _, s := range c.order() {
		if s.p.Done() || !s.p.Ping(stepLimit) {
			c.fail("session-broken", "an address given while the node was full ended another session", tail(s.p.Log()))
			return
		}
	}
	// the node asks its peers for addresses while it has room
	if !c.end(c.alive["third"], "eof") {
		return
	}
	if !vlib.Eventually(stepLimit, func() bool {
		return p1.Count("addrs-request", H{})+p2.Count("addrs-request", H{}) > 0
	}) {
		c.fail("no-seek", "the node has room for peers but asks nobody", nil)
		return
	}
	// everyone leaves: the node returns to its seed by itself
	if !c.end(c.alive["second"], "eof") || !c.end(c.alive["first"], []string{"eof", "close-cmd"}[r.Intn(2)]) {
		return
	}
	back := wait(c1)
	if back == nil || !back.Ping(stepLimit) {
		c.fail("not-healed", "the node without peers did not come back to its seed", nil)
		return
	}
	back.Stop()
	rep.Eval(fmt.Sprint("dial", extra))
}
