//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"net"
	"runtime/metrics"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/internal/verifx/vwire"
	"github.com/levilutz/basiccoin/pkg/core"
)

func hostile() {
	// alone in the process, so that what is allocated is the node's
	rep.Parallel("mem", 1, 1, func(i int, id string) { newNW(id).memory() })
	rep.Parallel("lies", vlib.N(36, 500), 18, func(i int, id string) { newNW(id).lies(i) })
	rep.Parallel("fuzz", vlib.N(32, 500), 16, func(i int, id string) { newNW(id).fuzz() })
	rep.Parallel("block", vlib.N(2, 8), 4, func(i int, id string) { newNW(id).deaf() })
}

// victim is the node under attack and an honest peer it must go on serving.
type victim struct {
	*nw
	v      *vnode.NetNode
	q      *vwire.Peer
	tip    H
	closed map[string]int
	opened map[string]int
}

func (c *nw) victim(maxPeers int) *victim {
	x := &victim{nw: c, closed: map[string]int{}, opened: map[string]int{}}
	c.p.MaxTxVSize = 1500
	c.p.BlockReward = 1 << 40
	c.w = vmodel.NewWorld(c.p, c.r, c.w.Now)
	x.tip = c.grow(H{}, 3+c.r.Intn(4), 4)
	x.v = c.add(vnode.NetParams{Listen: true, MaxPeers: maxPeers, Seek: time.Hour, Miners: c.r.Intn(2) == 0})
	if !c.load(x.v, x.tip) {
		return nil
	}
	x.v.Join()
	if !c.waitListen(x.v) {
		rep.Inconclusive("%s: no listener", c.id)
		return nil
	}
	x.q = c.chainPeer(x.v, x.tip)
	if x.q == nil {
		return nil
	}
	x.q.Start()
	return x
}

// alright checks the node after an attack: alive, answering, its ledger legal, the honest peer served.
func (x *victim) alright(what string) bool {
	if x.anyCrash() {
		return false
	}
	x.v.DrainHeads()
	before := x.v.Head
	if err := x.v.Barrier(); err != nil {
		if !x.anyCrash() {
			x.fail("stalled", "after "+what+" the node's chain no longer answers", nil)
		}
		return false
	}
	x.v.DrainHeads()
	_ = before
	if !x.q.Ping(stepLimit) {
		x.fail("honest-peer", "after "+what+" an honest peer is no longer served", tail(x.q.Log()))
		return false
	}
	if x.work(x.v.Head).Cmp(x.work(x.tip)) < 0 {
		x.fail("ledger", "after "+what+" the node follows a worse chain", nil)
		return false
	}
	if !x.ledgers(x.v) {
		return false
	}
	rep.Count("attacks_survived", 1)
	rep.Eval("attack " + what)
	return true
}

// serves checks that new blocks still travel through the node.
func (x *victim) serves(what string) bool {
	x.v.DrainHeads()
	t := x.grow(x.v.Head, 1, 3)
	x.offer(x.v, t)
	if !vlib.Eventually(settleLimit, func() bool { return x.q.Head() == t || x.q.Done() }) || x.q.Done() {
		if !x.anyCrash() {
			x.fail("honest-peer", "after "+what+" an honest peer no longer gets blocks", tail(x.q.Log()))
		}
		return false
	}
	return true
}

func (x *victim) dial(id string) *vwire.Conn {
	cn, err := vwire.Dial(x.v.Addr, stepLimit)
	if err != nil {
		x.fail("no-connect", "the node no longer takes connections: "+err.Error(), nil)
		return nil
	}
	return cn
}

func (x *victim) enter(id string) *vwire.Conn {
	cn := x.dial(id)
	if cn == nil {
		return nil
	}
	if v := cn.Handshake(id); v != "continue" || cn.Err != nil {
		x.fail("no-handshake", fmt.Sprintf("the node no longer shakes hands: %q %v", v, cn.Err), nil)
		return nil
	}
	x.opened[id]++
	return cn
}

// gone: once we left, the node must end the session too.
func (x *victim) gone(id, what string) bool {
	ok := vlib.Eventually(stepLimit, func() bool {
		for e, ok := x.v.Closing.Pop(); ok; e, ok = x.v.Closing.Pop() {
			x.closed[e.PeerRuntimeId]++
		}
		return x.closed[id] >= x.opened[id]
	})
	if !ok && !x.anyCrash() {
		x.fail("session-stuck", "after "+what+" and a disconnection the node's session goes on", nil)
	}
	return ok
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// memory: messages that announce far more than they bring.
func (c *nw) memory() {
	x := c.victim(8)
	if x == nil {
		return
	}
	counts := []uint64{1 << 20, 1 << 22, 1 << 24, 1 << 26, 1 << 40, 1 << 62, ^uint64(0), 1 << 63}
	txHead := func(ni, no uint64) []byte {
		return append(append(append(vwire.Bool(false), vwire.U64(0)...), vwire.U64(ni)...), vwire.U64(no)...)
	}
	k := 0
	probe := func(what string, send func(cn *vwire.Conn)) bool {
		k++
		id := fmt.Sprintf("mem-%d", k)
		cn := x.enter(id)
		if cn == nil {
			return false
		}
		// what the node says first (its address) out of the way
		cn.W(vwire.Str("cmd:ping"))
		time.Sleep(60 * time.Millisecond)
		a := allocated()
		send(cn)
		time.Sleep(40 * time.Millisecond)
		cn.Close()
		if !x.gone(id, what) {
			return false
		}
		d := allocated() - a
		rep.Count("allocations_measured", 1)
		if d > 48<<20 {
			x.fail("bloat", fmt.Sprintf("%s: a few hundred bytes from a peer made the node allocate %d MiB", what, d>>20), nil)
			return false
		}
		return x.alright("mem " + strings.Fields(what)[0])
	}
	tx := func(h []byte) func(cn *vwire.Conn) {
		return func(cn *vwire.Conn) {
			id := c.w.RandH()
			cn.W(vwire.Str("cmd:new-tx"), vwire.Hash(id), h)
		}
	}
	one := append(append(append([]byte{}, vwire.Hash(c.w.RandH())...), vwire.U64(1)...), vwire.U64(2)...)
	one = append(append(one, vwire.Bytes([]byte("key"))...), vwire.Bytes([]byte("sig"))...)
	for _, n := range counts {
		if !probe(fmt.Sprintf("tx-inputs %d", n), tx(txHead(n, 1))) ||
			!probe(fmt.Sprintf("tx-outputs %d", n), tx(txHead(0, n))) ||
			!probe(fmt.Sprintf("tx-some-inputs %d", n), tx(append(txHead(n, 0), one...))) ||
			!probe(fmt.Sprintf("peer-addrs %d", n), func(cn *vwire.Conn) {
				cn.W(vwire.Str("cmd:peer-addrs"), vwire.U64(n), vwire.Str("a"), vwire.Str("b"))
			}) {
			return
		}
	}
	for i := 0; i < 3; i++ {
		if !probe("long-strings", func(cn *vwire.Conn) {
			for j := 0; j < 20; j++ {
				cn.W([]byte{0xff, 0xff})
				cn.W(make([]byte, 10))
			}
		}) {
			return
		}
	}
	// in the middle of a synchronisation
	for _, n := range counts {
		tip := c.grow(x.tip, 2, 2)
		if !probe(fmt.Sprintf("sync-tx %d", n), func(cn *vwire.Conn) {
			p := vwire.NewPeer(cn, true, "x", c.p)
			p.Give(c.bundles(H{}, tip)...)
			p.SetHead(tip)
			p.Serve = func(id H) [][]byte {
				p.C.C.Write(append(vwire.Bool(true), txHead(n, n)...))
				p.C.C.Close()
				return [][]byte{{0}}
			}
			p.Start()
			p.SyncNow()
			vlib.Eventually(5*time.Second, p.Done)
		}) {
			return
		}
	}
	x.serves("memory attacks")
	x.q.Stop()
}

// tamper damages what is written at one byte offset.
type tamper struct {
	net.Conn
	mu   sync.Mutex
	at   int
	mode int
	r    *rand.Rand
	n    int
	done bool
}

// state tells whether the damage is done, and how much was written so far.
func (t *tamper) state() (bool, int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.done, t.n
}

func (t *tamper) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	start := t.n
	t.n += len(b)
	if t.done || t.at >= t.n {
		return t.Conn.Write(b)
	}
	t.done = true
	k := t.at - start
	junk := make([]byte, 1+t.r.Intn(300))
	t.r.Read(junk)
	switch t.mode {
	case 0: // flip
		o := append([]byte{}, b...)
		o[k] ^= 1 << uint(t.r.Intn(8))
		_, err := t.Conn.Write(o)
		return len(b), err
	case 1: // cut
		t.Conn.Write(b[:k])
		t.Conn.Close()
		return 0, fmt.Errorf("cut")
	case 2: // insert
		t.Conn.Write(append(append(append([]byte{}, b[:k]...), junk...), b[k:]...))
		return len(b), nil
	case 3: // drop the rest of this message
		t.Conn.Write(b[:k])
		return len(b), nil
	case 4: // all ones or zeros from here on in this message
		o := append([]byte{}, b...)
		v := byte(0xff)
		if t.r.Intn(2) == 0 {
			v = 0
		}
		for i := k; i < len(o) && i < k+8; i++ {
			o[i] = v
		}
		_, err := t.Conn.Write(o)
		return len(b), err
	case 5: // twice
		t.Conn.Write(b)
		_, err := t.Conn.Write(b)
		return len(b), err
	case 6: // random rest
		o := append([]byte{}, b...)
		t.r.Read(o[k:])
		_, err := t.Conn.Write(o)
		return len(b), err
	default: // reset
		t.Conn.Write(b[:k])
		if tc, ok := t.Conn.(*net.TCPConn); ok {
			tc.SetLinger(0)
		}
		t.Conn.Close()
		return 0, fmt.Errorf("reset")
	}
}

// fuzz: a session that is correct except at one place, which may be anywhere.
func (c *nw) fuzz() {
	x := c.victim(6)
	if x == nil {
		return
	}
	r := c.r
	total := 3000
	for k := 0; k < vlib.N(10, 14) && !c.dead; k++ {
		x.v.DrainHeads()
		tip := c.grow(x.v.Head, 1+r.Intn(2), 3)
		txs := c.chainTxs(c.split(x.v.Head, 1)[0], c.w.All.Blocks[x.v.Head].Height+1, 2)
		nc, err := net.Dial("tcp", x.v.Addr)
		if err != nil {
			x.fail("no-connect", err.Error(), nil)
			return
		}
		mode := r.Intn(8)
		at := r.Intn(total)
		if r.Intn(4) == 0 {
			at = r.Intn(400)
		}
		tc := &tamper{Conn: nc, at: at, mode: mode, r: rand.New(rand.NewSource(r.Int63()))}
		id := fmt.Sprintf("fuzz-%d", k)
		cn := vwire.Wrap(tc, 3*time.Second)
		v := cn.Handshake(id)
		what := fmt.Sprintf("damage of kind %d", mode)
		if done, _ := tc.state(); cn.Err == nil && v == "continue" && !done {
			x.opened[id]++
			p := vwire.NewPeer(cn, true, id, c.p)
			p.Give(c.bundles(H{}, tip)...)
			p.SetHead(x.v.Head)
			for _, t := range txs {
				p.GiveTx(t)
			}
			p.Start()
			acts := r.Perm(6)
			for _, a := range acts {
				switch a {
				case 0:
					p.Announce("127.0.0.1:9")
				case 1:
					p.RequestAddrs()
				case 2:
					p.SendAddrs(map[string]string{"x": "nonsense", "y": "127.0.0.1:0"})
				case 3:
					for _, t := range txs {
						p.AnnounceTx(vmodel.TxID(t))
					}
				case 4:
					p.Do(func() { p.SetHead(tip) })
					p.SyncNow()
				case 5: // let the node start something
					if t, ok := c.w.RandTx(c.split(x.v.Head, 1)[0], 1); ok {
						ret := make(chan error, 1)
						x.v.Bus.CandidateTx.Pub(candTx(t, ret))
					}
				}
			}
			p.DoWait(func() {}, 4*time.Second)
			if done, n := tc.state(); !done && !p.Done() {
				total = max(500, n)
			}
			p.Stop()
			if !x.gone(id, what) {
				return
			}
		} else {
			what += " in the handshake"
			nc.Close()
			// it may or may not have become a session
			x.opened[id] = 0
		}
		if !x.alright(what) {
			return
		}
		rep.Seen("damage", fmt.Sprint(mode, at/40))
		if k%4 == 3 && !x.serves(what) {
			return
		}
	}
	x.serves("fuzzing")
	x.q.Stop()
}

var lieKinds = []string{"ids-forever", "random-blocks", "no-pow", "zero-target", "low-work", "gap", "illegal", "illegal", "illegal", "illegal", "wrong-flag", "wrong-entity",
	"deny-all", "ask-unknown", "ask-flood", "roles", "words", "txs", "txs", "txs", "addrs", "pipeline", "acks", "spoof", "odd-ids", "flood", "raw", "raw", "not-our-turn", "half-entities", "claims"}

// lies: scripted attacks on each step of each exchange.
func (c *nw) lies(i int) {
	x := c.victim(6)
	if x == nil {
		return
	}
	for k := 0; k < 7 && !c.dead; k++ {
		kind := lieKinds[(i*7+k)%len(lieKinds)]
		c.note("%s", kind)
		if !x.lie(kind, fmt.Sprintf("%s-%d", kind, k)) {
			return
		}
		if !x.alright(kind) {
			return
		}
	}
	if !x.serves("lies") {
		return
	}
	// the slots are free again
	for k := 0; k < 5; k++ {
		id := fmt.Sprintf("late-%d", k)
		ok := vlib.Eventually(stepLimit, func() bool {
			p, v, err := vwire.DialPeer(x.v.Addr, "", id, c.p, stepLimit)
			if err != nil || v != "continue" {
				return false
			}
			p.Start()
			good := p.Ping(stepLimit)
			if good && k%2 == 0 {
				defer p.Stop()
			}
			return good
		})
		if !ok {
			x.fail("slots-leaked", "after the attacks honest peers no longer get a place", nil)
			return
		}
	}
	x.q.Stop()
}

// syncAs runs a hostile synchronisation: claim, then the rest by hand. Returns false if the node did not go along.
func syncAs(cn *vwire.Conn, work, head []byte, word string) bool {
	cn.W(vwire.Str("cmd:sync-chain"))
	for s := cn.RStr(); s != "ack:sync-chain"; s = cn.RStr() {
		if cn.Err != nil {
			return false
		}
		if s == "cmd:announce-addr" {
			cn.W(vwire.Str("ack:announce-addr"))
			cn.RStr()
		} else if s == "cmd:new-tx" {
			cn.W(vwire.Str("ack:new-tx"))
			cn.RHash()
			cn.W(vwire.Bool(false))
		}
	}
	cn.W(work, head)
	cn.RHash()
	cn.RHash()
	cn.W(vwire.Str(word))
	return cn.RStr() == "continue" && word == "continue"
}

func ff() []byte {
	b := make([]byte, 32)
	for i := range b {
		b[i] = 0xff
	}
	return b
}

func (x *victim) lie(kind, id string) bool {
	r := x.r
	c := x.nw
	var cn *vwire.Conn
	if kind != "spoof" && kind != "odd-ids" && kind != "flood" && kind != "raw" {
		if cn = x.enter(id); cn == nil {
			return false
		}
		cn.Limit = 5 * time.Second
		// let its first words pass
		time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
	}
	recvIds := func() bool { // the node is to receive from us
		cn.W(vwire.Str("sync:send"))
		return cn.RStr() == "sync:recv"
	}
	x.v.DrainHeads()
	own := x.v.Head
	heavier := c.grow(own, 1+r.Intn(3), 3)
	send := func(head H, bs []core.Block) bool {
		for i := range bs {
			cn.W(vwire.Hash(vmodel.BlockID(bs[i])))
			cn.RBool()
		}
		_ = head
		cn.W(vwire.Hash(own))
		cn.RBool()
		for _, b := range bs {
			cn.W(vwire.Block(b))
		}
		return cn.RBool()
	}
	mk := func(parent H, target H, mined bool) core.Block {
		b := core.Block{PrevBlockId: parent, MerkleRoot: c.w.RandH(), Target: target, Noise: c.w.RandH(), MinedTime: uint64(time.Now().Unix())}
		if mined {
			b = vmodel.Mine(b, true, r)
		}
		return b
	}
	switch kind {
	case "ids-forever":
		if syncAs(cn, ff(), vwire.Hash(c.w.RandH()), "continue") && recvIds() {
			for k := 0; k < 400+r.Intn(1500) && cn.Err == nil; k++ {
				cn.W(vwire.Hash(c.w.RandH()))
				cn.RBool()
			}
		}
	case "random-blocks", "no-pow", "zero-target", "low-work", "gap":
		b1 := mk(own, c.p.MaxTarget, kind != "no-pow")
		switch kind {
		case "random-blocks":
			b1 = mk(c.w.RandH(), c.w.RandH(), false)
		case "zero-target":
			b1.Target = H{}
			b1 = mk(own, H{}, false)
		case "no-pow":
			b1 = mk(own, vmodel.Hex("0000000000000000000000000000000000000000000000000000000000000001"), false)
		case "low-work":
			base := c.w.All.Anc(own, 2)
			b1 = mk(base, c.p.MaxTarget, true)
			own = base
		}
		bs := []core.Block{b1}
		if kind == "gap" {
			bs = []core.Block{mk(c.w.RandH(), c.p.MaxTarget, true), b1}
		}
		if syncAs(cn, ff(), vwire.Hash(vmodel.BlockID(bs[0])), "continue") && recvIds() {
			if send(vmodel.BlockID(bs[0]), bs) && cn.Err == nil {
				if kind == "no-pow" || kind == "low-work" || kind == "gap" || kind == "random-blocks" {
					rep.Count("unproven_chains_examined", 1)
				}
				id := cn.RHash()
				_ = id
				cn.W(vwire.Bool(true), vwire.Tx(core.Tx{}))
			}
		}
	case "illegal":
		// proof of work is there, the content breaks a rule: whoever sends it, it must not be adopted
		var ks []string
		for _, cl := range vlib.SortedKeys(vmodel.Kinds) {
			ks = append(ks, vmodel.Kinds[cl]...)
		}
		var m *vmodel.Bundle
		mkd := ""
		for k := 0; k < 12 && m == nil; k++ {
			mkd = ks[r.Intn(len(ks))]
			m = c.w.Mutant(mkd, heavier)
		}
		if m == nil {
			break
		}
		if v, _ := c.judge(m); v == vmodel.Bad {
			// keep the world able to describe it without counting it as legal
			if !c.registerBad(m) {
				break
			}
		} else if v == vmodel.OK {
			c.w.Register(m)
		} else {
			break
		}
		c.note("illegal content %s", mkd)
		p := vwire.NewPeer(cn, true, id, c.p)
		p.Give(c.bundles(H{}, heavier)...)
		func() {
			defer func() { recover() }() // some mutants cannot be served (dangling roots)
			p.Give(m)
			p.SetHead(m.Id)
		}()
		p.Start()
		p.SyncNow()
		vlib.Eventually(10*time.Second, func() bool { return p.Done() || p.Count("sync", H{}) > 0 })
		p.Stop()
		rep.Seen("illegal_contents", mkd)
	case "wrong-flag", "wrong-entity", "half-entities":
		p := vwire.NewPeer(cn, true, id, c.p)
		p.Give(c.bundles(H{}, heavier)...)
		p.SetHead(heavier)
		after := r.Intn(4)
		p.Serve = func(id H) [][]byte {
			if after--; after >= 0 {
				return nil
			}
			after = 1 << 30
			switch kind {
			case "wrong-flag":
				if r.Intn(2) == 0 {
					return [][]byte{vwire.Bool(true), make([]byte, 64)}
				}
				return [][]byte{vwire.Bool(false), make([]byte, 200)}
			case "wrong-entity":
				t := c.w.Coinbase(9, 1)
				if r.Intn(2) == 0 {
					return [][]byte{{7}, vwire.Tx(t)}
				}
				return [][]byte{vwire.Bool(true), vwire.Tx(t)}
			}
			p.C.C.Close()
			return [][]byte{{0}}
		}
		p.Start()
		p.SyncNow()
		vlib.Eventually(8*time.Second, func() bool { return p.Done() || p.Count("sync", H{}) > 0 })
		p.Stop()
	case "deny-all":
		// less work claimed: the node sends, and we know nothing, not even the beginning
		if syncAs(cn, make([]byte, 32), vwire.Hash(H{}), "continue") {
			cn.W(vwire.Str("sync:recv"))
			cn.RStr()
			for k := 0; k < 200 && cn.Err == nil; k++ {
				cn.RHash()
				cn.W(vwire.Bool(false))
			}
		}
	case "ask-unknown", "ask-flood":
		if syncAs(cn, make([]byte, 32), vwire.Hash(H{}), "continue") {
			cn.W(vwire.Str("sync:recv"))
			cn.RStr()
			n := 0
			for h := cn.RHash(); cn.Err == nil && !h.EqZero(); h = cn.RHash() {
				n++
				cn.W(vwire.Bool(false))
			}
			cn.W(vwire.Bool(true))
			var roots []H
			for k := 0; k < n && cn.Err == nil; k++ {
				roots = append(roots, cn.RBlock().MerkleRoot)
			}
			cn.W(vwire.Bool(true))
			if kind == "ask-unknown" {
				cn.W(vwire.Hash(c.w.RandH()))
			} else {
				for k := 0; k < 2000 && cn.Err == nil && len(roots) > 0; k++ {
					cn.W(vwire.Hash(roots[k%len(roots)]))
					cn.RBool()
					cn.RMerkle()
				}
			}
		}
	case "roles":
		if syncAs(cn, ff(), vwire.Hash(c.w.RandH()), "continue") {
			cn.W(vwire.Str([]string{"sync:recv", "sync:", "", "cmd:close", "sync:send\x00"}[r.Intn(5)]))
			cn.RStr()
		}
	case "words":
		syncAs(cn, vwire.Hash(c.w.RandH()), vwire.Hash(c.w.RandH()), []string{"cancel", "cmd:close", "", "CONTINUE", strings.Repeat("x", 65535)}[r.Intn(5)])
		cn.W(vwire.Str("sync:send"))
	case "claims":
		// our head is one the node knows, with absurd work
		for k := 0; k < 4; k++ {
			syncAs(cn, [][]byte{ff(), make([]byte, 32)}[r.Intn(2)], vwire.Hash([]H{own, {}, c.w.All.Anc(own, 1), heavier}[r.Intn(4)]), "cancel")
		}
	case "txs":
		p := vwire.NewPeer(cn, true, id, c.p)
		avail := map[core.Utxo]H{}
		for u, k := range c.w.Led[own].Utxos {
			avail[u] = k
		}
		m := vmodel.NewInv(c.p)
		for _, b := range c.bundles(H{}, own) {
			for _, t := range b.Txs {
				m.AddTx(t)
			}
		}
		type sub struct {
			t core.Tx
			v vmodel.Verdict
			k string
		}
		var subs []sub
		for _, k := range r.Perm(len(vmodel.TxKinds)) {
			kd := vmodel.TxKinds[k]
			t, ok := c.w.MutantTx(kd, avail, c.w.All.Blocks[own].Height+1)
			if !ok || len(vwire.Tx(t)) > 1<<20 {
				continue
			}
			big := false
			for _, in := range t.Inputs {
				if len(in.PublicKey) > 65535 || len(in.Signature) > 65535 {
					big = true
				}
			}
			if big {
				continue
			}
			v, _ := m.CheckTx(t)
			p.GiveTx(t)
			subs = append(subs, sub{t, v, kd})
		}
		for k, t := range c.w.UnusualOwners(avail) {
			v, _ := m.CheckTx(t)
			p.GiveTx(t)
			subs = append(subs, sub{t, v, "unusual-owner"})
			if k == 0 {
				m.AddTx(t)
			}
		}
		p.Start()
		for _, s := range subs {
			p.AnnounceTx(vmodel.TxID(s.t))
		}
		p.Ping(10 * time.Second)
		p.Stop()
		if err := x.v.Barrier(); err != nil {
			return x.alright(kind)
		}
		for _, s := range subs {
			if s.v == vmodel.Bad && x.v.Inv.HasTx(vmodel.TxID(s.t)) {
				x.fail("bad-tx", "a transaction that breaks the rules ("+s.k+") was taken from a peer", nil)
				return false
			}
			rep.Count("peer_txs_judged", 1)
		}
	case "addrs":
		n := 50 + r.Intn(200)
		out := [][]byte{vwire.Str("cmd:peer-addrs"), vwire.U64(uint64(n))}
		for k := 0; k < n; k++ {
			out = append(out, vwire.Str(fmt.Sprint("id", k/2)), vwire.Str([]string{"", ":", "junk", "127.0.0.1", "127.0.0.1:99999", "127.0.0.1:0", x.v.Addr, "[::1]:0"}[r.Intn(8)]))
		}
		cn.W(out...)
		cn.W(vwire.Str("cmd:ping"))
		for k := 0; k < 6 && cn.Err == nil; k++ {
			if cn.RStr() == "ack:ping" {
				break
			}
		}
	case "pipeline":
		var b []byte
		for k := 0; k < 300; k++ {
			b = append(b, vwire.Str([]string{"cmd:ping", "cmd:addrs-request", "cmd:", "ping", "cmd:unknown", ""}[r.Intn(6)])...)
		}
		cn.W(b)
		time.Sleep(50 * time.Millisecond)
	case "acks":
		for k := 0; k < 20; k++ {
			cn.W(vwire.Str([]string{"ack:ping", "ack:sync-chain", "ack:", "complete", "continue"}[r.Intn(5)]))
		}
		t := c.grow(own, 1, 1)
		c.offer(x.v, t) // the node now wants to talk: answer with nonsense
		cn.RStr()
		cn.W(vwire.Str([]string{"ack:other", "cmd:new-tx", "", "cmd:sync-chain"}[r.Intn(4)]), []byte{0, 1, 2})
	case "not-our-turn":
		t := c.grow(own, 1, 1)
		c.offer(x.v, t)
		cn.W(vwire.Str("cmd:sync-chain"), vwire.Str("cmd:new-tx"), vwire.Hash(c.w.RandH()), vwire.Str("ack:sync-chain"), ff(), ff(), vwire.Str("continue"), vwire.Str("sync:send"))
		time.Sleep(80 * time.Millisecond)
	case "spoof":
		nc := x.dial(id)
		if nc == nil {
			return false
		}
		nc.Handshake(x.q.Id)
		nc.W(vwire.Str("cmd:close"))
		nc.Close()
		return true
	case "odd-ids":
		for _, s := range []string{"", strings.Repeat("z", 65535), "\x00\xff\n%s%d", x.v.Id[:10]} {
			nc := x.dial(id)
			if nc == nil {
				return false
			}
			nc.Handshake(s)
			nc.W(vwire.Str("cmd:ping"))
			nc.Close()
		}
		return true
	case "flood":
		var cs []net.Conn
		for k := 0; k < 60; k++ {
			if nc, err := net.Dial("tcp", x.v.Addr); err == nil {
				cs = append(cs, nc)
			}
		}
		for _, nc := range cs {
			if r.Intn(2) == 0 {
				nc.Write(vwire.Str("levilutz/basiccoin"))
			}
			nc.Close()
		}
		return true
	case "raw":
		for k := 0; k < 6; k++ {
			nc := x.dial(id)
			if nc == nil {
				return false
			}
			b := make([]byte, r.Intn(400))
			r.Read(b)
			switch r.Intn(5) {
			case 0:
				b = append(vwire.Str("levilutz/basiccoin"), b...)
			case 1:
				b = append(append(vwire.Str("levilutz/basiccoin"), vwire.Str("v0.0.1")...), b...)
			case 2:
				b = append(append(append(vwire.Str("levilutz/basiccoin"), vwire.Str("v0.0.0")...), vwire.Str("me")...), vwire.Str("perhaps")...)
			case 3:
				b = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
			}
			nc.W(b)
			if r.Intn(2) == 0 {
				nc.C.(*net.TCPConn).SetLinger(0)
			}
			nc.Close()
		}
		return true
	}
	cn.Close()
	return x.gone(id, kind)
}

// registerBad adds an illegal block to the world where that is possible, so that following it would be recognised.
func (c *nw) registerBad(m *vmodel.Bundle) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	c.w.Register(m)
	if l := c.w.Led[m.Id]; l != nil && l.Err == "" {
		l.Err = "illegal block"
	}
	return true
}

// deaf: a peer that keeps sending and never reads.
func (c *nw) deaf() {
	x := c.victim(6)
	if x == nil {
		return
	}
	cn := x.enter("deaf")
	if cn == nil {
		return
	}
	if tc, ok := cn.C.(*net.TCPConn); ok {
		tc.SetReadBuffer(1024)
	}
	ping := vwire.Str("cmd:ping")
	var b []byte
	for i := 0; i < 2000; i++ {
		b = append(b, ping...)
	}
	sent := 0
	for i := 0; i < 4000; i++ {
		cn.C.SetWriteDeadline(time.Now().Add(500 * time.Millisecond))
		n, err := cn.C.Write(b)
		sent += n
		if err != nil {
			break
		}
	}
	rep.Count("deaf_bytes", int64(sent))
	if !x.alright("a deaf peer") || !x.serves("a deaf peer") {
		return
	}
	cn.Close()
	if x.gone("deaf", "a deaf peer") {
		x.serves("a deaf peer")
	}
	x.q.Stop()
}
