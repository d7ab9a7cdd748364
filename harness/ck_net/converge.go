//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/internal/verifx/vwire"
)

func converge() {
	const w = 12
	rep.Parallel("pair", vlib.N(60, 900), w, func(i int, id string) { newNW(id).pair() })
	rep.Parallel("mesh", vlib.N(24, 300), 8, func(i int, id string) { newNW(id).mesh() })
	rep.Parallel("partition", vlib.N(16, 200), 8, func(i int, id string) { newNW(id).partition() })
	rep.Parallel("earlier", vlib.N(40, 500), w, func(i int, id string) { newNW(id).earlier() })
	rep.Parallel("race", vlib.N(48, 600), w, func(i int, id string) { newNW(id).race() })
	rep.Parallel("long", vlib.N(8, 60), 6, func(i int, id string) { newNW(id).long(i) })
	rep.Parallel("script", vlib.N(40, 500), w, func(i int, id string) { newNW(id).script() })
}

func (c *nw) maxTxs() int { return []int{0, 1, 3, 6, 12, 25}[c.r.Intn(6)] }

// link gives the address to dial for a node: its own or that of a relay that chops the stream.
func (c *nw) link(n *vnode.NetNode) string {
	if c.r.Intn(3) > 0 {
		return n.Addr
	}
	return vnode.NewRelay(n.Addr, rand.New(rand.NewSource(c.r.Int63()))).Addr
}

// pair: two nodes with arbitrary chains meet.
func (c *nw) pair() {
	r := c.r
	base := c.grow(H{}, r.Intn(8), c.maxTxs())
	ta := c.grow(base, r.Intn(9), c.maxTxs())
	tb := c.grow(base, r.Intn(9), c.maxTxs())
	if r.Intn(5) == 0 { // equal work on both sides
		ta = c.grow(base, 1, 2)
		tb = c.grow(base, 1, 2)
	}
	a := c.add(vnode.NetParams{Listen: true, MaxPeers: 4, Seek: time.Hour})
	b := c.add(vnode.NetParams{MaxPeers: 4, Seek: time.Hour, Seeds: []string{c.link(a)}})
	c.note("base %s height %d, a %s height %d, b %s height %d", short(base), c.w.All.Blocks[base].Height, short(ta), c.w.All.Blocks[ta].Height, short(tb), c.w.All.Blocks[tb].Height)
	if !c.load(a, ta) || !c.load(b, tb) {
		return
	}
	// transactions of the other side's blocks may be around already
	for _, x := range []struct {
		n *vnode.NetNode
		t H
	}{{a, tb}, {b, ta}} {
		for _, bu := range c.bundles(base, x.t) {
			if r.Intn(3) == 0 {
				for _, t := range bu.Txs {
					if !t.IsCoinbase && r.Intn(2) == 0 {
						x.n.Submit(t)
					}
				}
			}
		}
	}
	ha, hb := a.Head, b.Head
	a.Join()
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
	}
	b.Join()
	want := c.best()
	eq := c.work(ha).Cmp(c.work(hb))
	if eq == 0 {
		// they must leave each other alone; a block on top of one of them then convinces both
		time.Sleep(time.Duration(100+r.Intn(200)) * time.Millisecond)
		if len(a.DrainHeads())+len(b.DrainHeads()) > 0 {
			c.fail("equal-disturbed", "a node of equal work changed its head", nil)
			return
		}
		n := []*vnode.NetNode{a, b}[r.Intn(2)]
		c.offer(n, c.grow(n.Head, 1, c.maxTxs()))
		want = c.best()
	}
	if !c.settled("pair", want, a, b) || !c.ledgers(a, b) {
		return
	}
	if eq > 0 && a.Head != ha || eq < 0 && b.Head != hb {
		c.fail("better-disturbed", "the node with more work changed its head", nil)
		return
	}
	rep.Eval(fmt.Sprint("pair", eq, c.w.All.Blocks[base].Height > 0, c.w.All.Blocks[ta].Height, c.w.All.Blocks[tb].Height))
	rep.Sample(map[string]any{"case": c.id, "log": c.log, "heads": short(a.Head)})
	// and the link stays usable: a further block at either side arrives at the other
	for k := 0; k < 1+r.Intn(3); k++ {
		n := []*vnode.NetNode{a, b}[r.Intn(2)]
		c.offer(n, c.grow(n.Head, 1, c.maxTxs()))
		if !c.settled("pair-follow", c.best(), a, b) {
			return
		}
		rep.Eval("follow")
	}
	c.ledgers(a, b)
}

// long: chains of hundreds of blocks, or blocks of hundreds of dependent transactions.
func (c *nw) long(i int) {
	r := c.r
	var base, ta, tb H
	if i%4 == 3 { // apart by more than a thousand blocks
		c.p.BlockTargetTime, c.p.MaxTarget, c.p.OriginalTarget = 10, vmodel.Hex(vmodel.MaxT), vmodel.Hex(vmodel.MaxT)
		c.w = vmodel.NewWorld(c.p, r, c.w.Now)
		base = c.growLong(H{}, 1+r.Intn(20))
		ta = c.growLong(base, 1010+r.Intn(300))
		tb = base
		if i%8 == 7 {
			tb = c.growLong(base, 500+r.Intn(1000))
		}
	} else if i%8 == 5 { // a block of thousands
		base = c.many(vlib.N(2500, 3500))
		b := c.w.Full(base, c.w.SpendParts(base))
		c.w.Register(b)
		ta = b.Id
		tb = c.grow(base, r.Intn(2), 3)
	} else if i%2 == 0 {
		base = c.grow(H{}, r.Intn(60), 1)
		ta, tb = c.grow(base, 30+r.Intn(300), 1), c.grow(base, r.Intn(200), 1)
	} else {
		c.p.MaxBlockVSize, c.p.BlockReward = 60000+uint64(r.Intn(60000)), 1<<50
		c.w = vmodel.NewWorld(c.p, r, c.w.Now)
		base = c.grow(H{}, 1, 0)
		ta = base
		for k := 0; k < 3; k++ {
			ta = c.grow(ta, 1, 200)
		}
		tb = c.grow(base, r.Intn(3), 30)
	}
	a := c.add(vnode.NetParams{Listen: true, MaxPeers: 4, Seek: time.Hour})
	b := c.add(vnode.NetParams{MaxPeers: 4, Seek: time.Hour, Seeds: []string{c.link(a)}})
	if r.Intn(2) == 0 {
		ta, tb = tb, ta
	}
	if !c.load(a, ta) || !c.load(b, tb) {
		return
	}
	a.Join()
	b.Join()
	if !c.settled("long", c.best(), a, b) || !c.ledgers(a, b) {
		return
	}
	mx := 0
	for _, bu := range c.bundles(base, a.Head) {
		mx = max(mx, len(bu.Txs))
	}
	rep.Eval(fmt.Sprint("long", i))
	rep.Seen("long_shapes", fmt.Sprint(c.w.All.Blocks[ta].Height, c.w.All.Blocks[tb].Height, mx))
}

// growLong makes a long branch of small blocks, keeping only the first and the last ledgers.
func (c *nw) growLong(parent H, n int) H {
	now := c.w.Now
	c.w.Now = now - 40000000 // leaves room below the present for that many block times
	defer func() { c.w.Now = now }()
	var recent []H
	for k := 0; k < n; k++ {
		parent = c.grow(parent, 1, c.r.Intn(2))
		if recent = append(recent, parent); len(recent) > 20 {
			delete(c.w.Led, recent[0])
			recent = recent[1:]
		}
	}
	return parent
}

// mesh: several nodes, blocks found at any of them at any time.
func (c *nw) mesh() {
	r := c.r
	n := 3 + r.Intn(3)
	discover := r.Intn(2) == 0
	seek := time.Hour
	if discover {
		seek = 200 * time.Millisecond
	}
	shape := r.Intn(3)
	edges := 0
	for i := 0; i < n; i++ {
		seeds := []string{}
		if i > 0 {
			switch shape {
			case 0: // line
				seeds = append(seeds, c.link(c.nodes[i-1]))
			case 1: // star
				seeds = append(seeds, c.link(c.nodes[0]))
			default: // random tree plus chords
				seeds = append(seeds, c.link(c.nodes[r.Intn(i)]))
				if r.Intn(2) == 0 {
					seeds = append(seeds, c.nodes[r.Intn(i)].Addr)
				}
			}
			edges += len(seeds)
		}
		c.add(vnode.NetParams{Listen: true, MaxPeers: 8, Seek: seek, Seeds: seeds})
	}
	base := c.grow(H{}, r.Intn(5), 3)
	for _, nd := range c.nodes {
		if r.Intn(3) > 0 && !c.load(nd, base) {
			return
		}
	}
	for _, nd := range c.nodes {
		nd.Join()
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
	}
	rounds := 2 + r.Intn(4)
	for k := 0; k < rounds; k++ {
		burst := 1 + r.Intn(4)
		for j := 0; j < burst; j++ {
			i := r.Intn(n)
			nd := c.nodes[i]
			nd.DrainHeads()
			from := nd.Head
			if bi := c.w.All.Blocks[from]; bi.Height > 2 && r.Intn(4) == 0 {
				from = c.w.All.Anc(from, uint64(1+r.Intn(2))) // a fork
			}
			t := c.grow(from, 1+r.Intn(3), c.maxTxs())
			c.note("offer %s (height %d) at node %d", short(t), c.w.All.Blocks[t].Height, i)
			c.offer(nd, t)
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
			}
		}
		if r.Intn(2) == 0 || k == rounds-1 {
			if !c.settled("mesh", c.best(), c.nodes...) || !c.ledgers(c.nodes...) {
				return
			}
			rep.Eval(fmt.Sprint("mesh", n, shape, discover, burst))
		}
	}
}

// partition: two groups joined by one link that is cut while both go on.
func (c *nw) partition() {
	r := c.r
	seek := 150 * time.Millisecond
	hub := c.add(vnode.NetParams{Listen: true, MaxPeers: 8, Seek: time.Hour})
	rel := vnode.NewRelay(hub.Addr, nil)
	left := []*vnode.NetNode{hub}
	for i := 0; i < r.Intn(2); i++ {
		left = append(left, c.add(vnode.NetParams{MaxPeers: 8, Seek: time.Hour, Seeds: []string{hub.Addr}}))
	}
	right := []*vnode.NetNode{}
	for i := 0; i < 1+r.Intn(3); i++ {
		right = append(right, c.add(vnode.NetParams{MaxPeers: 8, Seek: seek, Seeds: []string{rel.Addr}}))
	}
	for _, n := range c.nodes {
		n.Join()
		if n == hub {
			time.Sleep(30 * time.Millisecond)
		}
	}
	c.offer(hub, c.grow(H{}, 1+r.Intn(4), 3))
	if !c.settled("partition-start", c.best(), c.nodes...) {
		return
	}
	for round := 0; round < 1+r.Intn(2); round++ {
		rel.Cut()
		var l, rt H
		for i, n := range append(append([]*vnode.NetNode{}, left...), right...) {
			n.DrainHeads()
			if i > 0 && i < len(left) && r.Intn(2) == 0 {
				continue
			}
			t := c.grow(n.Head, r.Intn(5), c.maxTxs())
			if t == n.Head {
				continue
			}
			c.note("node %d alone: %s height %d", i, short(t), c.w.All.Blocks[t].Height)
			c.offer(n, t)
			if i < len(left) {
				l = t
			} else {
				rt = t
			}
		}
		_, _ = l, rt
		time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
		for _, n := range c.nodes {
			if err := n.Barrier(); err != nil {
				c.stuck(err)
				return
			}
		}
		rel.Heal()
		if !c.settled("partition", c.best(), c.nodes...) || !c.ledgers(c.nodes...) {
			return
		}
		rep.Eval(fmt.Sprint("partition", len(left), len(right), round))
	}
}

// chainPeer is an honest scripted peer holding a chain.
func (c *nw) chainPeer(n *vnode.NetNode, tip H) *vwire.Peer {
	p, v, err := vwire.DialPeer(n.Addr, "", fmt.Sprintf("scripted-%d", c.r.Int63()), c.p, 60*time.Second)
	if err != nil || v != "continue" {
		rep.Inconclusive("%s: no handshake: %v %q", c.id, err, v)
		c.dead = true
		return nil
	}
	p.Give(c.bundles(H{}, tip)...)
	p.SetHead(tip)
	return p
}

func (c *nw) waitListen(n *vnode.NetNode) bool {
	return vlib.Eventually(60*time.Second, func() bool {
		p, v, err := vwire.DialPeer(n.Addr, "", fmt.Sprintf("probe-%d", c.r.Int63()), c.p, 20*time.Second)
		if err != nil {
			return false
		}
		p.C.W(vwire.Str("cmd:close"))
		p.C.Close()
		return v == "continue"
	})
}

// earlier: offers that failed before must not keep a node from the valid chain.
func (c *nw) earlier() {
	r := c.r
	base := c.grow(H{}, r.Intn(6), 4)
	good := c.grow(base, 1+r.Intn(6), c.maxTxs())
	own := c.grow(base, r.Intn(3), 2)
	if c.work(own).Cmp(c.work(good)) >= 0 {
		own = base
	}
	v := c.add(vnode.NetParams{Listen: true, MaxPeers: 6, Seek: time.Hour})
	if !c.load(v, own) {
		return
	}
	v.Join()
	if !c.waitListen(v) {
		rep.Inconclusive("%s: no listener", c.id)
		return
	}
	kind := []string{"bad-tip", "bad-tip", "bad-tip-long", "cut-entities", "wrong-entity", "bus-bad-tip", "bus-no-head", "loose"}[r.Intn(8)]
	c.note("base %d own %d good %d; first %s", c.w.All.Blocks[base].Height, c.w.All.Blocks[own].Height, c.w.All.Blocks[good].Height, kind)
	var mut *vmodel.Bundle
	mk := ""
	if kind == "bad-tip" || kind == "bad-tip-long" || kind == "bus-bad-tip" {
		ks := []string{"cb+1", "cb-1", "spent-on-branch", "same-utxo-two-txs", "minblock=h+1", "cb-height+1", "never-created", "dup-input", "time-0", "replay-tx", "size=max+1"}
		for k := 0; k < 20 && mut == nil; k++ {
			mk = ks[r.Intn(len(ks))]
			mut = c.w.Mutant(mk, good)
			if mut != nil {
				if vd, _ := c.judge(mut); vd != vmodel.Bad {
					c.w.Register(mut)
					if c.w.Led[mut.Id].Err == "" {
						mut = nil
					}
				} else {
					c.w.Register(mut)
				}
			}
		}
		if mut == nil {
			return
		}
		c.note("invalid tip %s (%s) on the valid chain", short(mut.Id), mk)
	}
	switch kind {
	case "bad-tip", "bad-tip-long", "cut-entities", "wrong-entity":
		tip := good
		if mut != nil {
			tip = mut.Id
			if kind == "bad-tip-long" {
				// blocks on top of the bad one
				for k := 0; k < 1+r.Intn(2); k++ {
					b := c.w.Assemble(tip, []coreTx{c.w.Coinbase(c.w.All.Blocks[tip].Height+1, c.p.BlockReward)}, c.w.BlockTarget(tip), c.w.BlockTime(tip))
					c.w.Register(b)
					tip = b.Id
				}
			}
		}
		p := c.chainPeer(v, tip)
		if p == nil {
			return
		}
		cut := r.Intn(6)
		if kind == "cut-entities" || kind == "wrong-entity" {
			p.Serve = func(id H) [][]byte {
				if cut--; cut < 0 {
					if kind == "wrong-entity" {
						cut = 1 << 30
						return [][]byte{vwire.Bool(false), make([]byte, 64)}
					}
					p.C.C.Close()
					return [][]byte{{0}}
				}
				return nil
			}
		}
		p.Start()
		p.SyncNow()
		vlib.Eventually(30*time.Second, func() bool { return p.Count("sync", H{}) > 0 || p.Done() })
		if r.Intn(2) == 0 {
			p.Stop()
		}
	case "bus-bad-tip":
		v.Bus.CandidateHead.Pub(vnode.Event(mut.Id, append(c.bundles(H{}, good), mut)...))
	case "bus-no-head":
		v.Bus.CandidateHead.Pub(vnode.Event(c.w.RandH(), c.bundles(H{}, good)...))
	case "loose":
		for _, b := range c.bundles(base, good) {
			for _, t := range b.Txs {
				v.Submit(t)
			}
		}
	}
	if err := v.Barrier(); err != nil {
		c.stuck(err)
		return
	}
	v.DrainHeads()
	c.note("after that the node is at height %d", c.w.All.Blocks[v.Head].Height)
	h := c.add(vnode.NetParams{MaxPeers: 4, Seek: time.Hour, Seeds: []string{v.Addr}})
	if !c.load(h, good) {
		return
	}
	want := c.work(good)
	if c.work(v.Head).Cmp(want) > 0 {
		c.fail("illegal-head", "the node adopted an invalid chain", nil)
		return
	}
	h.Join()
	if !c.settled("earlier-"+kind, want, v, h) || !c.ledgers(v, h) {
		return
	}
	rep.Eval(fmt.Sprint("earlier", kind, mk))
}

// judge: would the block be accepted where its parent chain is known?
func (c *nw) judge(b *vmodel.Bundle) (vmodel.Verdict, string) {
	m := vmodel.NewInv(c.p)
	for _, x := range append(c.bundles(H{}, b.Parent), b) {
		for _, t := range x.Txs {
			if v, why := m.CheckTx(t); v == vmodel.Bad {
				return v, why
			}
			m.AddTx(t)
		}
		for _, k := range x.Merkles {
			if v, why := m.CheckMerkle(k); v == vmodel.Bad {
				return v, why
			}
			m.AddMerkle(k)
		}
		if v, why := m.CheckBlock(x.Block, c.w.Now); v != vmodel.OK {
			return v, why
		}
		m.AddBlock(x.Block)
	}
	return vmodel.OK, ""
}

// race: a head is published while the two nodes are just meeting.
func (c *nw) race() {
	r := c.r
	base := c.grow(H{}, r.Intn(4), 2)
	a := c.add(vnode.NetParams{Listen: true, MaxPeers: 4, Seek: time.Hour})
	b := c.add(vnode.NetParams{MaxPeers: 4, Seek: time.Hour, Seeds: []string{a.Addr}})
	if !c.load(a, base) || r.Intn(2) == 0 && !c.load(b, base) {
		return
	}
	a.Join()
	if !c.waitListen(a) {
		rep.Inconclusive("%s: no listener", c.id)
		return
	}
	n := []*vnode.NetNode{a, b}[r.Intn(2)]
	n.DrainHeads()
	t := c.grow(n.Head, 1+r.Intn(3), 2)
	if c.work(t).Cmp(c.work(base)) <= 0 {
		t = c.grow(base, 1, 2)
	}
	d1, d2 := time.Duration(r.Intn(40))*time.Millisecond, time.Duration(r.Intn(40))*time.Millisecond
	if r.Intn(2) == 0 {
		d1 = 0
	}
	c.note("block at %v, connect at %v", d1, d2)
	done := make(chan bool)
	go func() { time.Sleep(d2); b.Join(); done <- true }()
	time.Sleep(d1)
	c.offer(n, t)
	<-done
	if !c.settled("race", c.best(), a, b) {
		return
	}
	rep.Eval(fmt.Sprint("race", n == a, d1 < d2, d1/5, d2/5))
}

// script: a node against a scripted peer that follows the protocol exactly and checks every byte.
func (c *nw) script() {
	r := c.r
	base := c.grow(H{}, r.Intn(6), c.maxTxs())
	mine := c.grow(base, r.Intn(6), c.maxTxs())
	its := c.grow(base, r.Intn(6), c.maxTxs())
	n := c.add(vnode.NetParams{Listen: true, MaxPeers: 4, Seek: time.Hour})
	if !c.load(n, its) {
		return
	}
	n.Join()
	if !c.waitListen(n) {
		rep.Inconclusive("%s: no listener", c.id)
		return
	}
	p := c.chainPeer(n, mine)
	if p == nil {
		return
	}
	p.Start()
	c.tip[nil] = append(c.tip[nil], mine)
	if r.Intn(2) == 0 {
		p.SyncNow()
	} else {
		// nothing is said until the node has a new head to tell about
		t := c.grow(n.Head, 1, 3)
		c.offer(n, t)
	}
	check := func(what string) bool {
		want := c.best()
		ok := vlib.Eventually(settleLimit, func() bool {
			n.DrainHeads()
			if _, bad := n.Crashed(); bad {
				return true
			}
			return p.Done() || c.work(n.Head).Cmp(want) == 0 && c.work(p.Head()).Cmp(want) == 0
		})
		if c.anyCrash() {
			return false
		}
		if p.Done() {
			c.fail("session-broken", "a session with a peer that follows the protocol ended", tail(p.Log()))
			return false
		}
		if !ok {
			c.fail("not-converged:"+what, fmt.Sprintf("node at work %v, peer at %v, best is %v", c.work(n.Head), c.work(p.Head()), want), tail(p.Log()))
			return false
		}
		return c.ledgers(n)
	}
	if !check("script") {
		return
	}
	rep.Eval(fmt.Sprint("script", c.work(mine).Cmp(c.work(its)), c.w.All.Blocks[mine].Height, c.w.All.Blocks[its].Height))
	for k := 0; k < 4; k++ {
		switch r.Intn(3) {
		case 0:
			c.offer(n, c.grow(n.Head, 1+r.Intn(3), c.maxTxs()))
		case 1:
			t := c.grow(p.Head(), 1+r.Intn(3), c.maxTxs())
			p.Give(c.bundles(H{}, t)...)
			p.SetHead(t)
			c.tip[nil] = append(c.tip[nil], t)
			p.SyncNow()
		case 2: // both at once
			t := c.grow(p.Head(), 1+r.Intn(2), c.maxTxs())
			u := c.grow(n.Head, 1+r.Intn(2), c.maxTxs())
			p.Give(c.bundles(H{}, t)...)
			c.offer(n, u)
			time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
			c.tip[nil] = append(c.tip[nil], t)
			p.Do(func() {
				if c.work(p.Head()).Cmp(c.work(t)) < 0 {
					p.SetHead(t)
				}
			})
			p.SyncNow()
		}
		if !check("script-follow") {
			return
		}
		rep.Eval("script-follow")
	}
	p.Stop()
}

func tail(l []vwire.Event) []string {
	if len(l) > 12 {
		l = l[len(l)-12:]
	}
	out := []string{}
	for _, e := range l {
		out = append(out, fmt.Sprintf("%s %s %s %s", e.Kind, short(e.Id), e.Addr, e.Note))
	}
	return out
}
