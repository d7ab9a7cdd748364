//go:build go1.22

package main

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/internal/verifx/vwire"
	"github.com/levilutz/basiccoin/pkg/core"
)

func spread() {
	rep.Parallel("flow", vlib.N(120, 1000), 10, func(i int, id string) { newNW(id).flow() })
	rep.Parallel("talk", vlib.N(180, 1500), 12, func(i int, id string) { newNW(id).talk(i%2 == 0) })
	rep.Parallel("lie", vlib.N(16, 200), 8, func(i int, id string) { newNW(id).lie() })
	rep.Parallel("revive", vlib.N(16, 200), 8, func(i int, id string) { newNW(id).revive() })
	rep.Parallel("burst", vlib.N(3, 30), 3, func(i int, id string) { newNW(id).burst(vlib.N(2400, 5000)) })
	rep.Parallel("fresh", 1, 1, func(i int, id string) { newNW(id).fresh() })
}

// funds makes a chain with plenty of coins.
func (c *nw) funds() H {
	c.p.MaxTxVSize = 1500
	c.p.BlockReward = 1 << 40
	c.w = vmodel.NewWorld(c.p, c.r, c.w.Now)
	return c.grow(H{}, 4+c.r.Intn(4), 3)
}

// chainTxs makes n valid transactions of which each may spend the ones before (in order).
func (c *nw) chainTxs(avail map[core.Utxo]H, height uint64, n int) []core.Tx {
	var out []core.Tx
	own := map[core.Utxo]H{}
	for len(out) < n {
		src := avail
		if len(own) > 0 && c.r.Intn(2) == 0 {
			src = own
		}
		t, ok := c.w.RandTx(src, height)
		if !ok {
			if len(own) == 0 || len(src) == len(own) {
				break
			}
			continue
		}
		out = append(out, t)
		id := vmodel.TxID(t)
		for i, o := range t.Outputs {
			if o.Value > 8 {
				own[core.Utxo{TxId: id, Ind: uint64(i), Value: o.Value}] = o.PublicKeyHash
			}
		}
	}
	return out
}

// split gives each of k parties coins of its own.
func (c *nw) split(tip H, k int) []map[core.Utxo]H {
	out := make([]map[core.Utxo]H, k)
	for i := range out {
		out[i] = map[core.Utxo]H{}
	}
	n := 0
	for _, co := range vmodel.Coins(c.w.Led[tip].Utxos) {
		if vmodel.KeyOf(c.w.Keys, co.Pkh) != nil && co.U.Value > 100 {
			out[n%k][co.U] = co.Pkh
			n++
		}
	}
	return out
}

func (c *nw) linked(nodes []*vnode.NetNode) bool {
	return vlib.Eventually(60*time.Second, func() bool {
		for _, n := range nodes {
			if c.anyCrash() {
				return true
			}
			n.DrainHeads()
			if n.Head != nodes[0].Head {
				return false
			}
		}
		return true
	})
}

// flow: transactions handed in anywhere reach everyone and are pending there.
func (c *nw) flow() {
	r := c.r
	tip := c.funds()
	n := 2 + r.Intn(4)
	shape := r.Intn(3)
	for i := 0; i < n; i++ {
		seeds := []string{}
		if i > 0 {
			k := 0
			switch shape {
			case 0:
				k = i - 1
			case 1:
			default:
				k = r.Intn(i)
			}
			seeds = append(seeds, c.link(c.nodes[k]))
			if shape == 2 && r.Intn(2) == 0 {
				seeds = append(seeds, c.nodes[r.Intn(i)].Addr)
			}
		}
		c.add(vnode.NetParams{Listen: true, MaxPeers: 8, Seek: time.Hour, Seeds: seeds, Miners: r.Intn(2) == 0})
	}
	// everybody gets the same chain over the network, which proves the links are up
	if !c.load(c.nodes[0], tip) {
		return
	}
	for _, nd := range c.nodes {
		nd.Join()
	}
	if !c.settled("spread-start", c.best(), c.nodes...) || !c.linked(c.nodes) {
		return
	}
	for _, nd := range c.nodes {
		nd.DrainTxs()
	}
	height := c.w.All.Blocks[tip].Height + 1
	parts := c.split(tip, n)
	type sub struct {
		n *vnode.NetNode
		t core.Tx
		k int
	}
	queues := make([][]sub, n)
	all := map[H]core.Tx{}
	for i, nd := range c.nodes {
		for _, t := range c.chainTxs(parts[i], height, r.Intn(6)) {
			queues[i] = append(queues[i], sub{nd, t, i})
			all[vmodel.TxID(t)] = t
		}
		if len(parts[i]) > 0 && r.Intn(3) == 0 { // and the same one handed to two nodes
			if t, ok := c.w.RandTx(parts[i], height); ok {
				j := r.Intn(n)
				queues[i] = append(queues[i], sub{nd, t, i})
				queues[j] = append(queues[j], sub{c.nodes[j], t, j})
				all[vmodel.TxID(t)] = t
			}
		}
	}
	done := make(chan error, n)
	pace := time.Duration(r.Intn(3)) * 12 * time.Millisecond
	for i := range queues {
		go func(q []sub) {
			for _, s := range q {
				a, err := s.n.Submit(s.t)
				if err != nil {
					done <- err
					return
				}
				if a != nil {
					done <- fmt.Errorf("refused %v", a)
					return
				}
				time.Sleep(pace)
			}
			done <- nil
		}(queues[i])
	}
	for range queues {
		if err := <-done; err != nil {
			if c.anyCrash() {
				return
			}
			// refusals of valid transactions are C10's business
			rep.Inconclusive("%s: %v", c.id, err)
			return
		}
	}
	ids := []H{}
	for id := range all {
		ids = append(ids, id)
	}
	seen := make([]map[H]int, n)
	ok := vlib.Eventually(settleLimit, func() bool {
		good := true
		for i, nd := range c.nodes {
			if _, bad := nd.Crashed(); bad {
				return true
			}
			if seen[i] == nil {
				seen[i] = map[H]int{}
			}
			for _, id := range nd.DrainTxs() {
				seen[i][id]++
			}
			for _, id := range ids {
				if !nd.Inv.HasTx(id) || seen[i][id] == 0 {
					good = false
				}
			}
		}
		return good
	})
	if c.anyCrash() {
		return
	}
	if !ok {
		miss := []string{}
		for i, nd := range c.nodes {
			for k := range queues {
				for j, s := range queues[k] {
					if !nd.Inv.HasTx(vmodel.TxID(s.t)) {
						miss = append(miss, fmt.Sprintf("node %d lacks tx %d accepted by node %d", i, j, k))
					}
				}
			}
		}
		c.note("shape %d, %d nodes, %d txs", shape, n, len(ids))
		c.fail("tx-lost", "an accepted transaction has not reached every connected node", miss)
		return
	}
	// pending everywhere: none of their inputs is offered for spending any more
	pk := []H{}
	for _, k := range c.w.Keys {
		pk = append(pk, k.Pkh)
	}
	for i, nd := range c.nodes {
		v, err := nd.Observe(pk, ids)
		if err != nil {
			c.stuck(err)
			return
		}
		for _, id := range ids {
			for _, in := range all[id].Inputs {
				if _, free := v.Free[in.Utxo]; free {
					c.fail("not-pending", fmt.Sprintf("node %d knows transaction %s but it is not pending there", i, short(id)), nil)
					return
				}
			}
			if seen[i][id] > 1 {
				c.fail("announced-again", fmt.Sprintf("node %d announced one transaction %d times", i, seen[i][id]), nil)
				return
			}
		}
		rep.Count("pending_checked", int64(len(ids)))
	}
	rep.Eval(fmt.Sprint("flow", n, shape, len(ids), pace))
	if len(ids) == 0 {
		return
	}
	// and a block made of them is taken up everywhere
	pool := []core.Tx{}
	for k := range queues {
		for _, s := range queues[k] {
			pool = append(pool, s.t)
		}
	}
	b := c.w.NextBlock(tip, pool, 10)
	c.w.Register(b)
	c.offer(c.nodes[r.Intn(n)], b.Id)
	if c.settled("spread-block", c.best(), c.nodes...) {
		c.ledgers(c.nodes...)
	}
}

// many makes a chain on which count outputs are ours to spend.
func (c *nw) many(count int) H {
	c.p.MaxTxVSize, c.p.MaxBlockVSize, c.p.BlockReward = 60000, 1<<20, 1<<40
	c.p.MaxTarget, c.p.OriginalTarget = vmodel.Hex(vmodel.MaxT), vmodel.Hex(vmodel.MaxT)
	c.w = vmodel.NewWorld(c.p, c.r, c.w.Now)
	return c.w.Many(count)
}

// burst: thousands of transactions handed in at once at both ends of a line of nodes; then blocks holding thousands.
func (c *nw) burst(count int) {
	r := c.r
	tip := c.many(count)
	n := 2 + r.Intn(2)
	for i := 0; i < n; i++ {
		seeds := []string{}
		if i > 0 {
			seeds = append(seeds, c.nodes[i-1].Addr)
		}
		c.add(vnode.NetParams{Listen: true, MaxPeers: 8, Seek: time.Hour, Seeds: seeds})
	}
	if !c.load(c.nodes[0], tip) {
		return
	}
	for _, nd := range c.nodes {
		nd.Join()
	}
	if !c.settled("burst-start", c.best(), c.nodes...) || !c.linked(c.nodes) {
		return
	}
	var txs []core.Tx
	ids := []H{}
	for _, t := range c.w.SpendParts(tip) {
		txs = append(txs, t)
		ids = append(ids, vmodel.TxID(t))
	}
	cut := len(txs)
	if r.Intn(2) == 0 {
		cut = r.Intn(len(txs))
	}
	for i, t := range txs {
		nd := c.nodes[0]
		if i >= cut {
			nd = c.nodes[n-1]
		}
		nd.Bus.CandidateTx.Pub(candTx(t, nil))
	}
	everywhere := func() bool {
		return vlib.Eventually(settleLimit, func() bool {
			for _, nd := range c.nodes {
				if _, bad := nd.Crashed(); bad {
					return true
				}
				for _, id := range ids {
					if !nd.Inv.HasTx(id) {
						return false
					}
				}
			}
			return true
		})
	}
	ok := everywhere()
	if c.anyCrash() {
		return
	}
	if !ok {
		miss := []int{}
		for _, nd := range c.nodes {
			k := 0
			for _, id := range ids {
				if !nd.Inv.HasTx(id) {
					k++
				}
			}
			miss = append(miss, k)
		}
		c.fail("burst-lost", fmt.Sprintf("of %d accepted transactions handed in at once some have not reached every node of a line (missing per node)", len(ids)), miss)
		return
	}
	pk := []H{}
	for _, k := range c.w.Keys {
		pk = append(pk, k.Pkh)
	}
	for i, nd := range c.nodes {
		v, err := nd.Observe(pk, nil)
		if err != nil {
			c.stuck(err)
			return
		}
		for k, t := range txs {
			if _, free := v.Free[t.Inputs[0].Utxo]; free {
				c.fail("not-pending", fmt.Sprintf("node %d knows transaction %s, one of %d, but it is not pending there", i, short(ids[k]), len(ids)), nil)
				return
			}
		}
		rep.Count("pending_checked", int64(len(ids)))
	}
	// a block with all that fit
	b := c.w.Full(tip, txs)
	c.w.Register(b)
	c.offer(c.nodes[r.Intn(n)], b.Id)
	if c.settled("burst-block", c.best(), c.nodes...) && c.ledgers(c.nodes...) {
		rep.Max("most_txs_at_once", int64(len(ids)))
		rep.Eval(fmt.Sprint("burst", n, cut < len(txs), len(b.Txs)))
	}
}

// revive: a whole network was restarted, so that nothing is pending any more; what is handed in again must become pending everywhere again.
func (c *nw) revive() {
	r := c.r
	tip := c.funds()
	n := 2 + r.Intn(3)
	height := c.w.All.Blocks[tip].Height + 2
	parts := c.split(tip, 2)
	its := c.chainTxs(parts[0], height, 1+r.Intn(6))
	dirs := make([]*string, n)
	for i := range dirs {
		d := filepath.Join(os.Getenv("VX_WORK"), strings.ReplaceAll(c.id, ":", "-"), fmt.Sprint(i))
		dirs[i] = &d
		defer os.RemoveAll(d)
		was := vnode.NewNet(c.p, vnode.NetParams{MaxPeers: 8, Seek: time.Hour, Dir: dirs[i]})
		c.nodes = append(c.nodes, was)
		if !c.load(was, tip) {
			return
		}
		if i > 0 && r.Intn(5) == 0 {
			continue // this one had none of them
		}
		for _, t := range its {
			if a, err := was.Submit(t); err != nil || a != nil {
				rep.Inconclusive("%s: %v %v", c.id, a, err)
				return
			}
		}
	}
	// those go; new ones come up on their directories
	c.nodes = nil
	for i := range dirs {
		seeds := []string{}
		if i > 0 {
			seeds = append(seeds, c.link(c.nodes[r.Intn(i)]))
		}
		c.add(vnode.NetParams{Listen: true, MaxPeers: 8, Seek: time.Hour, Seeds: seeds, Dir: dirs[i], Miners: r.Intn(3) == 0})
	}
	if !c.settled("revive-restart", c.work(tip), c.nodes...) {
		return
	}
	for _, nd := range c.nodes {
		nd.Join()
	}
	// a block that takes none of them shows that the links are up
	b := c.w.NextBlock(tip, nil, 0)
	c.w.Register(b)
	c.offer(c.nodes[0], b.Id)
	if !c.settled("revive-start", c.work(b.Id), c.nodes...) || !c.linked(c.nodes) {
		return
	}
	ids := []H{}
	at := c.nodes[r.Intn(n)] // all at one, as they may depend on each other
	for _, t := range its {
		ids = append(ids, vmodel.TxID(t))
		if a, err := at.Submit(t); err != nil || a != nil {
			rep.Inconclusive("%s: %v %v", c.id, a, err)
			return
		}
	}
	seen := make([]map[H]int, n)
	for i := range seen {
		seen[i] = map[H]int{}
	}
	ok := vlib.Eventually(settleLimit, func() bool {
		good := true
		for i, nd := range c.nodes {
			if _, bad := nd.Crashed(); bad {
				return true
			}
			for _, id := range nd.DrainTxs() {
				seen[i][id]++
			}
			for _, id := range ids {
				good = good && seen[i][id] > 0
			}
		}
		return good
	})
	if c.anyCrash() {
		return
	}
	if !ok {
		c.fail("revive-lost", "after a restart of the whole network a transaction accepted by one node has not become pending on another that had it stored", nil)
		return
	}
	pk := []H{}
	for _, k := range c.w.Keys {
		pk = append(pk, k.Pkh)
	}
	for i, nd := range c.nodes {
		v, err := nd.Observe(pk, ids)
		if err != nil {
			c.stuck(err)
			return
		}
		for k, id := range ids {
			for _, in := range its[k].Inputs {
				if _, free := v.Free[in.Utxo]; free {
					c.fail("not-pending", fmt.Sprintf("node %d knows transaction %s but it is not pending there", i, short(id)), nil)
					return
				}
			}
			if seen[i][id] > 1 {
				c.fail("announced-again", fmt.Sprintf("node %d announced one transaction %d times", i, seen[i][id]), nil)
				return
			}
		}
		rep.Count("pending_checked", int64(len(ids)))
	}
	rep.Eval(fmt.Sprint("revive", n, len(ids)))
}

// talk: a scripted peer and a node announce to each other, mostly at the same time.
func (c *nw) talk(weDial bool) {
	r := c.r
	tip := c.funds()
	var p *vwire.Peer
	np := vnode.NetParams{Listen: true, MaxPeers: 8, Seek: time.Hour}
	var l net.Listener
	if !weDial {
		var err error
		if l, err = net.Listen("tcp", vnode.FreshIP()+":0"); err != nil {
			panic(err)
		}
		defer l.Close()
		np.Listen = r.Intn(2) == 0
		np.Seeds = []string{l.Addr().String()}
	}
	n := c.add(np)
	if !c.load(n, tip) {
		return
	}
	n.Join()
	if weDial {
		if !c.waitListen(n) {
			rep.Inconclusive("%s: no listener", c.id)
			return
		}
		p = c.chainPeer(n, tip)
		if p == nil {
			return
		}
	} else {
		nc, err := l.Accept()
		if err != nil {
			panic(err)
		}
		cn := vwire.Wrap(nc, 60*time.Second)
		if v := cn.Handshake("scripted"); v != "continue" || cn.Err != nil {
			rep.Inconclusive("%s: handshake %q %v", c.id, v, cn.Err)
			return
		}
		p = vwire.NewPeer(cn, false, "scripted", c.p)
		p.Give(c.bundles(H{}, tip)...)
		p.SetHead(tip)
	}
	if r.Intn(3) == 0 {
		dr := vlib.Rng("talk-delay", c.id)
		p.Delay = func() { time.Sleep(time.Duration(dr.Intn(3)) * time.Millisecond) }
	}
	p.Start()
	if !p.Ping(60 * time.Second) {
		c.fail("session-broken", "the node did not answer a ping", tail(p.Log()))
		return
	}
	height := c.w.All.Blocks[tip].Height + 1
	parts := c.split(tip, 2)
	its := c.chainTxs(parts[0], height, 3+r.Intn(8))
	ours := c.chainTxs(parts[1], height, 3+r.Intn(8))
	both := []core.Tx{}
	if len(parts[0]) > 0 {
		if t, ok := c.w.RandTx(parts[0], height); ok {
			both = append(both, t)
		}
	}
	errs := make(chan error, 1)
	blocks := r.Intn(2) == 0
	nb := c.grow(tip, 1, 0)
	go func() {
		for k, t := range append(append([]core.Tx{}, its...), both...) {
			if blocks && k == 1 {
				c.offer(n, nb)
			}
			a, err := n.Submit(t)
			if err == nil {
				err = a
			}
			if err != nil {
				errs <- err
				return
			}
			time.Sleep(time.Duration(r.Intn(35)) * time.Millisecond)
		}
		errs <- nil
	}()
	pr := vlib.Rng("talk2", c.id)
	for _, t := range append(append([]core.Tx{}, ours...), both...) {
		if !p.HasTx(vmodel.TxID(t)) {
			p.GiveTx(t)
		}
		p.AnnounceTx(vmodel.TxID(t))
		switch pr.Intn(5) {
		case 0:
			p.Do(func() { p.Issue("ping", func() {}) })
		case 1:
			if blocks {
				p.SyncNow()
			}
		}
		time.Sleep(time.Duration(pr.Intn(35)) * time.Millisecond)
	}
	if err := <-errs; err != nil {
		if !c.anyCrash() {
			rep.Inconclusive("%s: %v", c.id, err)
		}
		return
	}
	ok := vlib.Eventually(settleLimit, func() bool {
		if p.Done() {
			return true
		}
		if _, bad := n.Crashed(); bad {
			return true
		}
		for _, t := range its {
			if !p.HasTx(vmodel.TxID(t)) {
				return false
			}
		}
		for _, t := range append(append([]core.Tx{}, ours...), both...) {
			if !n.Inv.HasTx(vmodel.TxID(t)) {
				return false
			}
		}
		return true
	})
	if c.anyCrash() {
		return
	}
	if p.Done() {
		c.fail("session-broken", "a session in which both sides announce transactions at once ended", tail(p.Log()))
		return
	}
	if !ok {
		c.fail("tx-lost", "a transaction announced over a link was lost", tail(p.Log()))
		return
	}
	if !p.Ping(60 * time.Second) {
		c.fail("session-broken", "the node no longer answers a ping", tail(p.Log()))
		return
	}
	if blocks && len(its)+len(both) > 1 && !vlib.Eventually(settleLimit, func() bool { return p.Head() == nb || p.Done() }) {
		c.fail("head-lost", "the node did not tell a peer about its new head among the transactions", tail(p.Log()))
		return
	}
	if !c.transfers(p) {
		return
	}
	// announcing again what the node has: not wanted
	for _, t := range append(append([]core.Tx{}, its...), ours...) {
		id := vmodel.TxID(t)
		k := len(p.Log())
		p.GiveTx(t)
		p.AnnounceTx(id)
		if !p.Ping(60 * time.Second) {
			c.fail("session-broken", "the node no longer answers", tail(p.Log()))
			return
		}
		for _, e := range p.Log()[k:] {
			if e.Kind == "offered" && e.Id == id && e.Want {
				c.fail("fetched-known", "the node fetched a transaction it already has", short(id))
				return
			}
		}
		rep.Count("known_offers", 1)
		if r.Intn(3) == 0 {
			break
		}
	}
	over := 0
	for _, e := range p.Log() {
		if e.Kind == "ack" && len(e.Note) > 0 && e.Note[len(e.Note)-1] == '+' {
			over++
		}
	}
	rep.Count("simultaneous_commands", int64(over))
	rep.Eval(fmt.Sprint("talk", weDial, len(its), len(ours), min(over, 5)))
	p.Stop()
}

// transfers judges every announcement and transfer a scripted peer saw.
func (c *nw) transfers(p *vwire.Peer) bool {
	for _, e := range p.Log() {
		switch e.Kind {
		case "tx":
			if vmodel.TxID(*e.Tx) != e.Id {
				c.fail("wrong-content", "the node sent other content than that of the id it announced", e)
				return false
			}
			rep.Count("transfers_judged", 1)
		case "odd":
			c.fail("protocol", "the node broke the protocol: "+e.Note, tail(p.Log()))
			return false
		}
	}
	return true
}

// lie: a peer that sends something else than it announced changes nothing.
func (c *nw) lie() {
	r := c.r
	tip := c.funds()
	n := c.add(vnode.NetParams{Listen: true, MaxPeers: 8, Seek: time.Hour})
	if !c.load(n, tip) {
		return
	}
	n.Join()
	if !c.waitListen(n) {
		rep.Inconclusive("%s: no listener", c.id)
		return
	}
	height := c.w.All.Blocks[tip].Height + 1
	txs := c.chainTxs(c.split(tip, 1)[0], height, 6)
	if len(txs) < 3 {
		return
	}
	claimed, sent := txs[0], txs[1]
	same := r.Intn(2) == 0
	if same { // same id claimed, one field different
		sent = claimed
		sent.MinBlock++
	}
	p := c.chainPeer(n, tip)
	if p == nil {
		return
	}
	id := vmodel.TxID(claimed)
	p.GiveTx(claimed)
	p.TxBytes = func(H) []byte { return vwire.Tx(sent) }
	p.Start()
	p.AnnounceTx(id)
	if !vlib.Eventually(60*time.Second, func() bool { return p.Count("offered", id) > 0 || p.Done() }) {
		rep.Inconclusive("%s: no answer", c.id)
		return
	}
	p.Stop()
	// an honest peer then brings the real one
	q := c.chainPeer(n, tip)
	if q == nil {
		return
	}
	q.GiveTx(claimed)
	q.Start()
	if err := n.Barrier(); err != nil {
		c.stuck(err)
		return
	}
	if n.Inv.HasTx(id) || n.Inv.HasTx(vmodel.TxID(sent)) {
		c.fail("wrong-content", "the node took content that is not that of the announced id", nil)
		return
	}
	q.AnnounceTx(id)
	if !vlib.Eventually(settleLimit, func() bool { return n.Inv.HasTx(id) || q.Done() }) || q.Done() {
		c.fail("tx-lost", "after a peer lied about a transaction an honest one could not deliver it", tail(q.Log()))
		return
	}
	rep.Eval(fmt.Sprint("lie", same))
	q.Stop()
}

// fresh: a transaction that spends an output of a block that is just spreading (the known finding K3).
func (c *nw) fresh() {
	tip := c.funds()
	a := c.add(vnode.NetParams{Listen: true, MaxPeers: 8, Seek: time.Hour})
	b := c.add(vnode.NetParams{MaxPeers: 8, Seek: time.Hour, Seeds: []string{a.Addr}})
	if !c.load(a, tip) {
		return
	}
	a.Join()
	b.Join()
	if !c.settled("fresh", c.best(), a, b) {
		return
	}
	lost := false
	for k := 0; k < 40 && !lost; k++ {
		blk := c.w.NextBlock(a.Head, nil, 0)
		for vmodel.KeyOf(c.w.Keys, blk.Txs[0].Outputs[0].PublicKeyHash) == nil {
			blk = c.w.NextBlock(a.Head, nil, 0)
		}
		c.w.Register(blk)
		cb := blk.Txs[0]
		coin := []vmodel.Coin{{U: core.Utxo{TxId: vmodel.TxID(cb), Value: cb.Outputs[0].Value}, Pkh: cb.Outputs[0].PublicKeyHash}}
		t := c.w.Spend(coin, 5, 1, 0)
		// an older coin for the marker
		var marker core.Tx
		for u, p := range c.w.Led[a.Head].Utxos {
			if u.Value > 1000 && vmodel.KeyOf(c.w.Keys, p) != nil {
				marker = c.w.Spend([]vmodel.Coin{{U: u, Pkh: p}}, uint64(5+k), 1, 0)
			}
		}
		if _, err := a.Offer(vnode.Event(blk.Id, blk)); err != nil {
			c.stuck(err)
			return
		}
		c.tip[a] = append(c.tip[a], blk.Id)
		if ans, err := a.Submit(t); err != nil || ans != nil {
			c.stuck(fmt.Errorf("%v %v", ans, err))
			return
		}
		if !c.settled("fresh", c.best(), a, b) {
			return
		}
		if ans, err := a.Submit(marker); err != nil || ans != nil {
			c.stuck(fmt.Errorf("%v %v", ans, err))
			return
		}
		if !vlib.Eventually(settleLimit, func() bool { return b.Inv.HasTx(vmodel.TxID(marker)) }) {
			c.fail("tx-lost", "a transaction was lost between two nodes", nil)
			return
		}
		rep.Eval("fresh")
		if !b.Inv.HasTx(vmodel.TxID(t)) {
			rep.Violate("fresh-output-lost", c.id, "a transaction that spends an output of a block which was just spreading overtook the block and was dropped", k)
			lost = true
		}
	}
}
