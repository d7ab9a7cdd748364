//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
)

func newSim(id string, p core.Params) *sim {
	r := vlib.Rng(id)
	return &sim{id: id, w: vmodel.NewWorld(p, r, uint64(time.Now().Unix())), known: vmodel.NewInv(p),
		must: map[H]bool{}, may: map[H]bool{}, announced: map[H]int{}}
}

// start the node and look at it once.
func (s *sim) start(miners bool) bool {
	s.n = vnode.New(s.w.P, miners, nil)
	if err := s.n.Barrier(); err != nil {
		s.stepErr(err)
		return false
	}
	s.n.DrainTxs()
	s.targets(miners, false)
	s.snapshot()
	return !s.dead
}

// lengthen grows a branch by n blocks (or until it has more work than the given block), keeping only the last ledgers.
func (s *sim) lengthen(tip H, n int, beat H) H {
	now := s.w.Now
	s.w.Now = now - 40000000 // leaves room below the present for that many block times
	defer func() { s.w.Now = now }()
	var recent []H
	for k := 0; k < n; k++ {
		b := s.w.NextBlock(tip, nil, s.w.R.Intn(2))
		s.w.Register(b)
		for _, t := range b.Txs[1:] {
			s.addPool(t)
		}
		tip = b.Id
		recent = append(recent, tip)
		if len(recent) > 20 {
			delete(s.w.Led, recent[0])
			recent = recent[1:]
		}
		if !beat.EqZero() && s.w.All.Blocks[tip].Work.Cmp(s.w.All.Blocks[beat].Work) > 0 {
			break
		}
	}
	return tip
}

// deliver offers everything up to tip: at once, in large parts, or the head first by name.
func (s *sim) deliver(tip H, what string) {
	miss := s.missing(tip)
	r := s.w.R
	if r.Intn(3) == 0 {
		s.offer(vnode.Event(tip), what+"-named-only")
	}
	for len(miss) > 0 && !s.dead {
		k := len(miss)
		if r.Intn(2) == 0 {
			k = min(k, 1+r.Intn(600))
		}
		s.note("%s: %d of %d blocks, head %s", what, k, len(miss), short(miss[k-1].Id))
		s.offer(vnode.Event(miss[k-1].Id, miss[:k]...), what)
		miss = miss[k:]
	}
}

// long: chains and reorganisations of more than a thousand blocks.
func long(n, size, steps int) {
	rep.Parallel("long", n, 8, func(i int, id string) {
		r := vlib.Rng(id, "p")
		p := vmodel.RandParams(r)
		p.BlockReward = 1 << 30
		p.MaxTarget, p.OriginalTarget = vmodel.Hex(vmodel.MaxT), vmodel.Hex(vmodel.MaxT)
		p.BlockTargetTime = 10
		p.DifficultyPeriod = []uint64{4, 8, 128}[r.Intn(3)]
		s := newSim(id, p)
		if !s.start(true) {
			return
		}
		base := s.lengthen(H{}, 1+r.Intn(12), H{})
		s.deliver(base, "long-base")
		fork := s.w.Led[base]
		a := s.lengthen(base, size+r.Intn(size/4), H{})
		if s.dead {
			return
		}
		s.deliver(a, "long-main")
		for k := 0; k < 4 && !s.dead; k++ {
			s.submit()
		}
		if s.dead {
			return
		}
		s.w.Led[base] = fork
		b := s.lengthen(base, 3*size, a)
		s.deliver(b, "long-branch")
		for k := 0; k < 4 && !s.dead; k++ {
			s.submit()
		}
		if s.dead {
			return
		}
		s.w.Led[a] = s.w.All.LedgerAt(a)
		c := s.lengthen(a, 3*size, b)
		s.deliver(c, "long-back")
		if s.dead {
			return
		}
		rep.Max("longest_chain", int64(s.known.Blocks[s.head].Height))
		s.steps(steps)
		if vlib.Prop == "C15" && !s.dead {
			s.cmpIndex()
		}
		rep.Count("long_chains", 1)
		rep.Count("reorgs", int64(s.reorgs))
	})
}

// wide: thousands of transactions pending at once, and blocks that hold thousands.
func wide(n, count int) {
	rep.Parallel("wide", n, 4, func(i int, id string) {
		r := vlib.Rng(id, "p")
		p := core.Params{BlockReward: 1 << 40, DifficultyPeriod: 8, BlockTargetTime: 60, MaxBlockVSize: 1 << 24, MaxTxVSize: 60000,
			MaxTarget: vmodel.Hex(vmodel.MaxT), OriginalTarget: vmodel.Hex(vmodel.MaxT)}
		s := newSim(id, p)
		own := func(coins []vmodel.Coin, nOut int, fee uint64) core.Tx { // paid to keys of ours, even shares
			t := core.Tx{Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
			in := uint64(0)
			for _, c := range coins {
				t.Inputs = append(t.Inputs, core.TxIn{Utxo: c.U})
				in += c.U.Value
			}
			for k := 0; k < nOut; k++ {
				t.Outputs = append(t.Outputs, core.TxOut{Value: (in - fee) / uint64(nOut), PublicKeyHash: s.w.Keys[r.Intn(len(s.w.Keys))].Pkh})
			}
			vmodel.SignTx(&t, func(i int) *vmodel.Key { return vmodel.KeyOf(s.w.Keys, coins[i].Pkh) })
			return t
		}
		var chain []*vmodel.Bundle
		tip := H{}
		put := func(parent H, body []core.Tx) *vmodel.Bundle {
			h := s.w.All.Blocks[parent].Height + 1
			b := s.w.Assemble(parent, append([]core.Tx{s.w.Coinbase(h, p.BlockReward+vmodel.FeeSum(body))}, body...), s.w.BlockTarget(parent), s.w.BlockTime(parent))
			s.w.Register(b)
			return b
		}
		mine := func(l map[core.Utxo]H, least uint64) (out []vmodel.Coin) {
			for _, c := range vmodel.Coins(l) {
				if c.U.Value >= least && vmodel.KeyOf(s.w.Keys, c.Pkh) != nil {
					out = append(out, c)
				}
			}
			return
		}
		parts := 0
		for k := 0; parts < count; k++ {
			b := put(tip, nil)
			if cs := mine(s.w.Led[tip].Utxos, 1<<40); len(cs) > 0 {
				m := min(1300, count-parts)
				t := own(cs[:1], m, 7)
				delete(s.w.Led, b.Id)
				b = put(tip, []core.Tx{t})
				parts += m
			}
			tip = b.Id
			chain = append(chain, b)
		}
		base := tip
		// one spend of each part, some of them twice, now and then a chain of two
		var txs []core.Tx
		for k, c := range mine(s.w.Led[base].Utxos, 1<<20) {
			if c.U.Value >= 1<<40 {
				continue
			}
			t := own([]vmodel.Coin{c}, 1+r.Intn(2), 1+uint64(r.Intn(1<<16)))
			txs = append(txs, t)
			if k%50 == 0 {
				txs = append(txs, own([]vmodel.Coin{c}, 1, 1+uint64(r.Intn(1<<16))))
			}
			if k%70 == 0 {
				o := t.Outputs[0]
				txs = append(txs, own([]vmodel.Coin{{U: core.Utxo{TxId: vmodel.TxID(t), Value: o.Value}, Pkh: o.PublicKeyHash}}, 1, 5))
			}
		}
		// the blocks that take them, and the limit one of them reaches exactly
		take := func(parent H, m int) []core.Tx {
			var body []core.Tx
			avail := map[core.Utxo]bool{}
			for u := range s.w.Led[parent].Utxos {
				avail[u] = true
			}
			order := r.Perm(len(txs))
			sort.Ints(order[:len(order)/2])
			for _, x := range order {
				t := txs[x]
				if len(body) < m && avail[t.Inputs[0].Utxo] {
					delete(avail, t.Inputs[0].Utxo)
					body = append(body, t)
				}
			}
			return body
		}
		bodyA := take(base, count/2+r.Intn(count/4))
		a := put(base, bodyA)
		size := uint64(112)
		for _, t := range bodyA {
			size += vmodel.TxVSize(t)
		}
		p.MaxBlockVSize = size
		s.w.P, s.w.All.P, s.known = p, p, vmodel.NewInv(p)
		fits := func(body []core.Tx) []core.Tx {
			n := uint64(112)
			for k, t := range body {
				if n += vmodel.TxVSize(t); n > size {
					return body[:k]
				}
			}
			return body
		}
		// one more output makes it too large
		last := len(bodyA) - 1
		over := append(append([]core.Tx{}, bodyA[:last]...), own([]vmodel.Coin{{U: bodyA[last].Inputs[0].Utxo, Pkh: s.w.Led[base].Utxos[bodyA[last].Inputs[0].Utxo]}}, len(bodyA[last].Outputs)+1, 9))
		o := put(base, over)
		o.Label = "block-size+"
		if !s.start(is("C11", "C08")) {
			return
		}
		s.offer(vnode.Event(base, chain...), "wide-base")
		if s.dead || s.head != base {
			rep.Count("diverged", 1)
			return
		}
		r.Shuffle(len(txs), func(i, j int) { txs[i], txs[j] = txs[j], txs[i] })
		if is("C11", "C08") { // with a miner each submission costs a target: most come along with an event
			ev := vnode.Event(s.head)
			ev.Txs = txs[:len(txs)-min(150, len(txs))]
			sort.SliceStable(ev.Txs, func(i, j int) bool {
				return len(s.w.All.Txs[ev.Txs[i].Inputs[0].Utxo.TxId].Outputs) > len(s.w.All.Txs[ev.Txs[j].Inputs[0].Utxo.TxId].Outputs)
			})
			s.offer(ev, "wide-txs")
			if s.dead {
				return
			}
			s.bulk(txs[len(ev.Txs):])
		} else {
			s.bulk(txs)
		}
		if s.dead {
			return
		}
		rep.Max("most_pending", int64(len(txs)))
		s.offer(vnode.Event(o.Id, o), "wide-over")
		if s.dead {
			return
		}
		s.offer(vnode.Event(a.Id, a), "wide-full")
		if s.dead {
			return
		}
		b := put(a.Id, fits(take(a.Id, count)))
		s.offer(vnode.Event(b.Id, b), "wide-rest")
		if s.dead {
			return
		}
		rep.Max("most_txs_in_a_block", int64(max(len(a.Txs), len(b.Txs))))
		// a branch that takes few of them, and one that takes most again
		tip = base
		for k := 0; k < 6 && s.head != tip && !s.dead; k++ {
			c := put(tip, fits(take(tip, r.Intn(200))))
			tip = c.Id
			s.offer(vnode.Event(c.Id, c), "wide-branch")
		}
		for k := 0; k < 3 && !s.dead; k++ {
			c := put(s.head, fits(take(s.head, count/3)))
			s.offer(vnode.Event(c.Id, c), "wide-after")
		}
		if vlib.Prop == "C15" && !s.dead {
			s.cmpIndex()
		}
		rep.Count("wide_worlds", 1)
	})
}

// bulk submits many transactions together and judges the outcome once.
func (s *sim) bulk(txs []core.Tx) {
	type sub struct {
		t     core.Tx
		known bool
		v     vmodel.Verdict
		why   string
		ret   chan error
	}
	now := []*sub{}
	byId := map[H]*sub{}
	run := func() {
		if len(now) == 0 || s.dead {
			return
		}
		for _, x := range now {
			s.n.Bus.CandidateTx.Pub(bus.CandidateTxEvent{Ret: x.ret, Tx: x.t})
		}
		deadline := time.After(2 * time.Minute)
		answers := map[H]error{}
		for _, x := range now {
			select {
			case e := <-x.ret:
				answers[vmodel.TxID(x.t)] = e
			case <-deadline:
				s.stepErr(fmt.Errorf("no answers to %d submissions", len(now)))
				return
			}
		}
		if err := s.n.Barrier(); err != nil {
			s.stepErr(err)
			return
		}
		ann := map[H]int{}
		for _, a := range s.n.DrainTxs() {
			ann[a]++
			s.announced[a]++
			if byId[a] == nil && is("C10") {
				s.fail("announced-other", fmt.Sprintf("submitting others announced %s", a), nil)
				return
			}
		}
		fresh := false
		for id, x := range byId {
			acc, ans := s.n.Inv.HasTx(id), answers[id]
			rep.Count("submissions", 1)
			if acc && !x.known && x.v == vmodel.Bad {
				rep.Count("diverged", 1)
				s.dead = true
				return
			}
			if is("C10") {
				switch {
				case acc && !x.known && ann[id] != 1:
					s.fail("not-announced-once", fmt.Sprintf("newly accepted tx %s, one of %d, was announced %d times", id, len(now), ann[id]), nil)
				case !acc && ann[id] > 0:
					s.fail("announced-rejected", fmt.Sprintf("rejected tx %s was announced", id), nil)
				case (ans == nil) != acc:
					s.fail("answer", fmt.Sprintf("submission answered %v but the node knows it: %v", ans, acc), nil)
				case x.v == vmodel.OK && !acc:
					s.fail("valid-refused", fmt.Sprintf("valid transaction, one of %d, refused: %v", len(now), ans), x.t)
				}
				if s.dead {
					return
				}
			}
			if acc {
				fresh = true
				s.known.AddTx(x.t)
				s.must[id], s.may[id] = true, true
			}
		}
		s.note("submitted %d together", len(now))
		now, byId = now[:0], map[H]*sub{}
		s.snapshot()
		if s.dead {
			return
		}
		switch vlib.Prop {
		case "C09":
			s.cmpLedger("bulk")
		case "C10":
			s.cmpPending("bulk")
		}
		if s.dead {
			return
		}
		// the targets issued in between are for states in between: the last one counts
		ts := s.n.DrainTargets()
		if is("C11") {
			if fresh && len(ts) == 0 {
				s.fail("no-target", "no mining target after accepted transactions", nil)
				return
			}
			if len(ts) > 0 {
				s.lastTgt = &ts[len(ts)-1]
				s.judgeTarget(*s.lastTgt)
			}
		}
	}
	for _, t := range txs {
		id := vmodel.TxID(t)
		if byId[id] != nil {
			continue
		}
		_, known := s.known.Txs[id]
		v, why := s.known.CheckTx(t)
		if v == vmodel.Bad && !known { // needs one that is only just being submitted
			run()
			v, why = s.known.CheckTx(t)
		}
		x := &sub{t, known, v, why, make(chan error, 1)}
		now = append(now, x)
		byId[id] = x
	}
	run()
}
