//go:build go1.22

// ck_miner runs real miners beside a real chain and judges every solution they publish (C12).
package main

import (
	"fmt"
	"math/rand"
	"runtime/debug"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/miner"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type H = core.HashT

var rep = vlib.NewReport()

// progress bound: a miner looks for a new target every 2^20 hashes (a few seconds at most) and needs about
// 2^16 to solve one; this is some fifty times that.
const progress = 120 * time.Second

var hardest = vmodel.Hex("00007fffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")

type target struct {
	ev   bus.MinerTargetEvent
	want []H // copy taken at issue
	seen map[int]bool
}

type solution struct {
	ev bus.CandidateHeadEvent
}

type world struct {
	id     string
	w      *vmodel.World
	node   *vnode.Node
	solSub topic.Sub[bus.CandidateHeadEvent]
	pays   []H
	tgts   []*target
	known  map[H]core.Tx
	tips   map[H]bool
	solved int
	over   atomic.Bool
}

// leaves lists the leaf ids of the published tree, from the published nodes alone.
func leaves(root H, ms []core.MerkleNode) ([]H, error) {
	by := map[H]core.MerkleNode{}
	for _, m := range ms {
		by[vmodel.MerkleID(m)] = m
	}
	var out []H
	n := 0
	var walk func(id H)
	walk = func(id H) {
		if n++; n > 100000 {
			return
		}
		m, ok := by[id]
		if !ok {
			out = append(out, id)
			return
		}
		walk(m.LChild)
		if m.RChild != m.LChild {
			walk(m.RChild)
		}
	}
	walk(root)
	if _, ok := by[root]; !ok {
		return nil, fmt.Errorf("the merkle root is not among the published nodes")
	}
	return out, nil
}

func (x *world) bad(key, f string, a ...any) {
	rep.Violate(key, x.id, fmt.Sprintf(f, a...), nil)
}

// sync takes note of new targets; returns them.
func (x *world) sync() {
	for _, ev := range x.node.DrainTargets() {
		x.tgts = append(x.tgts, &target{ev: ev, want: append([]H{}, ev.TxIds...), seen: map[int]bool{}})
		rep.Count("targets", 1)
	}
}

// judge checks one published solution and reports which miner and target it belongs to.
func (x *world) judge(ev bus.CandidateHeadEvent) (*target, int, bool) {
	if len(ev.Blocks) != 1 || len(ev.Txs) != 1 {
		x.bad("shape", "a solution published %d blocks and %d transactions", len(ev.Blocks), len(ev.Txs))
		return nil, 0, false
	}
	b := ev.Blocks[0]
	cb := ev.Txs[0]
	if vmodel.BlockID(b) != ev.Head {
		x.bad("head", "announced head %s is not the id of the published block", ev.Head)
		return nil, 0, false
	}
	if !cb.IsCoinbase || len(cb.Outputs) != 1 || len(cb.Inputs) != 0 {
		x.bad("coinbase-shape", "the coinbase is %+v", cb)
		return nil, 0, false
	}
	who := -1
	for i, p := range x.pays {
		if cb.Outputs[0].PublicKeyHash == p {
			who = i
		}
	}
	if who < 0 {
		x.bad("payout", "the coinbase pays %s, no configured address", cb.Outputs[0].PublicKeyHash)
		return nil, 0, false
	}
	ls, err := leaves(b.MerkleRoot, ev.Merkles)
	if err != nil {
		x.bad("tree", "%v", err)
		return nil, 0, false
	}
	if len(ls) == 0 || ls[0] != vmodel.TxID(cb) {
		x.bad("coinbase-first", "the first transaction is not the published coinbase")
		return nil, 0, false
	}
	got := map[H]int{}
	for _, l := range ls[1:] {
		got[l]++
	}
	x.sync()
	var t *target
	fees := uint64(0)
	for i := len(x.tgts) - 1; i >= 0; i-- {
		c := x.tgts[i]
		if c.ev.Head != b.PrevBlockId || c.ev.Target != b.Target || len(c.want) != len(ls)-1 {
			continue
		}
		same := true
		for _, id := range c.want {
			if got[id] != 1 {
				same = false
			}
		}
		if same {
			t = c
			break
		}
	}
	if t == nil {
		x.bad("target", "the solution on %s with target %s and %d transactions answers no issued target", b.PrevBlockId, b.Target, len(ls)-1)
		return nil, 0, false
	}
	for _, id := range t.want {
		fees += vmodel.Fee(x.known[id]).Uint64()
	}
	if cb.Outputs[0].Value != x.w.P.BlockReward+fees {
		x.bad("amount", "the coinbase pays %d instead of reward %d plus fees %d", cb.Outputs[0].Value, x.w.P.BlockReward, fees)
	}
	h := x.w.All.Blocks[b.PrevBlockId].Height + 1
	if cb.MinBlock != h {
		x.bad("height", "the coinbase is for height %d instead of %d", cb.MinBlock, h)
	}
	if !vmodel.BlockID(b).Lt(b.Target) {
		x.bad("work", "id %s does not meet target %s", vmodel.BlockID(b), b.Target)
	}
	return t, who, true
}

func (x *world) register(ev bus.CandidateHeadEvent) *vmodel.Bundle {
	b := ev.Blocks[0]
	id := vmodel.BlockID(b)
	if old, ok := x.w.BunBy[id]; ok {
		return old
	}
	ls, _ := leaves(b.MerkleRoot, ev.Merkles)
	txs := []core.Tx{ev.Txs[0]}
	for _, l := range ls[1:] {
		txs = append(txs, x.known[l])
	}
	bn := &vmodel.Bundle{Block: b, Id: id, Txs: txs, Merkles: ev.Merkles, Parent: b.PrevBlockId}
	// the independent rules
	x.w.All.AddTx(ev.Txs[0])
	for _, m := range ev.Merkles {
		x.w.All.AddMerkle(m)
	}
	if v, why := x.w.All.CheckBlock(b, uint64(time.Now().Unix())); v == vmodel.Bad {
		x.bad("invalid-block", "the published block breaks the rules: %s (times: own %d, lowest allowed %d, clock %d)", why, b.MinedTime, x.w.All.MinTime(b.PrevBlockId), time.Now().Unix())
		return nil
	}
	x.w.Register(bn)
	if e := x.w.Led[id].Err; e != "" {
		x.bad("illegal-block", "the published block is not legal on its parent: %s", e)
		return nil
	}
	return bn
}

func minerParams(r *rand.Rand) core.Params {
	p := vmodel.RandParams(r)
	p.BlockReward = []uint64{50, 1000, 131072}[r.Intn(3)]
	// about 2^16 hashes a block, a little harder at times
	p.OriginalTarget = vmodel.Hex("0000ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
	p.MaxTarget = p.OriginalTarget
	p.BlockTargetTime = 1
	p.DifficultyPeriod = []uint64{4, 6, 16, 16}[r.Intn(4)]
	return p
}

// setup builds a world with a chain, a node on it and running miners; nil if that failed.
func setup(i int, id string, targets bool) (x *world, mode string, nm, n int, head H, chain []*vmodel.Bundle) {
	r := vlib.Rng(id)
	p := minerParams(r)
	now := uint64(time.Now().Unix())
	w := vmodel.NewWorld(p, r, now)
	x = &world{id: id, w: w, known: map[H]core.Tx{}}
	// times: long ago, all in one second, right now, or ahead of the clock (but within the hour)
	mode = []string{"past", "ahead", "now", "ahead-far"}[i%4]
	base := now - 100000
	switch mode {
	case "now":
		base = now - 3
	case "ahead":
		base = now + 300
	case "ahead-far":
		base = now + 2000
	}
	n = 3 + r.Intn(2*int(p.DifficultyPeriod))
	if p.DifficultyPeriod == 16 {
		n = 14 + r.Intn(4) // around the end of the period
	}
	if i%6 == 5 {
		n = 0 // mining the very first block
	}
	for k := 0; k < n; k++ {
		h := uint64(k + 1)
		led := w.Led[head]
		avail := map[core.Utxo]H{}
		for u, q := range led.Utxos {
			avail[u] = q
		}
		var body []core.Tx
		size := uint64(112)
		for len(body) < 4 {
			t, ok := w.RandTx(avail, h)
			if !ok || size+vmodel.TxVSize(t) > p.MaxBlockVSize {
				break
			}
			size += vmodel.TxVSize(t)
			body = append(body, t)
		}
		txs := append([]core.Tx{w.Coinbase(h, p.BlockReward+vmodel.FeeSum(body))}, body...)
		tm := w.All.MinTime(head)
		if tm < base {
			tm = base
		}
		tm += uint64(r.Intn(3))
		tgt, ok := w.All.NextTarget(head)
		if !ok {
			rep.Errorf("%s: the generator made a chain without next target", id)
			x = nil
			return
		}
		if tgt.Lt(hardest) {
			break
		}
		b := w.Assemble(head, txs, tgt, tm)
		w.Register(b)
		chain = append(chain, b)
		for _, t := range txs {
			x.known[vmodel.TxID(t)] = t
		}
		head = b.Id
	}
	x.node = vnode.New(p, targets, nil)
	x.solSub = x.node.Bus.CandidateHead.Sub()
	nm = 1 + (i/4)%3
	for k := 0; k < nm; k++ {
		x.pays = append(x.pays, vmodel.Keys(12)[k].Pkh)
	}
	// fed before the miners start, so that they get one coherent stream
	if n == 0 {
		x.node.Barrier()
	} else if hs, err := x.node.Offer(vnode.Event(head, chain...)); err != nil || len(hs) != 1 {
		rep.Errorf("%s: base chain not adopted: %v %d", id, err, len(hs))
		x = nil
		return
	}
	for x.solSub.Size() > 0 {
		x.solSub.Pop()
	}
	x.sync()
	for k := 0; k < nm; k++ {
		m := miner.NewMiner(miner.NewParams(x.pays[k]), x.node.Bus, x.node.Inv)
		k := k
		go func() {
			m.Loop() // has no way to stop short of a failure
			if !x.over.Load() {
				x.bad("ended", "miner %d of %d ended", k, nm)
			}
		}()
	}
	return
}

// stop ends the miners: they have no stop, but an impossible target (an unknown transaction) makes them end.
func (x *world) stop() {
	x.over.Store(true)
	x.node.Bus.MinerTarget.Pub(bus.MinerTargetEvent{TxIds: []H{vmodel.HU64(1)}})
}

// direct feeds miners a hand-made sequence of targets: lists that grow, shrink or change at the same length, heads that move on or back.
func direct(i int, id string) {
	x, mode, nm, n, head, _ := setup(i, id, false)
	if x == nil {
		return
	}
	defer x.stop()
	w, r := x.w, x.w.R
	heads := []H{head}
	if n == 0 {
		heads = []H{{}}
	} else if pb := w.BunBy[head].Parent; !pb.EqZero() {
		heads = append(heads, pb)
	}
	// transactions legal on each head
	pools := map[H][]core.Tx{}
	for _, h := range heads {
		for _, c := range vmodel.Coins(w.Led[h].Utxos) {
			if len(pools[h]) >= 9 || vmodel.KeyOf(w.Keys, c.Pkh) == nil || c.U.Value < 4 {
				continue
			}
			t := w.Spend([]vmodel.Coin{c}, 1+uint64(r.Intn(3)), 1+r.Intn(2), 0)
			if v, _ := w.All.CheckTx(t); v != vmodel.OK {
				continue
			}
			if _, err := x.node.Submit(t); err != nil {
				x.bad("node", "the node failed: %v", err)
				return
			}
			x.known[vmodel.TxID(t)] = t
			w.All.AddTx(t)
			pools[h] = append(pools[h], t)
		}
	}
	time.Sleep(300 * time.Millisecond) // the miners are subscribed by now
	cur := heads[0]
	var last []H
	for s := vlib.N(8, 24); s > 0; s-- {
		for burst := 1 + r.Intn(3)*r.Intn(2); burst > 0; burst-- {
			if r.Intn(4) == 0 {
				cur = heads[r.Intn(len(heads))]
			}
			pool := pools[cur]
			size := uint64(112)
			var ids []H
			how := r.Intn(4)
			want := r.Intn(len(pool) + 1)
			if how == 0 {
				want = min(len(last), len(pool)) // as many as before, others
			} else if how == 1 {
				want = min(len(pool), max(0, len(last)-1))
			}
			ids = make([]H, 0, want+r.Intn(3))
			for _, k := range r.Perm(len(pool)) {
				if len(ids) == want || size+vmodel.TxVSize(pool[k]) > w.P.MaxBlockVSize {
					break
				}
				size += vmodel.TxVSize(pool[k])
				ids = append(ids, vmodel.TxID(pool[k]))
			}
			last = ids
			tgt, ok := w.All.NextTarget(cur)
			if !ok || tgt.Lt(hardest) {
				rep.Count("direct_too_hard", 1)
				return
			}
			x.node.Bus.MinerTarget.Pub(bus.MinerTargetEvent{Head: cur, Target: tgt, TxIds: ids})
			if burst > 1 && r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
			}
		}
		if !vlib.Eventually(vnode.Limit, func() bool {
			x.sync()
			return len(x.tgts) > 0 && sameIds(x.tgts[len(x.tgts)-1].want, last) && x.tgts[len(x.tgts)-1].ev.Head == cur
		}) {
			rep.Errorf("%s: the harness does not see its own target", id)
			return
		}
		newest := x.tgts[len(x.tgts)-1]
		done := map[int]bool{}
		end := time.Now().Add(progress)
		for len(done) < nm {
			ev, ok := x.solSub.Pop()
			if !ok {
				if rep.Violated() {
					return
				}
				if why, c := x.node.Crashed(); c {
					x.bad("node", "the node failed while mining: %s", why)
					return
				}
				if time.Now().After(end) {
					x.bad("stopped", "only %d of %d miners published anything for the newest target (%d transactions, %s head) within %s", len(done), nm, len(newest.want), short(cur), progress)
					return
				}
				time.Sleep(2 * time.Millisecond)
				continue
			}
			if len(ev.Blocks) == 0 {
				continue
			}
			t, who, ok := x.judge(ev)
			if !ok || x.register(ev) == nil {
				return
			}
			rep.Count("solutions", 1)
			if t == newest || t.ev.Head == newest.ev.Head && sameIds(t.want, newest.want) {
				done[who] = true
			}
			rep.Eval(fmt.Sprintf("direct/%s/%d/%d/%v", mode, nm, len(t.want), t == newest))
		}
		for _, t := range x.tgts {
			if !sameIds(t.want, t.ev.TxIds) {
				x.bad("shared", "a miner changed the transaction list of a target shared with the other miners")
				return
			}
		}
	}
	rep.Count("direct_completed", 1)
}

func short(h H) string { return h.String()[:8] }

func sameIds(a, b []H) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func run(i int, id string) {
	x, mode, nm, _, head, chain := setup(i, id, true)
	if x == nil {
		return
	}
	defer x.stop()
	w, p, r := x.w, x.w.P, x.w.R
	// the targets so far were issued before the miners of this harness existed: with no transaction accepted below, no other would follow
	x.node.Barrier()
	x.sync()
	if len(x.tgts) > 0 {
		x.node.Bus.MinerTarget.Pub(x.tgts[len(x.tgts)-1].ev)
	}
	cur := head
	steps := vlib.N(3, 12)
	for s := 0; s < steps; s++ {
		if t, ok := w.All.NextTarget(cur); !ok || t.Lt(hardest) {
			break // proof of work would get too expensive
		}
		// submit some transactions: each accepted one issues a new target
		led := w.Led[cur]
		avail := map[core.Utxo]H{}
		for u, q := range led.Utxos {
			avail[u] = q
		}
		nt := r.Intn(7)
		for k := 0; k < nt; k++ {
			t, ok := w.RandTx(avail, w.All.Blocks[cur].Height+1)
			if !ok || t.IsCoinbase || len(t.Inputs) == 0 {
				break
			}
			v, _ := w.All.CheckTx(t)
			if v != vmodel.OK {
				continue
			}
			x.known[vmodel.TxID(t)] = t
			w.All.AddTx(t)
			if ans, err := x.node.Submit(t); err != nil {
				why, _ := x.node.Crashed()
				x.bad("node", "the node failed while mining: %v %s", err, why)
				return
			} else if ans == nil {
				rep.Count("pending_submitted", 1)
			}
		}
		x.sync()
		if len(x.tgts) == 0 {
			rep.Errorf("%s: no target issued", id)
			return
		}
		// wait until every miner has published a solution for a target issued from now on (or for the newest one)
		from := len(x.tgts) - 1
		done := map[int]bool{}
		end := time.Now().Add(progress)
		stuckOn := ""
		for len(done) < nm {
			ev, ok := x.solSub.Pop()
			if !ok {
				if why, c := x.node.Crashed(); c {
					x.bad("node", "the node failed while mining: %s", why)
					return
				}
				if rep.Violated() {
					return
				}
				if time.Now().After(end) {
					for k := 0; k < nm; k++ {
						if !done[k] {
							stuckOn += fmt.Sprint(k, " ")
						}
					}
					break
				}
				time.Sleep(2 * time.Millisecond)
				continue
			}
			if len(ev.Blocks) == 0 {
				continue // the harness's own barrier
			}
			t, who, ok := x.judge(ev)
			if !ok {
				return
			}
			bn := x.register(ev)
			if bn == nil {
				return
			}
			rep.Count("solutions", 1)
			rep.Seen("miner_states", fmt.Sprint(mode, nm, who, len(t.want), w.All.Blocks[bn.Id].Height%p.DifficultyPeriod))
			rep.Eval(fmt.Sprintf("%s/%d/%d/%d/%v", mode, nm, len(t.want), w.All.Blocks[bn.Id].Height%p.DifficultyPeriod, t.ev.Head == cur))
			for k := from; k < len(x.tgts); k++ {
				if x.tgts[k] == t {
					done[who] = true
				}
			}
			if x.tgts[len(x.tgts)-1].ev.Target.Lt(hardest) {
				break
			}
		}
		if tg := x.tgts[len(x.tgts)-1].ev.Target; stuckOn != "" && tg.Lt(hardest) {
			rep.Inconclusive("%s: target %s too hard for the bound", id, tg)
			return
		}
		if stuckOn != "" {
			x.bad("stopped", "miner(s) %sof %d published nothing for the newest target (head %s, %d transactions) within %s", stuckOn, nm, x.tgts[len(x.tgts)-1].ev.Head, len(x.tgts[len(x.tgts)-1].want), progress)
			return
		}
		// the node must have taken up a solution: its head is now one of them, with more work
		x.node.DrainHeads()
		ok := vlib.Eventually(vnode.Limit, func() bool {
			x.node.DrainHeads()
			return x.node.Head != cur && x.w.BunBy[x.node.Head] != nil || x.pump()
		})
		x.node.DrainHeads()
		if why, c := x.node.Crashed(); c {
			x.bad("node", "the node failed while mining: %s", why)
			return
		}
		if !ok || x.node.Head == cur {
			x.bad("not-adopted", "%d solutions on head %s were published, yet the node never moved", rep.Get("solutions"), cur)
			return
		}
		cur = x.node.Head
		x.solved++
		// targets as issued are not changed by the miners
		for _, t := range x.tgts {
			for k, idt := range t.want {
				if k >= len(t.ev.TxIds) || t.ev.TxIds[k] != idt {
					x.bad("shared", "a miner changed the transaction list of a target shared with the other miners")
					return
				}
			}
		}
	}
	// another node, given the whole chain afresh, adopts it
	other := vnode.New(p, false, nil)
	var path []*vmodel.Bundle
	for _, b := range w.All.Path(cur) {
		if bn := w.BunBy[b]; bn != nil {
			path = append(path, bn)
		}
	}
	if len(path) > 1 && w.All.Blocks[path[0].Id].Height > w.All.Blocks[path[len(path)-1].Id].Height {
		for a, b := 0, len(path)-1; a < b; a, b = a+1, b-1 {
			path[a], path[b] = path[b], path[a]
		}
	}
	hs, err := other.Offer(vnode.Event(cur, path...))
	if err != nil || len(hs) != 1 || hs[0] != cur {
		x.bad("other-node", "a second node does not adopt the mined chain of %d blocks: heads %v err %v", len(path), hs, err)
		return
	}
	rep.Count("worlds_completed", 1)
	if i < 2 {
		rep.Sample(map[string]any{"mode": mode, "miners": nm, "base_blocks": len(chain), "targets": len(x.tgts), "heads": len(x.node.Heads), "final_height": w.All.Blocks[cur].Height})
	}
}

// pump keeps judging solutions while waiting for the head; always false.
func (x *world) pump() bool {
	for ev, ok := x.solSub.Pop(); ok; ev, ok = x.solSub.Pop() {
		if len(ev.Blocks) == 0 {
			continue
		}
		if _, _, ok := x.judge(ev); ok {
			x.register(ev)
			rep.Count("solutions", 1)
		}
	}
	return false
}

func main() {
	debug.SetGCPercent(1000)
	defer rep.Finish()
	nw := vlib.N(12, 60)
	rep.Parallel("mine", nw, 4, run)
	rep.Parallel("direct", vlib.N(8, 40), 4, direct)
	if rep.Get("worlds_completed") == 0 && !rep.Violated() {
		rep.Errorf("no world completed")
	}
}
