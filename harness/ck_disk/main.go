//go:build go1.22

// ck_disk monitors restarts on a save directory (C16) and deaths at any file operation (C17).
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
)

type H = core.HashT

var rep = vlib.NewReport()

func main() {
	if len(os.Args) > 2 && os.Args[2] == "victim" {
		victim(os.Args[3], os.Args[4], os.Args[5])
		return
	}
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VX_LOG") == "" {
		os.Stdout = null
	}
	switch vlib.Prop {
	case "C16":
		records()
		restarts()
		damaged()
	case "C17":
		crashes()
		kills()
	default:
		rep.Errorf("unknown property %q", vlib.Prop)
	}
	rep.Finish()
}

// script makes the events a node is fed: extensions, side branches, reorganisations, transactions, refused chains.
type script struct {
	w    *vmodel.World
	tip  H // the chain being followed
	pool []core.Tx
	todo []step        // to be done next
	late func() []step // to be done half way
}

type step struct {
	kind  string // event, tx, restart
	ev    bus.CandidateHeadEvent
	tx    core.Tx
	note  string
	built []*vmodel.Bundle
	bad   bool // a candidate that must be refused
}

func newScript(id string) *script {
	r := vlib.Rng(id)
	p := vmodel.RandParams(r)
	if p.BlockReward < 1000 {
		p.BlockReward = 1000
	}
	return &script{w: vmodel.NewWorld(p, r, uint64(time.Now().Unix()))}
}

func newScriptWith(id string, p core.Params) *script {
	return &script{w: vmodel.NewWorld(p, vlib.Rng(id), uint64(time.Now().Unix()))}
}

// cut is how many blocks an event of parts has, or a multiple of it.
const cut = 250

// lengthen builds a branch of n blocks (or until it has more work than the given block) and makes it the tip; only the last ledgers are kept.
func (s *script) lengthen(tip H, n int, beat H) []*vmodel.Bundle {
	now := s.w.Now
	s.w.Now = now - 40000000 // leaves room below the present for that many block times
	defer func() { s.w.Now = now }()
	var out []*vmodel.Bundle
	var recent []H
	for k := 0; k < n && (beat.EqZero() || !s.better(tip, beat)); k++ {
		b := s.w.NextBlock(tip, nil, s.w.R.Intn(2))
		s.w.Register(b)
		tip = b.Id
		out = append(out, b)
		if k < 30 || (k+1)%cut == 0 {
			continue // branches start here, or an event ends
		}
		if recent = append(recent, tip); len(recent) > 40 {
			delete(s.w.Led, recent[0])
			recent = recent[1:]
		}
	}
	s.tip = tip
	return out
}

// bundles lists the blocks up to tip.
func (s *script) bundles(tip H) []*vmodel.Bundle {
	var out []*vmodel.Bundle
	for ; !tip.EqZero(); tip = s.w.BunBy[tip].Parent {
		out = append([]*vmodel.Bundle{s.w.BunBy[tip]}, out...)
	}
	return out
}

// parts delivers blocks as one event or several.
func (s *script) parts(bs []*vmodel.Bundle) []step {
	var out []step
	for len(bs) > 0 {
		k := len(bs)
		if s.w.R.Intn(2) == 0 {
			k = min(k, cut*(1+s.w.R.Intn(3)))
		}
		last := bs[k-1].Id
		out = append(out, step{kind: "event", ev: vnode.Event(last, bs[:k]...), note: fmt.Sprintf("%d blocks", k), built: bs[:k]})
		bs = bs[k:]
	}
	return out
}

// build appends n random legal blocks on parent.
func (s *script) build(parent H, n, maxTxs int) []*vmodel.Bundle {
	out := []*vmodel.Bundle{}
	for ; n > 0; n-- {
		b := s.w.NextBlock(parent, s.pool, maxTxs)
		s.w.Register(b)
		out = append(out, b)
		parent = b.Id
	}
	return out
}

// better reports whether a has strictly more work than b.
func (s *script) better(a, b H) bool {
	return s.w.All.Blocks[a].Work.Cmp(s.w.All.Blocks[b].Work) > 0
}

// refused makes a candidate with more work than the tip whose chain is broken in its last block or a little below.
func (s *script) refused() (step, bool) {
	r := s.w.R
	h := s.w.All.Blocks[s.tip].Height
	ks := append([]string{}, vmodel.Kinds["double"]...)
	ks = append(ks, "minblock=h+1", "replay-tx")
	var bs []*vmodel.Bundle
	at := s.tip
	if h >= 2 && r.Intn(2) == 0 {
		at = s.w.All.Anc(s.tip, uint64(1+r.Intn(2)))
	}
	for k := r.Intn(3); k > 0; k-- {
		bs = append(bs, s.build(at, 1, 3)...)
		at = bs[len(bs)-1].Id
		if s.better(at, s.tip) {
			return step{}, false
		}
	}
	kind := ks[r.Intn(len(ks))]
	b := s.w.Mutant(kind, at)
	if b == nil {
		return step{}, false
	}
	s.w.Register(b)
	if s.w.Led[b.Id].Err == "" {
		return step{}, false
	}
	bs = append(bs, b)
	for k := 0; k < 8 && !s.better(bs[len(bs)-1].Id, s.tip); k++ {
		c := s.w.NextBlock(bs[len(bs)-1].Id, nil, 2)
		s.w.Register(c)
		bs = append(bs, c)
	}
	last := bs[len(bs)-1].Id
	if !s.better(last, s.tip) {
		return step{}, false
	}
	rep.Count("refused_candidates", 1)
	return step{kind: "event", ev: vnode.Event(last, bs...), note: fmt.Sprintf("%d blocks to be refused (%s)", len(bs), kind), built: bs, bad: true}, true
}

func (s *script) next() step {
	if len(s.todo) > 0 {
		st := s.todo[0]
		s.todo = s.todo[1:]
		return st
	}
	r := s.w.R
	x := r.Intn(100)
	h := s.w.All.Blocks[s.tip].Height
	if x >= 90 {
		if st, ok := s.refused(); ok {
			return st
		}
	}
	switch {
	case h >= 3 && x < 14: // reorganisation
		at := s.w.All.Anc(s.tip, uint64(1+r.Intn(3)))
		bs := s.build(at, 1, 3)
		for i := 0; i < 8 && !s.better(bs[len(bs)-1].Id, s.tip); i++ {
			bs = append(bs, s.build(bs[len(bs)-1].Id, 1, 3)...)
		}
		last := bs[len(bs)-1].Id
		if s.better(last, s.tip) {
			s.tip = last
		}
		return step{kind: "event", ev: vnode.Event(last, bs...), note: fmt.Sprintf("branch of %d", len(bs)), built: bs}
	case h >= 2 && x < 22: // side branch
		at := s.w.All.Anc(s.tip, uint64(1+r.Intn(2)))
		bs := s.build(at, 1, 3)
		last := bs[0].Id
		if s.better(last, s.tip) {
			s.tip = last
		}
		return step{kind: "event", ev: vnode.Event(last, bs...), note: "side block", built: bs}
	case h >= 1 && x < 52: // a transaction
		avail := map[core.Utxo]H{}
		for u, p := range s.w.Led[s.tip].Utxos {
			avail[u] = p
		}
		for _, t := range s.pool {
			for _, in := range t.Inputs {
				if r.Intn(4) > 0 {
					delete(avail, in.Utxo)
				}
			}
		}
		if t, ok := s.w.RandTx(avail, h+1); ok {
			s.pool = append(s.pool, t)
			return step{kind: "tx", tx: t, note: "transaction " + vmodel.TxID(t).String()[:8]}
		}
	}
	n := 1
	if r.Intn(4) == 0 {
		n = 2 + r.Intn(2)
	}
	bs := s.build(s.tip, n, 4)
	s.tip = bs[len(bs)-1].Id
	return step{kind: "event", ev: vnode.Event(s.tip, bs...), note: fmt.Sprintf("extend by %d", n), built: bs}
}

func (s *script) pkhs() []H {
	out := []H{}
	for _, k := range s.w.Keys {
		out = append(out, k.Pkh)
	}
	return out
}

// thin drops from an event everything the node already knows, as a peer would when syncing.
func thin(ev bus.CandidateHeadEvent, known func(H) (block, merkle, tx bool)) bus.CandidateHeadEvent {
	out := bus.CandidateHeadEvent{Head: ev.Head, Blocks: []core.Block{}, Merkles: []core.MerkleNode{}, Txs: []core.Tx{}}
	for _, t := range ev.Txs {
		if _, _, k := known(vmodel.TxID(t)); !k {
			out.Txs = append(out.Txs, t)
		}
	}
	for _, m := range ev.Merkles {
		if _, k, _ := known(vmodel.MerkleID(m)); !k {
			out.Merkles = append(out.Merkles, m)
		}
	}
	for _, b := range ev.Blocks {
		if k, _, _ := known(vmodel.BlockID(b)); !k {
			out.Blocks = append(out.Blocks, b)
		}
	}
	return out
}

func invKnown(v *inv.Inv) func(H) (bool, bool, bool) {
	return func(h H) (bool, bool, bool) { return v.HasBlock(h), v.HasMerkle(h), v.HasTx(h) }
}

// cmpLedger compares what the node reports with the model's ledger at head.
func (s *script) cmpLedger(n *vnode.Node, head H) string {
	led := s.w.Led[head]
	txs := []H{}
	for id := range s.w.All.Txs {
		txs = append(txs, id)
	}
	v, err := n.Observe(s.pkhs(), txs)
	if err != nil {
		return "stuck: " + err.Error()
	}
	h := s.w.All.Blocks[head].Height
	if v.Height != h {
		return fmt.Sprintf("height %d, expected %d", v.Height, h)
	}
	want := 0
	for u, p := range led.Utxos {
		if vmodel.KeyOf(s.w.Keys, p) == nil {
			continue
		}
		want++
		if got, ok := v.Utxos[u]; !ok || got != p {
			return fmt.Sprintf("unspent output %s[%d] is missing", u.TxId, u.Ind)
		}
	}
	if len(v.Utxos) != want {
		return fmt.Sprintf("%d unspent outputs, expected %d", len(v.Utxos), want)
	}
	bal := led.Balances()
	for _, p := range s.pkhs() {
		w := uint64(0)
		if bal[p] != nil {
			w = bal[p].Uint64()
		}
		if v.Balances[p] != w {
			return fmt.Sprintf("balance of %s is %d, expected %d", p, v.Balances[p], w)
		}
	}
	if len(v.Incl) != len(led.Incl) {
		return fmt.Sprintf("%d transactions included, expected %d", len(v.Incl), len(led.Incl))
	}
	for t, b := range led.Incl {
		if v.Incl[t] != b {
			return fmt.Sprintf("transaction %s reported in block %s, expected %s", t, v.Incl[t], b)
		}
		if w := h - s.w.All.Blocks[b].Height + 1; v.Confirms[t] != w {
			return fmt.Sprintf("transaction %s has %d confirmations, expected %d", t, v.Confirms[t], w)
		}
	}
	return ""
}

// cmpRecords checks every entity the node says it has against what was generated. A missing one is reported only if must.
func (s *script) cmpRecords(v *inv.Inv, must func(H) bool) (seen int, bad string) {
	for id, t := range s.w.All.Txs {
		if !v.HasTx(id) {
			if must(id) {
				return seen, "transaction " + id.String() + " is gone"
			}
			continue
		}
		seen++
		if !vmodel.SameTx(v.GetTx(id), t) {
			return seen, fmt.Sprintf("transaction %s reads back altered: %+v instead of %+v", id, v.GetTx(id), t)
		}
		if v.GetTxVSize(id) != vmodel.TxVSize(t) {
			return seen, fmt.Sprintf("transaction %s has size %d, expected %d", id, v.GetTxVSize(id), vmodel.TxVSize(t))
		}
	}
	for id, m := range s.w.All.Merkles {
		if !v.HasMerkle(id) {
			if must(id) {
				return seen, "merkle node " + id.String() + " is gone"
			}
			continue
		}
		seen++
		if v.GetMerkle(id) != m {
			return seen, "merkle node " + id.String() + " reads back altered"
		}
		if v.GetMerkleVSize(id) != s.w.All.EntitySize(id) {
			return seen, fmt.Sprintf("merkle node %s has size %d, expected %d", id, v.GetMerkleVSize(id), s.w.All.EntitySize(id))
		}
	}
	for id, bi := range s.w.All.Blocks {
		if !v.HasBlock(id) {
			if id.EqZero() || must(id) {
				return seen, "block " + id.String() + " is gone"
			}
			continue
		}
		seen++
		if v.GetBlock(id) != bi.Block || v.GetBlockHeight(id) != bi.Height || vmodel.Big(v.GetBlockTotalWork(id)).Cmp(bi.Work) != 0 {
			return seen, fmt.Sprintf("block %s reads back altered: %+v height %d work %s instead of %+v height %d work %s",
				id, v.GetBlock(id), v.GetBlockHeight(id), v.GetBlockTotalWork(id), bi.Block, bi.Height, bi.Work)
		}
	}
	return seen, ""
}
