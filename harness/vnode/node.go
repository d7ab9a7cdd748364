//go:build go1.22

// Package vnode runs a real chain (and optionally more components) in-process and observes it over the bus.
package vnode

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

type H = core.HashT

// Limit is the watchdog of one synchronous step; its firing is inconclusive, never a verdict.
const Limit = 90 * time.Second

var sent atomic.Uint64

var ErrStuck = errors.New("node did not answer")

type Node struct {
	P       core.Params
	Bus     *bus.Bus
	Inv     *inv.Inv
	HeadSub topic.Sub[bus.ValidatedHeadEvent]
	TxSub   topic.Sub[bus.ValidatedTxEvent]
	TgtSub  topic.Sub[bus.MinerTargetEvent]
	Head    H // last announced
	Heads   []H
	crashMu sync.Mutex
	crash   string
	crashFn string
	crashed atomic.Bool
	gid     atomic.Int64
}

// New starts a real chain. Events published during construction (saved head) are processed before it returns if settle.
func New(p core.Params, miners bool, saveDir *string) *Node {
	b := bus.NewBus()
	return NewOn(b, p, miners, saveDir)
}

func NewOn(b *bus.Bus, p core.Params, miners bool, saveDir *string) *Node {
	n := &Node{P: p, Bus: b}
	n.HeadSub = b.ValidatedHead.Sub()
	n.TxSub = b.ValidatedTx.Sub()
	n.TgtSub = b.MinerTarget.Sub()
	n.Inv = inv.NewInv(p, saveDir)
	c := chain.NewChain(b, n.Inv, miners, saveDir)
	go n.runChain(c.Loop)
	return n
}

// Crashed reports whether the node's chain routine has failed, and where.
func (n *Node) Crashed() (string, bool) {
	if !n.crashed.Load() {
		return "", false
	}
	n.crashMu.Lock()
	defer n.crashMu.Unlock()
	return n.crashFn + ": " + vlib.Trunc(n.crash, 3000), true
}

func (n *Node) wait(cond func() bool) error {
	ok := vlib.Eventually(Limit, func() bool { return n.crashed.Load() || cond() })
	if n.crashed.Load() {
		return fmt.Errorf("crashed")
	}
	if !ok {
		return n.stuck()
	}
	return nil
}

func (n *Node) runChain(f func()) {
	b := make([]byte, 64)
	var id int64
	fmt.Sscanf(string(b[:runtime.Stack(b, false)]), "goroutine %d ", &id)
	n.gid.Store(id)
	n.guard(f)
}

// stuck tells a node that hangs inside its own code (which counts as failed) from one that was just not seen to answer.
func (n *Node) stuck() error {
	at := func() string {
		gid := n.gid.Load()
		buf := make([]byte, 64<<20)
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if !strings.HasPrefix(g, fmt.Sprintf("goroutine %d [", gid)) {
				continue
			}
			if strings.HasPrefix(g, fmt.Sprintf("goroutine %d [select", gid)) {
				return "" // waiting for work
			}
			for _, l := range strings.Split(g, "\n")[1:] {
				if strings.HasPrefix(l, "github.com/levilutz/basiccoin/") {
					return l[len("github.com/levilutz/basiccoin/"):] + "\n" + vlib.Trunc(g, 3000)
				}
			}
			return ""
		}
		return "internal/chain\nits routine has ended"
	}
	a := at()
	if a == "" || strings.HasPrefix(a, "internal/verifx") {
		return ErrStuck
	}
	time.Sleep(10 * time.Second)
	if b := at(); b == "" || strings.HasPrefix(b, "internal/verifx") {
		return ErrStuck
	}
	n.crashMu.Lock()
	defer n.crashMu.Unlock()
	fn, st, _ := strings.Cut(a, "\n")
	n.crashFn, n.crash = fn, "does not come back for "+fmt.Sprint(Limit)+"\n"+st
	n.crashed.Store(true)
	return fmt.Errorf("crashed")
}

// Barrier returns once every CandidateHead event published before has been processed.
func (n *Node) Barrier() error {
	k := sent.Add(1) // never the same twice, as a node with a save directory remembers
	s := core.Tx{IsCoinbase: true, MinBlock: 1<<63 + k, Inputs: []core.TxIn{}, Outputs: []core.TxOut{{Value: n.P.BlockReward, PublicKeyHash: vmodel.HU64(k)}}}
	id := vmodel.TxID(s)
	n.Bus.CandidateHead.Pub(bus.CandidateHeadEvent{Head: H{}, Txs: []core.Tx{s}, Blocks: []core.Block{}, Merkles: []core.MerkleNode{}})
	if err := n.wait(func() bool { return n.Inv.HasTx(id) }); err != nil {
		return err
	}
	// the sentinel's own handling ends after the store: one query round trip orders us after it
	_, err := n.Height()
	return err
}

// Offer publishes a candidate head and returns after it was processed. The announced heads since the last drain are returned.
func (n *Node) Offer(ev bus.CandidateHeadEvent) ([]H, error) {
	n.Bus.CandidateHead.Pub(ev)
	if err := n.Barrier(); err != nil {
		return n.DrainHeads(), err
	}
	return n.DrainHeads(), nil
}

func (n *Node) DrainHeads() []H {
	var out []H
	for e, ok := n.HeadSub.Pop(); ok; e, ok = n.HeadSub.Pop() {
		out = append(out, e.Head)
		n.Head = e.Head
		n.Heads = append(n.Heads, e.Head)
	}
	return out
}
func (n *Node) DrainTxs() []H {
	var out []H
	for e, ok := n.TxSub.Pop(); ok; e, ok = n.TxSub.Pop() {
		out = append(out, e.TxId)
	}
	return out
}
func (n *Node) DrainTargets() []bus.MinerTargetEvent {
	var out []bus.MinerTargetEvent
	for e, ok := n.TgtSub.Pop(); ok; e, ok = n.TgtSub.Pop() {
		out = append(out, e)
	}
	return out
}

func ask[T any](n *Node, ch chan T) (T, error) {
	var zero T
	t := time.NewTimer(Limit)
	defer t.Stop()
	tick := time.NewTicker(20 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case v := <-ch:
			return v, nil
		case <-tick.C:
			if n.crashed.Load() {
				return zero, fmt.Errorf("crashed")
			}
		case <-t.C:
			return zero, n.stuck()
		}
	}
}

// Submit offers a transaction and returns the node's answer.
func (n *Node) Submit(t core.Tx) (answer error, err error) {
	ret := make(chan error)
	n.Bus.CandidateTx.Pub(bus.CandidateTxEvent{Ret: ret, Tx: t})
	a, e := ask(n, ret)
	if e != nil {
		return nil, e
	}
	// the answer is sent after handling; a query round trip orders us after the whole step
	_, e = n.Height()
	return a, e
}

func (n *Node) Height() (uint64, error) {
	ret := make(chan uint64)
	n.Bus.HeadHeight.Pub(bus.HeadHeightQuery{Ret: ret})
	return ask(n, ret)
}

// View is everything the node reports about its ledger at one quiescent moment.
type View struct {
	Height   uint64
	Utxos    map[core.Utxo]H
	Free     map[core.Utxo]H // excluding those spent by pending transactions
	Balances map[H]uint64
	Rich     map[H]uint64
	Confirms map[H]uint64
	Incl     map[H]H
}

// Observe queries everything for the given addresses and transactions (queries are issued together).
func (n *Node) Observe(pkhs []H, txs []H) (*View, error) {
	v := &View{}
	cp := func(x []H) []H { return append([]H{}, x...) }
	hq := bus.HeadHeightQuery{Ret: make(chan uint64)}
	uq := bus.PkhUtxosQuery{Ret: make(chan map[core.Utxo]H), PublicKeyHashes: cp(pkhs)}
	fq := bus.PkhUtxosQuery{Ret: make(chan map[core.Utxo]H), PublicKeyHashes: cp(pkhs), ExcludeMempool: true}
	bq := bus.PkhBalanceQuery{Ret: make(chan map[H]uint64), PublicKeyHashes: cp(pkhs)}
	rq := bus.RichListQuery{Ret: make(chan map[H]uint64), MaxLen: 1000000}
	cq := bus.TxConfirmsQuery{Ret: make(chan map[H]uint64), TxIds: cp(txs)}
	iq := bus.TxIncludedBlockQuery{Ret: make(chan map[H]H), TxIds: cp(txs)}
	n.Bus.HeadHeight.Pub(hq)
	n.Bus.PkhUtxos.Pub(uq)
	n.Bus.PkhUtxos.Pub(fq)
	n.Bus.PkhBalance.Pub(bq)
	n.Bus.RichList.Pub(rq)
	n.Bus.TxConfirms.Pub(cq)
	n.Bus.TxIncludedBlock.Pub(iq)
	var err error
	if v.Height, err = ask(n, hq.Ret); err != nil {
		return nil, err
	}
	if v.Utxos, err = ask(n, uq.Ret); err != nil {
		return nil, err
	}
	if v.Free, err = ask(n, fq.Ret); err != nil {
		return nil, err
	}
	if v.Balances, err = ask(n, bq.Ret); err != nil {
		return nil, err
	}
	if v.Rich, err = ask(n, rq.Ret); err != nil {
		return nil, err
	}
	if v.Confirms, err = ask(n, cq.Ret); err != nil {
		return nil, err
	}
	if v.Incl, err = ask(n, iq.Ret); err != nil {
		return nil, err
	}
	return v, nil
}

// Event makes a candidate-head event from bundles in order.
func Event(head H, bs ...*vmodel.Bundle) bus.CandidateHeadEvent {
	ev := bus.CandidateHeadEvent{Head: head, Blocks: []core.Block{}, Merkles: []core.MerkleNode{}, Txs: []core.Tx{}}
	for _, b := range bs {
		ev.Txs = append(ev.Txs, b.Txs...)
		ev.Merkles = append(ev.Merkles, b.Merkles...)
		ev.Blocks = append(ev.Blocks, b.Block)
	}
	return ev
}
