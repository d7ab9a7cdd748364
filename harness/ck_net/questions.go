//go:build go1.22

package main

import (
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
)

// questions: long questions of every kind, from many sides at once, while the chain moves forth and back, takes up transactions,
// and its inventory is read as sessions and miners read it.
func questions(id string) {
	r := vlib.Rng(id)
	c := newNW(id)
	var dir *string
	if r.Intn(3) == 0 {
		d, err := os.MkdirTemp("", "vxq")
		if err != nil {
			rep.Errorf("%v", err)
			return
		}
		defer os.RemoveAll(d)
		dir = &d
	}
	n := vnode.New(c.p, true, dir)
	var pkhs []H
	for _, k := range c.w.Keys {
		pkhs = append(pkhs, k.Pkh)
	}
	for len(pkhs) < 4000 {
		pkhs = append(pkhs, pkhs[r.Intn(len(c.w.Keys))])
	}
	var mu sync.Mutex
	var txs, blocks []H
	note := func(b *vmodel.Bundle) {
		mu.Lock()
		defer mu.Unlock()
		for _, t := range b.Txs {
			txs = append(txs, vmodel.TxID(t))
		}
		blocks = append(blocks, b.Id)
	}
	some := func(k int, seed uint64) []H { // a long list with repetitions
		mu.Lock()
		defer mu.Unlock()
		out := make([]H, 0, k)
		for i := 0; i < k && len(txs) > 0; i++ {
			out = append(out, txs[(uint64(i)*7+seed)%uint64(len(txs))])
		}
		return out
	}
	var over atomic.Bool
	var asked, answered atomic.Int64
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			qr := vlib.Rng(id, "ask", g)
			for !over.Load() {
				cp := func(x []H) []H { return append([]H{}, x...) }
				hq := bus.HeadHeightQuery{Ret: make(chan uint64, 1)}
				uq := bus.PkhUtxosQuery{Ret: make(chan map[core.Utxo]H, 1), PublicKeyHashes: cp(pkhs), ExcludeMempool: qr.Intn(2) == 0}
				bq := bus.PkhBalanceQuery{Ret: make(chan map[H]uint64, 1), PublicKeyHashes: cp(pkhs)}
				rq := bus.RichListQuery{Ret: make(chan map[H]uint64, 1), MaxLen: 1000}
				cq := bus.TxConfirmsQuery{Ret: make(chan map[H]uint64, 1), TxIds: some(6000, qr.Uint64()>>8)}
				iq := bus.TxIncludedBlockQuery{Ret: make(chan map[H]H, 1), TxIds: some(6000, qr.Uint64()>>8)}
				// each goroutine asks in an order of its own
				for _, k := range qr.Perm(6) {
					switch k {
					case 0:
						n.Bus.HeadHeight.Pub(hq)
					case 1:
						n.Bus.PkhUtxos.Pub(uq)
					case 2:
						n.Bus.PkhBalance.Pub(bq)
					case 3:
						n.Bus.RichList.Pub(rq)
					case 4:
						n.Bus.TxConfirms.Pub(cq)
					case 5:
						n.Bus.TxIncludedBlock.Pub(iq)
					}
				}
				asked.Add(6)
				// take the answers like a handler does, and look at what they contain
				end := time.After(60 * time.Second)
				sum := uint64(0)
				for k := 0; k < 6 && !over.Load(); k++ {
					select {
					case v := <-hq.Ret:
						sum += v
					case m := <-uq.Ret:
						for u := range m {
							sum += u.Value
						}
					case m := <-bq.Ret:
						for _, v := range m {
							sum += v
						}
					case m := <-rq.Ret:
						for _, v := range m {
							sum += v
						}
					case m := <-cq.Ret:
						for _, v := range m {
							sum += v
						}
					case m := <-iq.Ret:
						for _, v := range m {
							if v.EqZero() {
								sum++
							}
						}
					case <-end:
						return
					case <-time.After(2 * time.Second):
						continue
					}
					answered.Add(1)
				}
			}
		}(g)
	}
	for g := 0; g < 2; g++ { // readers of the inventory
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := uint64(g); !over.Load(); k++ {
				for _, t := range some(50, k*13) {
					if n.Inv.HasTx(t) {
						n.Inv.GetTx(t).VSize()
					}
				}
				mu.Lock()
				var b H
				if len(blocks) > 0 {
					b = blocks[k%uint64(len(blocks))]
				}
				mu.Unlock()
				if n.Inv.HasBlock(b) && !b.EqZero() {
					n.Inv.GetBlockHeight(b)
					n.Inv.GetBlockTotalWork(b)
					root := n.Inv.GetBlock(b).MerkleRoot
					n.Inv.GetMerkleTxIds(root)
					n.Inv.GetBlockAncestors(b, 20)
				}
				time.Sleep(time.Millisecond)
			}
		}(g)
	}
	tip := H{}
	fork := tip
	for k := 0; k < 26; k++ {
		var bs []*vmodel.Bundle
		if k%9 == 8 { // a better branch from a while ago
			tip = fork
		}
		if k%9 == 3 {
			fork = tip
		}
		steps := 1
		if k%9 == 8 {
			steps = 9
		}
		for ; steps > 0; steps-- {
			b := c.w.NextBlock(tip, nil, 4)
			c.w.Register(b)
			note(b)
			bs = append(bs, b)
			tip = b.Id
		}
		n.Bus.CandidateHead.Pub(vnode.Event(tip, bs...))
		avail := map[core.Utxo]H{}
		for u, p := range c.w.Led[tip].Utxos {
			avail[u] = p
		}
		for j := 0; j < 3; j++ {
			if t, ok := c.w.RandTx(avail, c.w.All.Blocks[tip].Height); ok {
				n.Bus.CandidateTx.Pub(bus.CandidateTxEvent{Tx: t})
			}
		}
		time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	}
	if err := n.Barrier(); err != nil {
		rep.Count("questions_unanswered", 1)
	}
	n.DrainHeads()
	over.Store(true)
	wg.Wait()
	rep.Count("questions_asked", asked.Load())
	rep.Count("questions_answered", answered.Load())
	rep.Count("questions_heads", int64(len(n.Heads)))
	rep.Eval(fmt.Sprintf("questions/%v/%d", dir != nil, len(n.Heads)))
}
