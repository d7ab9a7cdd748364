//go:build go1.22

package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
)

// takeUp: transactions that were pending when the node stopped are pending again once submitted to the restarted node.
func takeUp(n int) {
	rep.Parallel("takeup", n, 16, func(i int, id string) {
		r := vlib.Rng(id)
		p := vmodel.RandParams(r)
		p.BlockReward = 100000
		w := vmodel.NewWorld(p, r, uint64(time.Now().Unix()))
		dir := filepath.Join(vlib.Work, strings.ReplaceAll(id, ":", "_"))
		node := vnode.New(p, true, &dir)
		stuck := func(err error) bool {
			if err == nil {
				return false
			}
			if c, ok := node.Crashed(); ok {
				rep.Violate("node-failed", id, "the node failed: "+c, nil)
			} else {
				rep.Inconclusive("case %s: %v", id, err)
				rep.Undecided()
			}
			return true
		}
		tip := H{}
		for k := 3 + r.Intn(4); k > 0; k-- {
			b := w.NextBlock(tip, nil, 3)
			w.Register(b)
			tip = b.Id
			if _, err := node.Offer(vnode.Event(tip, b)); stuck(err) {
				return
			}
		}
		avail := map[core.Utxo]H{}
		pkhs := []H{}
		for u, q := range w.Led[tip].Utxos {
			avail[u] = q
		}
		for _, k := range w.Keys {
			pkhs = append(pkhs, k.Pkh)
		}
		var txs []core.Tx
		for k := 1 + r.Intn(3); k > 0; k-- {
			if t, ok := w.RandTx(avail, w.All.Blocks[tip].Height+1); ok {
				a, err := node.Submit(t)
				if stuck(err) {
					return
				}
				if a == nil {
					txs = append(txs, t)
				}
			}
		}
		for round := 0; round < 2; round++ {
			node = vnode.New(p, true, &dir)
			if stuck(node.Barrier()) {
				return
			}
			node.DrainTxs()
			for _, t := range txs {
				tid := vmodel.TxID(t)
				for again := 0; again < 2; again++ {
					node.DrainTargets()
					a, err := node.Submit(t)
					if stuck(err) {
						return
					}
					got := node.DrainTxs()
					want := 1 - again
					if a != nil || len(got) != want || (want == 1 && got[0] != tid) {
						rep.Violate("not-taken-up", id, fmt.Sprintf("after a restart, submission %d of a transaction that was pending before: answered %v, announced %v", again+1, a, got), nil)
						return
					}
					if tg := node.DrainTargets(); again == 0 {
						in := false
						for _, e := range tg {
							for _, x := range e.TxIds {
								in = in || x == tid
							}
						}
						if !in && len(txs) == 1 {
							rep.Violate("not-taken-up", id, "a transaction taken up after a restart is not offered to miners", nil)
							return
						}
					}
				}
				v, err := node.Observe(pkhs, []H{tid})
				if stuck(err) {
					return
				}
				for _, in := range t.Inputs {
					if _, free := v.Free[in.Utxo]; free {
						rep.Violate("not-taken-up", id, "the input of a transaction taken up after a restart is offered for spending", nil)
						return
					}
				}
			}
		}
		rep.Count("restarts", 2)
		rep.Eval(fmt.Sprint("takeup", len(txs)))
	})
}
