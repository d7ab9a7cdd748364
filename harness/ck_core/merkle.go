//go:build go1.22

package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
)

func key(ids []H) string {
	var b strings.Builder
	for _, x := range ids {
		d := x.Data()
		b.Write(d[:])
	}
	return b.String()
}

func merkle() {
	p := core.DevNetParams()
	p.MaxBlockVSize = 1 << 40
	// storable transactions: coinbases (fixed size) and spends of them (varied sizes)
	rng := vlib.Rng("pool")
	w := vmodel.NewWorld(p, rng, 0)
	base := inv.NewInv(p, nil)
	mod := vmodel.NewInv(p)
	var pool []core.Tx
	add := func(t core.Tx) {
		if err := base.StoreTx(t); err != nil {
			rep.Errorf("pool transaction refused: %v", err)
			return
		}
		mod.AddTx(t)
		pool = append(pool, t)
	}
	for i := 0; i < 900; i++ {
		cb := w.Coinbase(uint64(i), p.BlockReward+uint64(i))
		cb.Outputs[0].PublicKeyHash = w.Keys[i%len(w.Keys)].Pkh
		add(cb)
	}
	for i := 0; i < 300; i++ {
		c := pool[i]
		cs := []vmodel.Coin{{U: core.Utxo{TxId: vmodel.TxID(c), Ind: 0, Value: c.Outputs[0].Value}, Pkh: c.Outputs[0].PublicKeyHash}}
		add(w.Spend(cs, 1, rng.Intn(5), 0))
	}
	small := len(pool)
	for i := 0; i < 19000; i++ { // enough for the largest blocks
		add(w.Coinbase(uint64(1000+i), p.BlockReward))
	}
	ids := make([]H, len(pool))
	for i := range pool {
		ids[i] = vmodel.TxID(pool[i])
	}
	fresh := func() *inv.Inv { // a fresh inventory with all transactions
		v := inv.NewInv(p, nil)
		for _, t := range pool {
			if v.StoreTx(t) != nil {
				panic("pool")
			}
		}
		return v
	}
	roots := map[H]string{}
	type tree struct {
		list []H
		root H
	}
	// trees of every small length and assorted large ones
	var lens []int
	for n := 1; n <= vlib.N(140, 300); n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 1199)
	for n, k := vlib.N(300, 2000), 0; k < n; k++ {
		lens = append(lens, 1+rng.Intn(40))
	}
	lens = append(lens, 2047, 2049, 4096, 4097, 8191, 9363, 16384, 16385)
	for n, k := vlib.N(4, 60), 0; k < n; k++ {
		lens = append(lens, 1200+rng.Intn(len(pool)-1200))
	}
	ch := make(chan tree, len(lens)*8)
	rep.Parallel("tree", len(lens), 8, func(i int, id string) {
		r := vlib.Rng(id)
		n := lens[i]
		among := len(ids)
		if n < small {
			among = small
		}
		perm := r.Perm(among)[:n]
		list := make([]H, n)
		for k, x := range perm {
			list[k] = ids[x]
		}
		cp := append([]H{}, list...)
		var nodes map[H]core.MerkleNode
		var order []H
		rep.Guard(id, func() { nodes, order = core.MerkleFromTxIds(list) })
		if len(order) == 0 {
			return
		}
		if fmt.Sprint(cp) != fmt.Sprint(list) {
			rep.Violate("argument-changed", id, "building a tree changed the list", nil)
		}
		v := inv.NewInv(p, nil)
		sum := uint64(0)
		for _, x := range perm {
			if err := v.StoreTx(pool[x]); err != nil && !pool[x].IsCoinbase {
				// its origin must be known first
				if e2 := v.StoreTx(pool[x-900]); e2 != nil && !v.HasTx(ids[x-900]) {
					rep.Errorf("store: %v", e2)
					return
				}
				if e3 := v.StoreTx(pool[x]); e3 != nil {
					rep.Errorf("store: %v", e3)
					return
				}
			}
			sum += vmodel.TxVSize(pool[x])
		}
		for k, nid := range order {
			nd, ok := nodes[nid]
			if !ok || vmodel.MerkleID(nd) != nid {
				rep.Violate("node", id, fmt.Sprintf("node %d of the order is missing or has another id (length %d)", k, n), nil)
				return
			}
			if v.HasMerkle(nid) {
				continue
			}
			if err := v.StoreMerkle(nd); err != nil {
				rep.Violate("order", id, fmt.Sprintf("node %d of %d cannot be stored in the returned order (length %d): %v", k, len(order), n, err), nil)
				return
			}
		}
		root := order[len(order)-1]
		got := v.GetMerkleTxIds(root)
		if fmt.Sprint(got) != fmt.Sprint(list) {
			rep.Violate("enumerate", id, fmt.Sprintf("enumerating a tree of %d transactions yields %d, or another order", n, len(got)), map[string]any{"list": list, "got": got})
			return
		}
		txs := v.GetMerkleTxs(root)
		for k := range txs {
			if vmodel.TxID(txs[k]) != list[k] {
				rep.Violate("enumerate-txs", id, fmt.Sprintf("transaction %d of the tree is another one", k), nil)
			}
		}
		if got := v.GetMerkleVSize(root); got != sum {
			rep.Violate("size", id, fmt.Sprintf("recorded size %d of a tree of %d transactions, they add up to %d", got, n, sum), nil)
		}
		rep.Eval(fmt.Sprintf("tree/%d", n))
		ch <- tree{list, root}
		// neighbours of this list
		var nb [][]H
		if n > 1 {
			s := append([]H{}, list...)
			a, b := r.Intn(n), r.Intn(n)
			s[a], s[b] = s[b], s[a]
			nb = append(nb, s, append([]H{}, list[:n-1]...), append([]H{}, list[1:]...))
			x := append([]H{}, list...)
			x[r.Intn(n)] = ids[r.Intn(len(ids))]
			nb = append(nb, x)
			if n > 2 {
				y := append([]H{}, list...)
				y[n-1], y[n-2] = y[n-2], y[n-1]
				nb = append(nb, y)
			}
		}
		for _, l := range nb {
			if len(l) == 0 {
				continue
			}
			if dup(l) {
				continue
			}
			_, o := core.MerkleFromTxIds(l)
			ch <- tree{l, o[len(o)-1]}
			rep.Eval(fmt.Sprintf("neighbour/%d", len(l)))
		}
		if i < 2 {
			rep.Sample(map[string]any{"length": n, "root": root, "nodes": len(order), "size": sum})
		}
	})
	close(ch)
	for t := range ch {
		k := key(t.list)
		if old, ok := roots[t.root]; ok && old != k {
			rep.Violate("same-root", "", fmt.Sprintf("two different lists (%d and %d transactions) have the same root %s", len(old)/32, len(t.list), t.root), nil)
		}
		roots[t.root] = k
	}
	rep.Max("leaves", int64(slices.Max(lens)))
	rep.Count("distinct_roots", int64(len(roots)))
	// arbitrary nodes over known and unknown children, under a tight size limit
	rep.Parallel("node", vlib.N(300, 2000), 8, func(i int, id string) {
		r := vlib.Rng(id)
		q := p
		q.MaxBlockVSize = uint64(300 + r.Intn(3000))
		v := inv.NewInv(q, nil)
		m := vmodel.NewInv(q)
		var ents []H
		for k := 0; k < 8; k++ {
			t := pool[r.Intn(900)]
			tid := vmodel.TxID(t)
			if !v.HasTx(tid) {
				if err := v.StoreTx(t); err != nil {
					rep.Errorf("store: %v", err)
					return
				}
				m.AddTx(t)
				ents = append(ents, tid)
			}
		}
		ch := func() H {
			if r.Intn(8) == 0 {
				return vmodel.HU64(r.Uint64())
			}
			return ents[r.Intn(len(ents))]
		}
		for k := 0; k < 60; k++ {
			nd := core.MerkleNode{LChild: ch(), RChild: ch()}
			if r.Intn(6) == 0 {
				nd.RChild = nd.LChild
			}
			nid := vmodel.MerkleID(nd)
			if _, ok := m.Merkles[nid]; ok {
				continue
			}
			verdict, why := m.CheckMerkle(nd)
			err := v.StoreMerkle(nd)
			acc := v.HasMerkle(nid)
			rep.Eval("node/" + why)
			rep.Seen("refusals", why)
			if acc != (verdict == vmodel.OK) || acc != (err == nil) {
				rep.Violate("node:"+why, id, fmt.Sprintf("node accepted=%v (%v), expected by the rules: %v %s", acc, err, verdict == vmodel.OK, why), map[string]any{"node": nd, "limit": q.MaxBlockVSize})
				return
			}
			if acc {
				m.AddMerkle(nd)
				ents = append(ents, nid)
				if got := v.GetMerkleVSize(nid); got != m.MSize[nid] {
					rep.Violate("node-size", id, fmt.Sprintf("recorded size %d, want %d", got, m.MSize[nid]), nd)
					return
				}
				if fmt.Sprint(v.GetMerkleTxIds(nid)) != fmt.Sprint(m.Leaves(nid)) {
					rep.Violate("node-leaves", id, "enumeration of an accepted node differs", nd)
					return
				}
			}
		}
	})
	_ = fresh
}

func dup(l []H) bool {
	m := map[H]bool{}
	for _, x := range l {
		if m[x] {
			return true
		}
		m[x] = true
	}
	return false
}
