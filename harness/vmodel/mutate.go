//go:build go1.22

package vmodel

import (
	"math/big"
	"sort"
	"strings"

	"github.com/levilutz/basiccoin/pkg/core"
)

// Classes of mutated (and boundary-legal) blocks. The model's rules, not the label, decide what must happen.
var Kinds = map[string][]string{
	"amount":    {"cb+1", "cb-1", "cb=reward", "cb-huge", "cb-split-wrap", "tx-wrap", "tx-wrap-many", "tx-even", "tx-inflate", "wrong-amount", "wrong-amount-up", "in-wrap", "legal"},
	"double":    {"dup-input", "spent-on-branch", "other-branch", "same-utxo-two-txs", "child-first", "replay-tx", "dup-input-balanced", "in-block-chain", "legal", "never-created", "chain-then-respend", "mixed-spent", "mixed-other-branch", "mixed-never", "mixed-in-block", "mixed-dup"},
	"structure": {"cb-height+1", "cb-height-1", "cb-height-0", "no-coinbase", "cb-not-first", "two-coinbases", "two-coinbases-late", "minblock=h", "minblock=h+1", "size=max", "size=max+1", "txsize=max", "txsize=max+1", "unknown-root", "root-is-tx", "legal-odd-tree", "missing-tx", "legal", "nested-single", "minblock-huge", "size=max-odd", "size=max+1-odd", "size=big-odd"},
	"pow":       {"no-pow", "target+1", "target-1", "bound-lo", "bound-lo-1", "bound-hi", "bound-hi+1", "first-target", "target-max+1", "target-ff", "target-next", "legal", "target-x5", "target-div5", "pow-of-parent-target"},
	"time":      {"time=median", "time=median+1", "time-0", "time-far", "time-far-ok", "time-max", "period-first", "period-first+1", "period-first-1", "time-1", "legal", "time<median-old"},
}

// fresh body: a few legal transactions for a block on parent, and leftover coins.
func (w *World) body(parent H, n int) ([]core.Tx, map[core.Utxo]H) {
	h := w.All.Blocks[parent].Height + 1
	avail := map[core.Utxo]H{}
	for u, p := range w.Led[parent].Utxos {
		avail[u] = p
	}
	var out []core.Tx
	size := uint64(112)
	for i := 0; i < n; i++ {
		before := make(map[core.Utxo]H, len(avail))
		for k, v := range avail {
			before[k] = v
		}
		t, ok := w.RandTx(avail, h)
		if !ok || size+TxVSize(t) > w.P.MaxBlockVSize {
			return out, before
		}
		if _, inc := w.Led[parent].Incl[TxID(t)]; inc {
			return out, before
		}
		size += TxVSize(t)
		out = append(out, t)
	}
	return out, avail
}

func (w *World) richest(avail map[core.Utxo]H, n int) []Coin {
	cs := Coins(avail)
	out := []Coin{}
	for len(out) < n {
		best := -1
		for i, c := range cs {
			if KeyOf(w.Keys, c.Pkh) == nil {
				continue
			}
			dup := false
			for _, o := range out {
				if o.U == c.U {
					dup = true
				}
			}
			if !dup && (best < 0 || c.U.Value > cs[best].U.Value) {
				best = i
			}
		}
		if best < 0 {
			return out
		}
		out = append(out, cs[best])
	}
	return out
}

func (w *World) rawTx(coins []Coin, outs []uint64, minBlock uint64) core.Tx {
	t := core.Tx{MinBlock: minBlock, Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for _, c := range coins {
		t.Inputs = append(t.Inputs, core.TxIn{Utxo: c.U})
	}
	for _, v := range outs {
		t.Outputs = append(t.Outputs, core.TxOut{Value: v, PublicKeyHash: w.Keys[w.R.Intn(len(w.Keys))].Pkh})
	}
	SignTx(&t, func(i int) *Key { return KeyOf(w.Keys, coins[i].Pkh) })
	return t
}

func (w *World) finish(parent H, label string, cbVal uint64, body []core.Tx) *Bundle {
	h := w.All.Blocks[parent].Height + 1
	if w.R.Intn(2) == 0 && !strings.Contains(label, "size") {
		body, cbVal = w.crowd(parent, h, cbVal, body)
	}
	b := w.Assemble(parent, append([]core.Tx{w.Coinbase(h, cbVal)}, body...), w.BlockTarget(parent), w.BlockTime(parent))
	b.Label = label
	return b
}

// crowd puts legal transactions with coins of their own around those of body, whose order stays, and pays their fees out too.
func (w *World) crowd(parent H, h, cbVal uint64, body []core.Tx) ([]core.Tx, uint64) {
	avail := map[core.Utxo]H{}
	for u, p := range w.Led[parent].Utxos {
		avail[u] = p
	}
	size := uint64(112)
	for _, t := range body {
		size += TxVSize(t)
		for _, in := range t.Inputs {
			for u := range avail {
				if u.TxId == in.Utxo.TxId && u.Ind == in.Utxo.Ind {
					delete(avail, u)
				}
			}
		}
	}
	out := append([]core.Tx{}, body...)
	for n := 1 + w.R.Intn(3); n > 0; n-- {
		t, ok := w.RandTx(avail, h)
		if !ok || size+TxVSize(t) > w.P.MaxBlockVSize {
			break
		}
		fee := FeeSum([]core.Tx{t})
		if _, inc := w.Led[parent].Incl[TxID(t)]; inc || cbVal+fee < cbVal {
			break
		}
		size += TxVSize(t)
		cbVal += fee
		i := w.R.Intn(len(out) + 1)
		out = append(out[:i:i], append([]core.Tx{t}, out[i:]...)...)
	}
	return out, cbVal
}

// wrapped fee sum modulo 2^64 as a naive implementation would compute it
func naiveFees(ts []core.Tx) uint64 {
	s := uint64(0)
	for _, t := range ts {
		if t.IsCoinbase {
			continue
		}
		for _, i := range t.Inputs {
			s += i.Utxo.Value
		}
		for _, o := range t.Outputs {
			s -= o.Value
		}
	}
	return s
}

// padTx makes a transaction of exactly the given vsize by adding one-value outputs/fixing up signature length; nil if impossible.
func (w *World) padTx(coins []Coin, size uint64, minBlock uint64) *core.Tx {
	in := uint64(0)
	for _, c := range coins {
		in += c.U.Value
	}
	if in < 2 {
		return nil
	}
	for try := 0; try < 60; try++ {
		// inputs: 48+91+sig(70..72); outputs 40 each, zero-valued
		base := uint64(72)
		for range coins {
			base += 48 + 91 + 70
		}
		if size < base {
			return nil
		}
		nOut := (size - base) / 40
		rest := (size - base) % 40
		if rest > uint64(2*len(coins)) {
			// use a longer public key? not possible: choose other coin count
			return nil
		}
		outs := make([]uint64, nOut)
		if nOut > 0 {
			outs[0] = uint64(w.R.Int63n(int64(min(in-1, 1<<40)))) / 2
		}
		t := w.rawTx(coins, outs, minBlock)
		if TxVSize(t) == size {
			return &t
		}
	}
	return nil
}

// Mutant builds one block of the given kind on parent, or nil if the situation does not allow it.
func (w *World) Mutant(kind string, parent H) *Bundle {
	r := w.R
	pi := w.All.Blocks[parent]
	h := pi.Height + 1
	led := w.Led[parent]
	rew := w.P.BlockReward
	switch kind {
	case "legal":
		b := w.NextBlock(parent, nil, 3)
		b.Label = kind
		return b
	case "cb+1", "cb-1", "cb=reward", "cb-huge":
		body, _ := w.body(parent, 1+r.Intn(2))
		v := rew + FeeSum(body)
		switch kind {
		case "cb+1":
			v += []uint64{1, rew, 1 << 32, uint64(1 + r.Intn(1000))}[r.Intn(4)]
		case "cb-1":
			v--
		case "cb=reward":
			if len(body) == 0 {
				return nil
			}
			v = rew
		case "cb-huge":
			v = ^uint64(0) - uint64(r.Intn(3))
		}
		return w.finish(parent, kind, v, body)
	case "cb-split-wrap":
		// every tx fine on its own, but the total of outputs wraps past 2^64
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 1)
		if len(cs) < 1 || cs[0].U.Value < 2 {
			return nil
		}
		t := w.rawTx(cs, []uint64{cs[0].U.Value - 1}, 0)
		return w.finish(parent, kind, rew+1-cs[0].U.Value+cs[0].U.Value+0, []core.Tx{t, w.rawTx(cs, []uint64{0, 0}, 0)})
	case "tx-wrap", "tx-wrap-many":
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 1+r.Intn(2))
		in := uint64(0)
		for _, c := range cs {
			in += c.U.Value
		}
		if len(cs) == 0 || in < 2 {
			return nil
		}
		fee := uint64(1 + r.Int63n(int64(min(in-1, 1<<30))))
		var outs []uint64
		if kind == "tx-wrap" {
			x := uint64(1)<<63 + uint64(r.Int63())
			outs = []uint64{x, in - fee - x} // wraps to in-fee
		} else {
			outs = []uint64{1 << 63, 1 << 63, in - fee}
			if r.Intn(2) == 0 {
				outs = []uint64{1 << 62, 1 << 62, 1 << 62, 1 << 62, in - fee}
			}
		}
		t := w.rawTx(cs, outs, 0)
		return w.finish(parent, kind, rew+fee, []core.Tx{t})
	case "in-wrap":
		// inputs claim amounts whose sum wraps
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 2)
		if len(cs) < 2 {
			return nil
		}
		cs[0].U.Value = 1 << 63
		cs[1].U.Value = 1<<63 + uint64(r.Intn(1000)) + 2
		in := cs[0].U.Value + cs[1].U.Value
		t := w.rawTx(cs, []uint64{in - 1}, 0)
		return w.finish(parent, kind, rew+1, []core.Tx{t})
	case "tx-even", "tx-inflate":
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 1)
		if len(cs) == 0 || cs[0].U.Value == ^uint64(0) {
			return nil
		}
		outs := []uint64{cs[0].U.Value}
		cb := rew
		if kind == "tx-inflate" {
			d := uint64(1)
			outs[0] += d
			cb -= d
			if r.Intn(2) == 0 {
				cb = rew // does not even balance
			}
		}
		return w.finish(parent, kind, cb, []core.Tx{w.rawTx(cs, outs, 0)})
	case "wrong-amount", "wrong-amount-up":
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 1)
		if len(cs) == 0 || cs[0].U.Value < 3 {
			return nil
		}
		d := uint64(1 + r.Intn(1000))
		if kind == "wrong-amount" {
			cs[0].U.Value -= min(d, cs[0].U.Value-2)
		} else {
			cs[0].U.Value += d
		}
		t := w.rawTx(cs, []uint64{cs[0].U.Value - 1}, 0)
		return w.finish(parent, kind, rew+1, []core.Tx{t})

	case "dup-input", "dup-input-balanced":
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 1)
		if len(cs) == 0 || cs[0].U.Value < 2 {
			return nil
		}
		v := cs[0].U.Value
		outs := []uint64{v - 1} // value once; fee v+1 by claimed sums
		if kind == "dup-input-balanced" {
			outs = []uint64{v, v - 1}
		}
		t := w.rawTx([]Coin{cs[0], cs[0]}, outs, 0)
		return w.finish(parent, kind, rew+naiveFees([]core.Tx{t}), []core.Tx{t})
	case "spent-on-branch":
		return w.spendOne(parent, kind, w.spentOn(parent))
	case "other-branch":
		return w.spendOne(parent, kind, w.elsewhere(parent))
	case "mixed-spent":
		return w.spendMixed(parent, kind, w.spentOn(parent))
	case "mixed-other-branch":
		return w.spendMixed(parent, kind, w.elsewhere(parent))
	case "mixed-never":
		cs := w.richest(w.Led[parent].Utxos, 1)
		fake := Coin{core.Utxo{TxId: w.RandH(), Ind: uint64(r.Intn(2)), Value: 100}, w.Keys[0].Pkh}
		if len(cs) == 1 && r.Intn(2) == 0 {
			fake.U.TxId = cs[0].U.TxId // an index its transaction does not have
			fake.U.Ind = uint64(len(w.All.Txs[cs[0].U.TxId].Outputs) + r.Intn(2))
		}
		return w.spendMixed(parent, kind, []Coin{fake})
	case "mixed-dup":
		cs := w.richest(w.Led[parent].Utxos, 1)
		return w.spendMixed(parent, kind, cs)
	case "mixed-in-block":
		// a second transaction of the block takes one output of the first together with fresh ones
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 1)
		if len(cs) == 0 || cs[0].U.Value < 4 {
			return nil
		}
		t1 := w.rawTx(cs, []uint64{cs[0].U.Value - 2, 1}, 0)
		delete(avail, cs[0].U)
		return w.spendMixedWith(parent, kind, []core.Tx{t1}, avail, cs)
	case "never-created":
		return w.spendOne(parent, kind, []Coin{{core.Utxo{TxId: w.RandH(), Ind: uint64(r.Intn(2)), Value: 100}, w.Keys[0].Pkh}})
	case "same-utxo-two-txs":
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 1)
		if len(cs) == 0 || cs[0].U.Value < 3 {
			return nil
		}
		t1 := w.rawTx(cs, []uint64{cs[0].U.Value - 1}, 0)
		t2 := w.rawTx(cs, []uint64{cs[0].U.Value - 2}, 0)
		return w.finish(parent, kind, rew+3, []core.Tx{t1, t2})
	case "in-block-chain", "child-first", "chain-then-respend":
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 1)
		if len(cs) == 0 || cs[0].U.Value < 6 {
			return nil
		}
		v := cs[0].U.Value
		t1 := w.rawTx(cs, []uint64{v - 3, 1}, 0)
		c2 := Coin{core.Utxo{TxId: TxID(t1), Ind: 0, Value: v - 3}, t1.Outputs[0].PublicKeyHash}
		t2 := w.rawTx([]Coin{c2}, []uint64{v - 4}, 0)
		body := []core.Tx{t1, t2}
		if kind == "chain-then-respend" {
			body = append(body, w.rawTx([]Coin{c2}, []uint64{v - 5}, 0))
		}
		fees := FeeSum(body)
		if kind == "child-first" {
			body = []core.Tx{t2, t1}
			if r.Intn(2) == 0 {
				t3, ok := w.RandTx(map[core.Utxo]H{}, h)
				if ok {
					body = append(body, t3)
				}
			}
		}
		return w.finish(parent, kind, rew+fees, body)
	case "replay-tx":
		var cands []core.Tx
		for tid := range led.Incl {
			if t := w.All.Txs[tid]; !t.IsCoinbase {
				cands = append(cands, t)
			}
		}
		if len(cands) == 0 {
			return nil
		}
		sortTxs(cands)
		t := cands[r.Intn(len(cands))]
		return w.finish(parent, kind, rew+naiveFees([]core.Tx{t}), []core.Tx{t})

	case "cb-height+1", "cb-height-1", "cb-height-0":
		body, _ := w.body(parent, r.Intn(2))
		b := w.finish(parent, kind, rew+FeeSum(body), body)
		mb := h + 1
		if kind == "cb-height-1" {
			mb = h - 1
		} else if kind == "cb-height-0" {
			mb = 0
		}
		txs := append([]core.Tx{w.Coinbase(mb, rew+FeeSum(body))}, body...)
		nb := w.Assemble(parent, txs, b.Block.Target, b.Block.MinedTime)
		nb.Label = kind
		return nb
	case "no-coinbase":
		body, _ := w.body(parent, 1)
		if len(body) == 0 {
			return nil
		}
		// first tx not a coinbase; MinBlock = height so that only this rule is broken; pay the reward through nothing
		nb := w.Assemble(parent, body, w.BlockTarget(parent), w.BlockTime(parent))
		nb.Label = kind
		return nb
	case "two-coinbases-late":
		// a coinbase further back, paid for by the fees: the amounts balance
		cs := w.richest(led.Utxos, 1+r.Intn(3))
		in := new(big.Int)
		for _, c := range cs {
			in.Add(in, new(big.Int).SetUint64(c.U.Value))
		}
		if !in.IsUint64() || in.Uint64() < 2 {
			return nil
		}
		fee := in.Uint64() - uint64(r.Intn(2))
		t := w.rawTx(cs, []uint64{in.Uint64() - fee}, 0)
		if TxVSize(t) > w.P.MaxTxVSize {
			return nil
		}
		second := 1 + uint64(r.Int63n(int64(min(fee, 1<<40))))
		if fee >= rew && r.Intn(3) > 0 {
			second = rew // so that it looks like a coinbase of its own
		}
		body := []core.Tx{t}
		extra, cb := w.crowd(parent, h, rew+fee-second, body)
		c2 := w.Coinbase(h, second)
		i := 1 + r.Intn(len(extra))
		extra = append(extra[:i:i], append([]core.Tx{c2}, extra[i:]...)...)
		nb := w.Assemble(parent, append([]core.Tx{w.Coinbase(h, cb)}, extra...), w.BlockTarget(parent), w.BlockTime(parent))
		nb.Label = kind
		return nb
	case "cb-not-first", "two-coinbases":
		body, _ := w.body(parent, 1+r.Intn(3))
		if kind == "two-coinbases" {
			c2 := w.Coinbase(h, rew)
			c1 := w.Coinbase(h, rew+FeeSum(body))
			for TxID(c1) == TxID(c2) {
				c2 = w.Coinbase(h, rew+1)
			}
			nb := w.Assemble(parent, append([]core.Tx{c1, c2}, body...), w.BlockTarget(parent), w.BlockTime(parent))
			nb.Label = kind
			return nb
		}
		if len(body) == 0 {
			return nil
		}
		i := 1 + r.Intn(len(body))
		nb := w.Assemble(parent, append(append(append([]core.Tx{}, body[:i]...), w.Coinbase(h, rew+FeeSum(body))), body[i:]...), w.BlockTarget(parent), w.BlockTime(parent))
		nb.Label = kind
		return nb
	case "minblock=h", "minblock=h+1", "minblock-huge":
		_, avail := w.body(parent, 0)
		cs := w.richest(avail, 1)
		if len(cs) == 0 || cs[0].U.Value < 2 {
			return nil
		}
		mb := h
		if kind == "minblock=h+1" {
			mb = h + 1
		} else if kind == "minblock-huge" {
			mb = ^uint64(0) - uint64(r.Intn(2))
		}
		t := w.rawTx(cs, []uint64{cs[0].U.Value - 1}, mb)
		return w.finish(parent, kind, rew+1, []core.Tx{t})
	case "size=max-odd", "size=max+1-odd":
		b := w.Mutant(strings.TrimSuffix(kind, "-odd"), parent)
		if b == nil {
			return nil
		}
		w.reshape(b, kind)
		return b
	case "size=big-odd":
		// well over the limit, however the tree hides it
		_, avail := w.body(parent, 0)
		var body []core.Tx
		size := uint64(112)
		for try := 0; try < 60 && len(body) < 24 && size < 2*w.P.MaxBlockVSize; try++ {
			t, ok := w.RandTx(avail, h)
			if !ok {
				break
			}
			size += TxVSize(t)
			body = append(body, t)
			for i, o := range t.Outputs {
				avail[core.Utxo{TxId: TxID(t), Ind: uint64(i), Value: o.Value}] = o.PublicKeyHash
			}
			if size > w.P.MaxBlockVSize && r.Intn(3) == 0 {
				break
			}
		}
		if size <= w.P.MaxBlockVSize {
			return nil
		}
		b := w.finish(parent, kind, rew+FeeSum(body), body)
		w.reshape(b, kind)
		return b
	case "size=max", "size=max+1":
		want := w.P.MaxBlockVSize
		if kind == "size=max+1" {
			want += uint64(1 + r.Intn(2)*r.Intn(40))
		}
		var body []core.Tx
		_, avail := w.body(parent, 0)
		size := uint64(112)
		// fill with normal txs, then one exact pad
		for try := 0; try < 40; try++ {
			rem := want - size
			for n := 1; n <= 2; n++ {
				cs := w.richest(avail, n)
				if len(cs) < n || rem > w.P.MaxTxVSize {
					continue
				}
				if t := w.padTx(cs, rem, 0); t != nil && Fee(*t).Sign() > 0 {
					body = append(body, *t)
					return w.finish(parent, kind, rew+FeeSum(body), body)
				}
			}
			t, ok := w.RandTx(avail, h)
			if !ok {
				return nil
			}
			if size+TxVSize(t)+281 > want {
				continue
			}
			size += TxVSize(t)
			body = append(body, t)
			for i, o := range t.Outputs {
				avail[core.Utxo{TxId: TxID(t), Ind: uint64(i), Value: o.Value}] = o.PublicKeyHash
			}
		}
		return nil
	case "txsize=max", "txsize=max+1":
		want := w.P.MaxTxVSize
		if kind == "txsize=max+1" {
			want++
		}
		_, avail := w.body(parent, 0)
		for n := 1; n <= 5; n++ {
			cs := w.richest(avail, n)
			if len(cs) < n {
				return nil
			}
			if t := w.padTx(cs, want, 0); t != nil && Fee(*t).Sign() > 0 && want+112 <= w.P.MaxBlockVSize {
				return w.finish(parent, kind, rew+FeeSum([]core.Tx{*t}), []core.Tx{*t})
			}
		}
		return nil
	case "unknown-root", "root-is-tx":
		b := w.finish(parent, kind, rew, nil)
		b.Block.MerkleRoot = w.RandH()
		if kind == "root-is-tx" {
			b.Block.MerkleRoot = TxID(b.Txs[0])
		}
		b.Block = Mine(b.Block, true, r)
		b.Id = BlockID(b.Block)
		return b
	case "missing-tx":
		body, _ := w.body(parent, 2)
		if len(body) == 0 {
			return nil
		}
		b := w.finish(parent, kind, rew+FeeSum(body), body)
		b.Txs = b.Txs[:len(b.Txs)-1]
		return b
	case "legal-odd-tree", "nested-single":
		body, _ := w.body(parent, 3)
		b := w.finish(parent, kind, rew+FeeSum(body), body)
		ids := make([]H, len(b.Txs))
		for i := range b.Txs {
			ids[i] = TxID(b.Txs[i])
		}
		var ms []core.MerkleNode
		if kind == "nested-single" {
			ms = MakeTree(ids)
			for i := 0; i < 1+r.Intn(2); i++ {
				id := MerkleID(ms[len(ms)-1])
				ms = append(ms, core.MerkleNode{LChild: id, RChild: id})
			}
		} else {
			// right-leaning comb: breadth-first order is still the list
			if len(ids) < 2 {
				return nil
			}
			acc := core.MerkleNode{LChild: ids[len(ids)-2], RChild: ids[len(ids)-1]}
			ms = append(ms, acc)
			for i := len(ids) - 3; i >= 0; i-- {
				acc = core.MerkleNode{LChild: ids[i], RChild: MerkleID(acc)}
				ms = append(ms, acc)
			}
		}
		b.Merkles = ms
		b.Block.MerkleRoot = MerkleID(ms[len(ms)-1])
		b.Block = Mine(b.Block, true, r)
		b.Id = BlockID(b.Block)
		return b

	case "no-pow":
		b := w.finish(parent, kind, rew, nil)
		b.Block = Mine(b.Block, false, r)
		b.Id = BlockID(b.Block)
		return b
	case "pow-of-parent-target":
		// at a boundary: claims a hard target but only beats an easy one
		if h%w.P.DifficultyPeriod != 0 || parent.EqZero() {
			return nil
		}
		b := w.finish(parent, kind, rew, nil)
		lo, _ := TargetBounds(w.P, pi.Block.Target)
		b.Block.Target = FromBig(lo)
		b.Block = Mine(b.Block, false, r)
		b.Id = BlockID(b.Block)
		return b
	case "target+1", "target-1", "bound-lo", "bound-lo-1", "bound-hi", "bound-hi+1", "first-target", "target-max+1", "target-ff", "target-next", "target-x5", "target-div5":
		b := w.finish(parent, kind, rew, nil)
		cur := w.P.OriginalTarget
		if !parent.EqZero() {
			cur = pi.Block.Target
		}
		lo, hi := TargetBounds(w.P, cur)
		one := big.NewInt(1)
		x := Big(cur)
		boundary := !parent.EqZero() && h%w.P.DifficultyPeriod == 0
		switch kind {
		case "target+1":
			x.Add(x, one)
		case "target-1":
			x.Sub(x, one)
		case "bound-lo":
			x = lo
		case "bound-lo-1":
			x = lo.Sub(lo, one)
		case "bound-hi":
			x = hi
		case "bound-hi+1":
			x = hi.Add(hi, one)
		case "first-target":
			if !parent.EqZero() {
				return nil
			}
			x.Sub(x, big.NewInt(int64(1+r.Intn(1000))))
			if r.Intn(2) == 0 {
				x = Big(w.P.MaxTarget)
			}
		case "target-max+1":
			x = new(big.Int).Add(Big(w.P.MaxTarget), one)
		case "target-ff":
			x = new(big.Int).Set(max256)
		case "target-next":
			n, ok := w.All.NextTarget(parent)
			if !ok {
				return nil
			}
			x = Big(n)
		case "target-x5":
			x.Mul(x, big.NewInt(5))
			if x.Cmp(max256) > 0 {
				x = new(big.Int).Set(max256)
			}
		case "target-div5":
			x.Div(x, big.NewInt(5))
		}
		if x.Cmp(Big(Hex("001fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"))) < 0 {
			return nil // too expensive to mine here
		}
		_ = boundary
		b.Block.Target = FromBig(x)
		b.Block = Mine(b.Block, true, r)
		b.Id = BlockID(b.Block)
		return b

	case "time=median", "time=median+1", "time-0", "time-far", "time-far-ok", "time-max", "period-first", "period-first+1", "period-first-1", "time-1", "time<median-old":
		b := w.finish(parent, kind, rew, nil)
		m, ok := w.All.MedianBefore(parent)
		f, last := w.All.PeriodFirst(parent, h)
		t := b.Block.MinedTime
		switch kind {
		case "time=median":
			if !ok {
				return nil
			}
			t = m
		case "time=median+1":
			if !ok {
				return nil
			}
			t = m + 1
		case "time-0":
			t = 0
		case "time-1":
			t = w.All.MinTime(parent)
		case "time<median-old":
			if !ok {
				return nil
			}
			t = m - uint64(1+r.Intn(5000))
		case "time-far":
			t = w.Now + 3600 + FutureMargin + 1 + uint64(r.Intn(5000))
		case "time-far-ok":
			t = w.Now + 3600 - FutureMargin - 1 - uint64(r.Intn(1000))
		case "time-max":
			t = ^uint64(0) - uint64(r.Intn(4000))
		case "period-first", "period-first+1", "period-first-1":
			if !last {
				return nil
			}
			t = w.All.Blocks[f].Block.MinedTime
			if kind == "period-first+1" {
				t++
			} else if kind == "period-first-1" {
				t--
			}
		}
		b.Block.MinedTime = t
		return b
	}
	panic("unknown kind " + kind)
}

// reshape gives the block a tree of another shape.
func (w *World) reshape(b *Bundle, label string) {
	ids := make([]H, len(b.Txs))
	for i := range b.Txs {
		ids[i] = TxID(b.Txs[i])
	}
	b.Merkles = RandTree(w.R, ids)
	b.Block.MerkleRoot = MerkleID(b.Merkles[len(b.Merkles)-1])
	b.Block = Mine(b.Block, true, w.R)
	b.Id = BlockID(b.Block)
	b.Label = label
}

// spentOn lists the outputs consumed by the blocks up to parent.
func (w *World) spentOn(parent H) []Coin {
	var cands []Coin
	for _, bid := range w.All.Path(parent) {
		for _, tid := range w.All.Blocks[bid].TxIds {
			for _, in := range w.All.Txs[tid].Inputs {
				o := w.All.Txs[in.Utxo.TxId]
				if in.Utxo.Ind < uint64(len(o.Outputs)) {
					cands = append(cands, Coin{in.Utxo, o.Outputs[in.Utxo.Ind].PublicKeyHash})
				}
			}
		}
	}
	return cands
}

// elsewhere lists the outputs of known transactions not included up to parent.
func (w *World) elsewhere(parent H) []Coin {
	var cands []Coin
	for _, bid := range w.Order {
		for _, tid := range w.All.Blocks[bid].TxIds {
			if _, inc := w.Led[parent].Incl[tid]; inc {
				continue
			}
			for i, o := range w.All.Txs[tid].Outputs {
				cands = append(cands, Coin{core.Utxo{TxId: tid, Ind: uint64(i), Value: o.Value}, o.PublicKeyHash})
			}
		}
	}
	return cands
}

// spendMixed takes one of the unspendable candidates together with spendable outputs, in any position.
func (w *World) spendMixed(parent H, label string, cands []Coin) *Bundle {
	_, avail := w.body(parent, 0)
	return w.spendMixedWith(parent, label, nil, avail, cands)
}

func (w *World) spendMixedWith(parent H, label string, before []core.Tx, avail map[core.Utxo]H, cands []Coin) *Bundle {
	r := w.R
	var bad []Coin
	for _, c := range cands {
		if KeyOf(w.Keys, c.Pkh) != nil {
			bad = append(bad, c)
		}
	}
	if len(bad) == 0 {
		return nil
	}
	c := bad[r.Intn(len(bad))]
	n := 1 + r.Intn(3)
	for 72+210*uint64(n+1)+80 > w.P.MaxTxVSize && n > 1 {
		n--
	}
	var fresh []Coin
	all := Coins(avail)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for _, f := range all {
		if KeyOf(w.Keys, f.Pkh) != nil && len(fresh) < n {
			fresh = append(fresh, f)
		}
	}
	if len(fresh) == 0 {
		return nil
	}
	k := r.Intn(len(fresh) + 1)
	coins := append(append(append([]Coin{}, fresh[:k]...), c), fresh[k:]...)
	in := new(big.Int)
	for _, x := range coins {
		in.Add(in, new(big.Int).SetUint64(x.U.Value))
	}
	if !in.IsUint64() || in.Uint64() < 2 {
		return nil
	}
	t := w.rawTx(coins, []uint64{in.Uint64() - 1}, 0)
	body := append(append([]core.Tx{}, before...), t)
	return w.finish(parent, label, w.P.BlockReward+FeeSum(body), body)
}

func (w *World) spendOne(parent H, label string, cands []Coin) *Bundle {
	var ok []Coin
	for _, c := range cands {
		if KeyOf(w.Keys, c.Pkh) != nil && c.U.Value >= 2 {
			ok = append(ok, c)
		}
	}
	if len(ok) == 0 {
		return nil
	}
	c := ok[w.R.Intn(len(ok))]
	t := w.rawTx([]Coin{c}, []uint64{c.U.Value - 1}, 0)
	return w.finish(parent, label, w.P.BlockReward+1, []core.Tx{t})
}

func sortTxs(ts []core.Tx) {
	for i := range ts {
		for j := i + 1; j < len(ts); j++ {
			if TxID(ts[j]).Lt(TxID(ts[i])) {
				ts[i], ts[j] = ts[j], ts[i]
			}
		}
	}
}

// TxKinds are single-transaction mutations for admission checks.
var TxKinds = []string{
	"valid", "valid", "valid-multi", "flip-sig", "swap-sigs", "other-key", "other-sig", "no-sig", "unknown-txid", "ind-range", "amount-1", "amount+1",
	"change-out-value", "change-out-pkh", "change-minblock", "drop-out", "add-out", "add-foreign-input", "replace-input-foreign", "even", "deficit", "wrap-out", "dup-input",
	"size=max", "size=max+1", "rsa-like-garbage-key", "empty-key", "no-inputs", "cb-inputs", "cb-two-outs", "cb-none", "cb-reward", "cb-reward-1", "cb-big",
	"truncated-sig", "sig-of-inputs-other-tx", "pub-other-encoding", "minblock-future", "zero-out", "reorder-outs", "same-key-add-input", "same-key-swap-input",
	"siblings", "siblings-one-foreign", "siblings-one-foreign", "siblings-one-foreign", "multi-one-foreign", "multi-one-foreign",
	"ind-edge", "ind-edge", "ind-max", "unusual-key", "unusual-key", "unusual-key",
}

// MutantTx makes one transaction (validity is decided by the model) from the coins.
func (w *World) MutantTx(kind string, avail map[core.Utxo]H, height uint64) (core.Tx, bool) {
	r := w.R
	cs := Coins(avail)
	var own []Coin
	for _, c := range cs {
		if KeyOf(w.Keys, c.Pkh) != nil && c.U.Value >= 4 {
			own = append(own, c)
		}
	}
	r.Shuffle(len(own), func(i, j int) { own[i], own[j] = own[j], own[i] })
	switch kind {
	case "cb-reward":
		return w.Coinbase(uint64(r.Intn(50)), w.P.BlockReward), true
	case "cb-reward-1":
		return w.Coinbase(uint64(r.Intn(50)), w.P.BlockReward-1), true
	case "cb-big":
		return w.Coinbase(uint64(r.Intn(50)), w.P.BlockReward+uint64(r.Int63())), true
	case "cb-two-outs":
		t := w.Coinbase(height+1, w.P.BlockReward)
		t.Outputs = append(t.Outputs, t.Outputs[0])
		return t, true
	case "cb-none":
		t := w.Coinbase(height+1, w.P.BlockReward)
		t.Outputs = []core.TxOut{}
		return t, true
	case "no-inputs":
		return core.Tx{MinBlock: 1, Inputs: []core.TxIn{}, Outputs: []core.TxOut{{Value: uint64(r.Intn(2)), PublicKeyHash: w.Keys[0].Pkh}}}, true
	}
	if kind == "unusual-key" { // somebody with a key of another kind spends
		var fs []Coin
		kinds := map[string][]Coin{}
		for _, c := range cs {
			if f := ForeignOf(c.Pkh); f != nil && c.U.Value >= 2 {
				kinds[f.Kind] = append(kinds[f.Kind], c)
			}
		}
		for _, k := range []string{"p384", "ed25519", "rsa", "x25519", "garbage"} {
			if n := len(kinds[k]); n > 0 {
				fs = append(fs, kinds[k][r.Intn(n)])
			}
		}
		if len(fs) == 0 {
			return core.Tx{}, false
		}
		c := fs[r.Intn(len(fs))]
		return w.spendForeign(c), true
	}
	if len(own) < 2 {
		return core.Tx{}, false
	}
	c := own[0]
	v := c.U.Value
	key := KeyOf(w.Keys, c.Pkh)
	var other *Key
	for _, k := range w.Keys {
		if k != key {
			other = k
		}
	}
	base := w.rawTx([]Coin{c}, []uint64{v / 2, v - v/2 - 1}, uint64(r.Intn(int(height)+2)))
	resign := func(t *core.Tx, k *Key) {
		SignTx(t, func(int) *Key { return k })
	}
	switch kind {
	case "valid":
		return base, true
	case "valid-multi":
		n := 2
		t := w.rawTx(own[:n], []uint64{1, 2}, 0)
		return t, true
	case "siblings", "siblings-one-foreign", "multi-one-foreign":
		// several inputs; at most one of them is signed (consistently) by somebody who does not own it
		var set []Coin
		for i := range own {
			if kind == "multi-one-foreign" {
				set = append(set, own[i])
				continue
			}
			set = []Coin{own[i]}
			for j := range own {
				if j != i && own[j].U.TxId == own[i].U.TxId {
					set = append(set, own[j])
				}
			}
			same := len(set) > 1
			for k, c := range set {
				if k > 0 && c.U.Value == set[0].U.Value && c.Pkh != set[0].Pkh {
					set[1], set[k] = set[k], set[1] // the interesting pair, when there is one
				}
			}
			if same {
				break
			}
		}
		n := 2 + r.Intn(2)
		for 72+210*uint64(n)+40 > w.P.MaxTxVSize && n > 2 {
			n--
		}
		if len(set) < 2 {
			return core.Tx{}, false
		}
		set = set[:min(n, len(set))]
		if r.Intn(2) == 0 {
			sort.Slice(set, func(i, j int) bool { return set[i].U.Ind < set[j].U.Ind })
		}
		t := w.rawTx(set, []uint64{1}, 0)
		if kind != "siblings" {
			b := r.Intn(len(set))
			k := KeyOf(w.Keys, set[(b+1)%len(set)].Pkh)
			if k.Pkh == set[b].Pkh || r.Intn(4) == 0 {
				for _, k = range w.Keys {
					if k.Pkh != set[b].Pkh {
						break
					}
				}
			}
			t.Inputs[b].PublicKey = k.Pub
			t.Inputs[b].Signature = k.Sign(PreSig(t.MinBlock, t.Outputs))
		}
		return t, true
	case "zero-out":
		t := w.rawTx([]Coin{c}, []uint64{0, 0, v - 1}, 0)
		return t, true
	case "minblock-future":
		t := w.rawTx([]Coin{c}, []uint64{1}, height+uint64(r.Intn(1000))+2)
		return t, true
	case "flip-sig":
		s := append([]byte{}, base.Inputs[0].Signature...)
		s[r.Intn(len(s))] ^= 1 << uint(r.Intn(8))
		base.Inputs[0].Signature = s
	case "truncated-sig":
		base.Inputs[0].Signature = base.Inputs[0].Signature[:r.Intn(len(base.Inputs[0].Signature))]
	case "no-sig":
		base.Inputs[0].Signature = []byte{}
	case "swap-sigs":
		t := w.rawTx(own[:2], []uint64{1, 2}, 0)
		t.Inputs[0].Signature, t.Inputs[1].Signature = t.Inputs[1].Signature, t.Inputs[0].Signature
		return t, true
	case "other-key":
		resign(&base, other) // consistent signature by a key that does not own the output
	case "other-sig":
		base.Inputs[0].Signature = other.Sign(PreSig(base.MinBlock, base.Outputs))
	case "sig-of-inputs-other-tx":
		t2 := w.rawTx([]Coin{c}, []uint64{v - 2}, base.MinBlock)
		base.Inputs[0].Signature = t2.Inputs[0].Signature
	case "unknown-txid":
		base.Inputs[0].Utxo.TxId = w.RandH()
	case "ind-range":
		base.Inputs[0].Utxo.Ind += uint64(1 + r.Intn(3))
		if r.Intn(3) == 0 {
			base.Inputs[0].Utxo.Ind = 1<<63 + uint64(r.Intn(9))
		}
	case "ind-edge", "ind-max": // the first index its transaction does not have
		base.Inputs[0].Utxo.Ind = uint64(len(w.All.Txs[c.U.TxId].Outputs))
		if kind == "ind-max" {
			base.Inputs[0].Utxo.Ind = []uint64{1<<64 - 1, 1 << 32, 1<<63 - 1, 1 << 31, 1<<32 + c.U.Ind}[r.Intn(5)]
		}
	case "amount-1":
		base.Inputs[0].Utxo.Value-- // the signature does not cover it, the true amount does
		base.Outputs[0].Value = 0
		resign(&base, key)
	case "amount+1":
		base.Inputs[0].Utxo.Value += uint64(1 + r.Intn(100))
	case "change-out-value":
		base.Outputs[0].Value ^= 1
	case "change-out-pkh":
		base.Outputs[0].PublicKeyHash = w.RandH()
	case "change-minblock":
		base.MinBlock++
	case "drop-out":
		base.Outputs = base.Outputs[:1]
	case "add-out":
		base.Outputs = append(base.Outputs, core.TxOut{Value: 0, PublicKeyHash: w.RandH()})
	case "reorder-outs":
		base.Outputs[0], base.Outputs[1] = base.Outputs[1], base.Outputs[0]
	case "add-foreign-input", "replace-input-foreign":
		// somebody else's coin pulled in, reusing the signature at hand
		var f *Coin
		for i := range own[1:] {
			if own[1+i].Pkh != c.Pkh {
				f = &own[1+i]
			}
		}
		if f == nil {
			return core.Tx{}, false
		}
		fk := KeyOf(w.Keys, f.Pkh)
		in := core.TxIn{Utxo: f.U, PublicKey: fk.Pub, Signature: base.Inputs[0].Signature}
		if r.Intn(2) == 0 {
			in.PublicKey = base.Inputs[0].PublicKey
		}
		if kind == "add-foreign-input" {
			base.Inputs = append(base.Inputs, in)
		} else {
			base.Inputs[0] = in
		}
	case "same-key-add-input", "same-key-swap-input":
		// known finding K2: the signature does not cover the inputs
		var f *Coin
		for i := range own[1:] {
			if own[1+i].Pkh == c.Pkh && own[1+i].U.Value >= v {
				f = &own[1+i]
			}
		}
		if f == nil {
			return core.Tx{}, false
		}
		in := core.TxIn{Utxo: f.U, PublicKey: key.Pub, Signature: base.Inputs[0].Signature}
		if kind == "same-key-add-input" {
			base.Inputs = append(base.Inputs, in)
		} else {
			base.Inputs[0] = in
		}
	case "even":
		base = w.rawTx([]Coin{c}, []uint64{v}, 0)
	case "deficit":
		base = w.rawTx([]Coin{c}, []uint64{v, uint64(1 + r.Intn(1000))}, 0)
	case "wrap-out":
		x := uint64(1)<<63 + uint64(r.Int63())
		base = w.rawTx([]Coin{c}, []uint64{x, (v - 1) - x}, 0)
	case "dup-input":
		base = w.rawTx([]Coin{c, c}, []uint64{v - 1}, 0)
	case "size=max", "size=max+1":
		want := w.P.MaxTxVSize
		if kind == "size=max+1" {
			want++
		}
		for n := 1; n <= 5 && n <= len(own); n++ {
			if t := w.padTx(own[:n], want, 0); t != nil {
				return *t, true
			}
		}
		return core.Tx{}, false
	case "rsa-like-garbage-key":
		base.Inputs[0].PublicKey = append([]byte{}, base.Inputs[0].PublicKey...)
		base.Inputs[0].PublicKey[r.Intn(26)] ^= 1 << uint(r.Intn(8))
	case "pub-other-encoding":
		base.Inputs[0].PublicKey = append(append([]byte{}, base.Inputs[0].PublicKey...), 0)
	case "empty-key":
		base.Inputs[0].PublicKey = []byte{}
	case "cb-inputs":
		base.IsCoinbase = true
		base.Outputs = base.Outputs[:1]
		base.Outputs[0].Value = w.P.BlockReward
		resign(&base, key)
	default:
		panic("unknown tx kind " + kind)
	}
	return base, true
}

func (w *World) spendForeign(c Coin) core.Tx {
	t := core.Tx{Inputs: []core.TxIn{{Utxo: c.U}}, Outputs: []core.TxOut{{Value: c.U.Value - 1, PublicKeyHash: w.Keys[0].Pkh}}}
	f := ForeignOf(c.Pkh)
	t.Inputs[0].PublicKey = f.Pub
	t.Inputs[0].Signature = f.sign(PreSig(t.MinBlock, t.Outputs))
	if w.R.Intn(4) == 0 {
		t.Inputs[0].Signature = []byte{}
	}
	return t
}

// UnusualOwners makes a legal transaction paying every kind of unusual owner, and then one transaction per owner spending that; nil without coins.
func (w *World) UnusualOwners(avail map[core.Utxo]H) []core.Tx {
	cs := w.richest(avail, 1)
	if len(cs) == 0 || cs[0].U.Value < 30 {
		return nil
	}
	a := core.Tx{Inputs: []core.TxIn{{Utxo: cs[0].U}}, Outputs: []core.TxOut{}}
	var subs []Coin
	for i, f := range Foreigners() {
		v := uint64(2 + w.R.Intn(2))
		a.Outputs = append(a.Outputs, core.TxOut{Value: v, PublicKeyHash: f.Pkh})
		subs = append(subs, Coin{core.Utxo{Ind: uint64(i), Value: v}, f.Pkh})
	}
	SignTx(&a, func(int) *Key { return KeyOf(w.Keys, cs[0].Pkh) })
	out := []core.Tx{a}
	if TxVSize(a) > w.P.MaxTxVSize {
		return nil
	}
	for _, c := range subs {
		c.U.TxId = TxID(a)
		out = append(out, w.spendForeign(c))
	}
	return out
}
