//go:build go1.22

package vmodel

import "github.com/levilutz/basiccoin/pkg/core"

// Many makes a chain on which count outputs of less than the reward each are ours to spend; the reward must be large, the size limits wide.
func (w *World) Many(count int) H {
	tip := H{}
	for left := count; left > 0; {
		h := w.All.Blocks[tip].Height + 1
		b := w.Assemble(tip, []core.Tx{w.Coinbase(h, w.P.BlockReward)}, w.BlockTarget(tip), w.BlockTime(tip))
		for _, co := range Coins(w.Led[tip].Utxos) {
			k := KeyOf(w.Keys, co.Pkh)
			if co.U.Value < w.P.BlockReward || k == nil {
				continue
			}
			m := min(1300, left)
			t := core.Tx{Inputs: []core.TxIn{{Utxo: co.U}}, Outputs: []core.TxOut{}}
			for i := 0; i < m; i++ {
				t.Outputs = append(t.Outputs, core.TxOut{Value: (co.U.Value - 9) / uint64(m+1), PublicKeyHash: w.Keys[w.R.Intn(len(w.Keys))].Pkh})
			}
			SignTx(&t, func(int) *Key { return k })
			b = w.Assemble(tip, []core.Tx{w.Coinbase(h, w.P.BlockReward+FeeSum([]core.Tx{t})), t}, b.Block.Target, b.Block.MinedTime)
			left -= m
			break
		}
		w.Register(b)
		tip = b.Id
	}
	return tip
}

// SpendParts spends each of the outputs made by Many that is there at the block.
func (w *World) SpendParts(at H) []core.Tx {
	var out []core.Tx
	for _, co := range Coins(w.Led[at].Utxos) {
		if co.U.Value < w.P.BlockReward && co.U.Value > 1000 && KeyOf(w.Keys, co.Pkh) != nil {
			out = append(out, w.Spend([]Coin{co}, 1+uint64(w.R.Intn(500)), 1, 0))
		}
	}
	return out
}

// Full makes a block of the first of the transactions, as many as fit.
func (w *World) Full(parent H, txs []core.Tx) *Bundle {
	body, size := []core.Tx{}, uint64(112)
	for _, t := range txs {
		if size += TxVSize(t); size > w.P.MaxBlockVSize {
			break
		}
		body = append(body, t)
	}
	cb := w.Coinbase(w.All.Blocks[parent].Height+1, w.P.BlockReward+FeeSum(body))
	return w.Assemble(parent, append([]core.Tx{cb}, body...), w.BlockTarget(parent), w.BlockTime(parent))
}
