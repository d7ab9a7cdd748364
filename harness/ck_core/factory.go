//go:build go1.22

package main

import (
	"crypto/ecdsa"
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
)

// origin answers the verifier about the offered outputs.
type origin struct {
	core.InvVerifier
	utxos map[core.Utxo]H
}

func (o origin) HasTxOut(id H, ind uint64) bool {
	for u := range o.utxos {
		if u.TxId == id && u.Ind == ind {
			return true
		}
	}
	return false
}
func (o origin) GetTxOut(id H, ind uint64) core.TxOut {
	for u, p := range o.utxos {
		if u.TxId == id && u.Ind == ind {
			return core.TxOut{Value: u.Value, PublicKeyHash: p}
		}
	}
	panic("no such output")
}

func bigU(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

// feeWindow: the fee must be at least rate*size and at most rate*estimate, give or take the rounding of one coin.
func feeOK(rate float64, size, est uint64, fee *big.Int) bool {
	r := new(big.Rat).SetFloat64(rate)
	lo := new(big.Rat).Mul(r, new(big.Rat).SetInt(bigU(size)))
	hi := new(big.Rat).Mul(r, new(big.Rat).SetInt(bigU(est)))
	f := new(big.Rat).SetInt(fee)
	one := big.NewRat(1, 1)
	// floating point evaluation of the product may be off in the last places
	slack := new(big.Rat).Mul(hi, big.NewRat(1, 1<<40))
	lo.Sub(lo, one).Sub(lo, slack)
	hi.Add(hi, one).Add(hi, slack)
	return f.Cmp(lo) > 0 && f.Cmp(hi) <= 0
}

func estSize(nIn, nOut int) uint64 {
	return 72 + uint64(nIn)*(48+91+72) + 40*uint64(nOut)
}

func factory() {
	rep.Parallel("make", vlib.N(200000, 1500000), 8, func(i int, id string) {
		r := vlib.Rng(id)
		keys := vmodel.Keys(12)[:1+r.Intn(6)]
		privs := make([]*ecdsa.PrivateKey, len(keys))
		own := map[H]bool{}
		for k := range keys {
			privs[k] = keys[k].Priv
			own[keys[k].Pkh] = true
		}
		p := core.DevNetParams()
		p.MaxTxVSize = []uint64{100, 300, 350, 500, 700, 1500, 5000, 16384}[r.Intn(8)]
		var nU int
		switch r.Intn(5) {
		case 0:
			nU = r.Intn(3)
		case 1:
			nU = 60 + r.Intn(60)
		default:
			nU = 1 + r.Intn(12)
		}
		if r.Intn(200) == 0 { // many more than the usual limit lets in
			nU = 150 + r.Intn(500)
			p.MaxTxVSize = []uint64{40000, 131072, 1 << 18}[r.Intn(3)]
		}
		scale := r.Intn(5)
		val := func() uint64 {
			switch scale {
			case 0:
				return uint64(r.Intn(50))
			case 1:
				return uint64(r.Intn(5000))
			case 2:
				return uint64(r.Int63n(1 << 40))
			case 3:
				if r.Intn(6) == 0 {
					return math.MaxUint64 - uint64(r.Intn(3))
				}
				return 1 << uint(r.Intn(64))
			default:
				return uint64(r.Intn(1 << uint(1+r.Intn(30))))
			}
		}
		utxos := map[core.Utxo]H{}
		balance := new(big.Int)
		for k := 0; k < nU; k++ {
			v := val()
			if new(big.Int).Add(balance, bigU(v)).Cmp(bigU(math.MaxUint64)) < 0 { // a ledger never holds that much in all
				u := core.Utxo{TxId: vmodel.HU64(uint64(k) + r.Uint64()), Ind: uint64(r.Intn(3)), Value: v}
				utxos[u] = keys[r.Intn(len(keys))].Pkh
				balance.Add(balance, bigU(v))
			}
		}
		foreign := r.Intn(40) == 0 && len(utxos) > 0
		if foreign {
			utxos[core.Utxo{TxId: vmodel.HU64(r.Uint64()), Value: 5}] = vmodel.HU64(77)
			balance.Add(balance, bigU(5))
		}
		rate := []float64{1, 1, 0.5, 2.25, 10, 1e-9, 0.001, 100, 1e6, 1e15, 1e18, 1e19, 1e20, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64}[r.Intn(16)]
		if r.Intn(3) == 0 {
			rate = r.ExpFloat64() * 3
		}
		if rate <= 0 {
			rate = 1
		}
		minBlock := ru(r)
		vals := make([]uint64, 0, len(utxos))
		for u := range utxos {
			vals = append(vals, u.Value)
		}
		sort.Slice(vals, func(a, b int) bool { return vals[a] > vals[b] })
		var tx *core.Tx
		var err error
		cfg := map[string]any{"utxos": vals, "rate": rate, "max_size": p.MaxTxVSize}
		if r.Intn(3) == 0 {
			rep.Guard(id, func() { tx, err = core.MakeConsolidateTx(p, privs, utxos, rate, minBlock) })
			judgeTx(id, "consolidate", p, utxos, own, nil, rate, minBlock, tx, err, cfg)
			// possible when two or more outputs fit and pay the fee
			n := 0
			sum := new(big.Int)
			for n < len(vals) && estSize(n+1, 1) <= p.MaxTxVSize {
				sum.Add(sum, bigU(vals[n]))
				n++
			}
			feeEst := rate*float64(estSize(n, 1)) + 2
			if err != nil && !foreign && n >= 2 && feeEst < 9e15 && sum.Cmp(bigU(uint64(feeEst))) > 0 {
				rep.Violate("consolidate-refused", id, fmt.Sprintf("consolidating %d outputs is possible but answered %v", n, err), cfg)
			}
			if tx != nil && err == nil && !rep.Violated() && (len(tx.Inputs) != n || vmodel.InSum(*tx).Cmp(sum) != 0) {
				rep.Violate("consolidate-partly", id, fmt.Sprintf("consolidating took %d outputs worth %s, though the %d largest, worth %s, fit", len(tx.Inputs), vmodel.InSum(*tx), n, sum), cfg)
			}
			rep.Max("most_inputs", int64(n))
			rep.Eval(fmt.Sprintf("consolidate/%v/%d", err == nil, min(n, 9)))
			return
		}
		dests := map[H]uint64{}
		tot := new(big.Int)
		nD := r.Intn(5)
		if r.Intn(100) == 0 {
			nD = 20 + r.Intn(300)
		}
		for k := 0; k < nD; k++ {
			pk := vmodel.HU64(uint64(k))
			if r.Intn(3) == 0 {
				pk = keys[r.Intn(len(keys))].Pkh
			}
			var v uint64
			switch r.Intn(7) {
			case 0:
				v = 0
			case 1:
				v = ru(r)
			case 2:
				v = math.MaxUint64 - uint64(r.Intn(4))
			default:
				if b := new(big.Int).Set(balance); b.Sign() > 0 {
					b.Rand(r, b)
					v = b.Uint64() / uint64(1+r.Intn(3))
				}
			}
			if old, ok := dests[pk]; ok {
				tot.Sub(tot, bigU(old))
			}
			dests[pk] = v
			tot.Add(tot, bigU(v))
		}
		if nD > 0 && r.Intn(6) == 0 {
			// leave exactly about the fee
			for pk, old := range dests {
				tot.Sub(tot, bigU(old))
				rest := new(big.Int).Sub(balance, tot)
				fee := new(big.Int).SetInt64(int64(min(rate*float64(estSize(len(utxos), len(dests)+1)), 1e9)) + int64(r.Intn(5)) - 2)
				rest.Sub(rest, fee)
				if rest.Sign() < 0 || !rest.IsUint64() {
					rest.SetInt64(0)
				}
				dests[pk] = rest.Uint64()
				tot.Add(tot, rest)
				break
			}
		}
		if nD > 1 && r.Intn(12) == 0 {
			// destinations adding up past 2^64 to something small
			i := 0
			for pk := range dests {
				if i == 0 {
					dests[pk] = math.MaxUint64
				} else {
					dests[pk] = uint64(i)
				}
				i++
			}
			tot.SetInt64(0)
			for _, v := range dests {
				tot.Add(tot, bigU(v))
			}
		}
		dcopy := map[H]uint64{}
		for k, v := range dests {
			dcopy[k] = v
		}
		dl := map[string]uint64{}
		for k, v := range dcopy {
			dl[k.String()] = v
		}
		cfg["dests"] = dl
		rep.Guard(id, func() { tx, err = core.MakeOutboundTx(p, privs, utxos, dests, rate, minBlock) })
		judgeTx(id, "outbound", p, utxos, own, dcopy, rate, minBlock, tx, err, cfg)
		// possible when some number of the largest outputs covers destinations and estimated fee within the size limit
		possible := false
		sum := new(big.Int)
		for n := 1; n <= len(vals); n++ {
			sum.Add(sum, bigU(vals[n-1]))
			if estSize(n, len(dests)+1) > p.MaxTxVSize {
				break
			}
			fee := rate*float64(estSize(n, len(dests)+1)) + 2
			if fee > 9e15 {
				break
			}
			need := new(big.Int).Add(tot, bigU(uint64(fee*(1+1e-12))))
			if sum.Cmp(need) > 0 {
				possible = true
				if tx != nil && err == nil && len(tx.Inputs) > n && !rep.Violated() {
					rep.Violate("outbound-more", id, fmt.Sprintf("the payment takes %d outputs although the %d largest cover it", len(tx.Inputs), n), cfg)
				}
				rep.Max("most_inputs", int64(n))
				break
			}
		}
		if err != nil && possible && !foreign {
			rep.Violate("outbound-refused", id, fmt.Sprintf("the payment is possible but answered %v", err), cfg)
		}
		rep.Count(fmt.Sprintf("possible_%v", possible), 1)
		rep.Eval(fmt.Sprintf("outbound/%v/%v/%d/%d", possible, err == nil, len(dests), min(len(vals), 9)))
		if i < 2 {
			rep.Sample(map[string]any{"utxos": len(utxos), "dests": len(dests), "rate": rate, "error": fmt.Sprint(err), "tx": tx})
		}
	})
}

func judgeTx(id, what string, p core.Params, utxos map[core.Utxo]H, own map[H]bool, dests map[H]uint64, rate float64, minBlock uint64, tx *core.Tx, err error, cfg any) {
	bad := func(key, f string, a ...any) {
		rep.Violate(what+"-"+key, id, what+": "+fmt.Sprintf(f, a...), map[string]any{"case": cfg, "tx": tx})
	}
	if err != nil {
		rep.Count("errors", 1)
		if tx != nil {
			bad("both", "returned a transaction and the error %v", err)
		}
		return
	}
	if tx == nil {
		if rep.Violated() {
			return // the call panicked and was reported
		}
		bad("neither", "returned neither transaction nor error")
		return
	}
	rep.Count("built", 1)
	if tx.IsCoinbase || tx.MinBlock != minBlock {
		bad("header", "coinbase=%v earliest block %d, asked %d", tx.IsCoinbase, tx.MinBlock, minBlock)
	}
	seen := map[core.Utxo]bool{}
	ps := vmodel.PreSig(tx.MinBlock, tx.Outputs)
	for _, in := range tx.Inputs {
		pk, ok := utxos[in.Utxo]
		if !ok {
			bad("foreign-input", "spends %s[%d] which was not offered", in.Utxo.TxId, in.Utxo.Ind)
			return
		}
		if seen[in.Utxo] {
			bad("twice", "spends %s[%d] twice", in.Utxo.TxId, in.Utxo.Ind)
			return
		}
		seen[in.Utxo] = true
		if vmodel.HBytes(in.PublicKey) != pk || !vmodel.SigValid(in.PublicKey, in.Signature, ps) {
			bad("signature", "input %s[%d] is not properly signed", in.Utxo.TxId, in.Utxo.Ind)
			return
		}
	}
	if s := vmodel.TxVSize(*tx); s > p.MaxTxVSize {
		bad("size", "size %d over the limit %d", s, p.MaxTxVSize)
		return
	}
	// outputs: every destination exactly, the rest one output to an own address
	rest := append([]core.TxOut{}, tx.Outputs...)
	for pk, v := range dests {
		found := -1
		for k, o := range rest {
			if o.PublicKeyHash == pk && o.Value == v {
				found = k
				break
			}
		}
		if found < 0 {
			bad("destination", "destination %s does not receive %d", pk, v)
			return
		}
		rest = append(rest[:found], rest[found+1:]...)
	}
	for _, o := range rest {
		if !own[o.PublicKeyHash] {
			bad("change", "change goes to %s which is not an own address", o.PublicKeyHash)
			return
		}
	}
	if len(rest) > 1 {
		bad("extra-outputs", "%d outputs besides the destinations", len(rest))
		return
	}
	fee := vmodel.Fee(*tx)
	if fee.Sign() <= 0 {
		bad("no-surplus", "fee %s: the transaction is not admissible", fee)
		return
	}
	if !feeOK(rate, vmodel.TxVSize(*tx), estSize(len(tx.Inputs), len(tx.Outputs)), fee) {
		bad("fee", "fee %s for size %d (estimate %d) at rate %g", fee, vmodel.TxVSize(*tx), estSize(len(tx.Inputs), len(tx.Outputs)), rate)
		return
	}
	if verr := core.NewVerifier(p, origin{utxos: utxos}).VerifyTx(*tx); verr != nil {
		bad("inadmissible", "the built transaction is refused: %v", verr)
	}
}
