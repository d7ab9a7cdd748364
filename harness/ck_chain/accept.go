//go:build go1.22

package main

import (
	"fmt"
	"time"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
)

type H = core.HashT

// side runs a real inventory next to the model.
type side struct {
	id   string
	real *inv.Inv
	mod  *vmodel.Inv
	w    *vmodel.World
	kind string
	dead bool
}

// judge compares one acceptance decision. Returns false when the case cannot continue.
func (s *side) judge(what string, v vmodel.Verdict, reason string, accepted bool, err error, detail any) bool {
	rep.Count("decisions", 1)
	if accepted {
		rep.Count("accepted", 1)
	} else {
		rep.Count("refused", 1)
		rep.Seen("refusal_reasons", reason)
	}
	switch {
	case v == vmodel.Bad && accepted:
		if reasons[vlib.Prop][reason] {
			rep.Violate("accepted:"+reason, s.id, fmt.Sprintf("%s of kind %q accepted although it breaks the rule %q", what, s.kind, reason), detail)
		} else {
			rep.Count("diverged", 1)
		}
		s.dead = true
		return false
	case v == vmodel.OK && !accepted:
		if vlib.Prop != "C01" && vlib.Prop != "C02" {
			rep.Violate("refused:"+what, s.id, fmt.Sprintf("conforming %s (kind %q) refused: %v", what, s.kind, err), detail)
		} else {
			rep.Count("diverged", 1)
		}
		s.dead = true
		return false
	}
	return true
}

// offer stores every part of a bundle in order on both sides; returns whether the block is now known.
func (s *side) offer(b *vmodel.Bundle) bool {
	for _, t := range b.Txs {
		id := vmodel.TxID(t)
		if _, ok := s.mod.Txs[id]; ok {
			continue
		}
		v, why := s.mod.CheckTx(t)
		err := s.real.StoreTx(t)
		acc := s.real.HasTx(t.Hash())
		if (err == nil) != acc {
			rep.Violate("answer-mismatch", s.id, fmt.Sprintf("storing a transaction answered %v but known=%v", err, acc), t)
		}
		if !s.judge("transaction", v, why, acc, err, t) {
			return false
		}
		if acc {
			s.mod.AddTx(t)
		} else {
			return false
		}
	}
	for _, m := range b.Merkles {
		id := vmodel.MerkleID(m)
		if _, ok := s.mod.Merkles[id]; ok {
			continue
		}
		v, why := s.mod.CheckMerkle(m)
		err := s.real.StoreMerkle(m)
		acc := s.real.HasMerkle(m.Hash())
		if !s.judge("merkle node", v, why, acc, err, m) {
			return false
		}
		if acc {
			s.mod.AddMerkle(m)
		} else {
			return false
		}
	}
	if _, ok := s.mod.Blocks[b.Id]; ok {
		return true
	}
	v, why := s.mod.CheckBlock(b.Block, uint64(time.Now().Unix()))
	err := s.real.StoreBlock(b.Block)
	acc := s.real.HasBlock(b.Block.Hash())
	if (err == nil) != acc {
		rep.Violate("answer-mismatch", s.id, fmt.Sprintf("storing a block answered %v but known=%v", err, acc), b.Block)
	}
	if !s.judge("block", v, why, acc, err, map[string]any{"block": b.Block, "height": s.height(b.Parent) + 1, "params": s.w.P, "ancestor_times": s.times(b.Parent)}) {
		return false
	}
	if s.kind != "legal" && s.kind != "" {
		rep.Eval(fmt.Sprintf("%s/%s/%s/h%d/p%d", s.kind, why, vlib.Prop, (s.height(b.Parent)+1)%s.w.P.DifficultyPeriod, s.w.P.DifficultyPeriod))
	} else {
		rep.Eval("legal")
	}
	if !acc {
		return false
	}
	s.mod.AddBlock(b.Block)
	if vlib.Prop == "C06" {
		// an accepted chain must never make the next-target computation fail
		rep.Guard(s.id, func() {
			core.NextTarget(s.w.P, s.real, b.Id)
			rep.Count("next_targets", 1)
		})
	}
	return true
}

func (s *side) height(id H) uint64 {
	if b, ok := s.mod.Blocks[id]; ok {
		return b.Height
	}
	return 0
}
func (s *side) times(id H) []uint64 {
	var out []uint64
	for i := 0; i < 9 && !id.EqZero(); i++ {
		b, ok := s.mod.Blocks[id]
		if !ok {
			break
		}
		out = append(out, b.Block.MinedTime)
		id = b.Block.PrevBlockId
	}
	return out
}

func newSide(id string) *side { return newSideWith(id, vmodel.RandParams(vlib.Rng(id, "p"))) }

func newSideWith(id string, p core.Params) *side {
	r := vlib.Rng(id)
	w := vmodel.NewWorld(p, r, uint64(time.Now().Unix()))
	return &side{id: id, real: inv.NewInv(p, nil), mod: vmodel.NewInv(p), w: w}
}

// grow adds n legal blocks; returns false on divergence.
func (s *side) grow(n int, forky int) bool {
	for i := 0; i < n; i++ {
		par := H{}
		if len(s.w.Order) > 0 {
			k := len(s.w.Order) - 1 - s.w.R.Intn(min(forky, len(s.w.Order)))
			par = s.w.Order[k]
		}
		b := s.w.NextBlock(par, nil, 3)
		s.kind = "legal"
		s.w.Register(b)
		if !s.offer(b) {
			return false
		}
	}
	return true
}

// accept: thousands of boundary and hostile blocks against the real inventory.
func accept(n int) {
	kinds := []string{}
	for _, c := range classOf[vlib.Prop] {
		kinds = append(kinds, vmodel.Kinds[c]...)
	}
	rep.Parallel("accept", n, 8, func(i int, id string) {
		s := newSide(id)
		r := s.w.R
		if i%5 == 0 { // boundary around genesis
			s.mutants(kinds, 6, func() H { return H{} })
		}
		if s.dead || !s.grow(2+r.Intn(int(3*s.w.P.DifficultyPeriod)), 1+r.Intn(3)) {
			return
		}
		for round := 0; round < 4 && !s.dead; round++ {
			s.mutants(kinds, 10, func() H {
				o := s.w.Order
				if r.Intn(3) > 0 {
					return o[len(o)-1-r.Intn(min(3, len(o)))]
				}
				return o[r.Intn(len(o))]
			})
			if s.dead || !s.grow(1+r.Intn(4), 2) {
				return
			}
		}
	})
}

// periods: the same around the ends of periods as long as those of the real networks, and longer.
func periods(n int) {
	kinds := []string{}
	for _, c := range classOf[vlib.Prop] {
		kinds = append(kinds, vmodel.Kinds[c]...)
	}
	rep.Parallel("period", n, 8, func(i int, id string) {
		r := vlib.Rng(id, "p")
		p := vmodel.RandParams(r)
		p.DifficultyPeriod = []uint64{128, 16, 32, 64, 128, 144, 240}[i%7] + uint64(r.Intn(2))
		s := newSideWith(id, p)
		near := func() H {
			o := s.w.Order
			return o[len(o)-1-r.Intn(min(4, len(o)))]
		}
		for k := uint64(1); k < 4 && !s.dead; k++ {
			to := k*p.DifficultyPeriod - uint64(1+r.Intn(3))
			if h := s.height(s.tallest()); h < to && !s.grow(int(to-h), 1) {
				return
			}
			for x := 0; x < 5 && !s.dead; x++ {
				s.mutants(kinds, 8, near)
				if s.dead || !s.grow(1, 2) {
					return
				}
			}
		}
		rep.Max("longest_period", int64(p.DifficultyPeriod))
	})
}

func (s *side) tallest() H {
	best := H{}
	for _, id := range s.w.Order {
		if s.height(id) > s.height(best) {
			best = id
		}
	}
	return best
}

func (s *side) mutants(kinds []string, n int, parent func() H) {
	r := s.w.R
	for k := 0; k < n && !s.dead; k++ {
		kind := kinds[r.Intn(len(kinds))]
		par := parent()
		if _, ok := s.mod.Blocks[par]; !ok {
			continue
		}
		b := s.w.Mutant(kind, par)
		if b == nil {
			rep.Count("mutant_not_applicable", 1)
			continue
		}
		s.kind = kind
		rep.Count("mutants", 1)
		rep.Seen("mutant_kinds", kind)
		v, why := vmodel.Bad, ""
		known := s.offer(b)
		if known && !s.dead {
			s.w.Register(b)
		}
		_ = v
		if k == 0 {
			rep.Sample(map[string]any{"case": s.id, "kind": kind, "height": s.height(par) + 1, "accepted": known, "reason": why})
		}
	}
}

// admit: single transactions derived from valid ones (C03).
func admit(n int) {
	rep.Parallel("admit", n, 8, func(i int, id string) {
		s := newSide(id)
		r := s.w.R
		if !s.grow(6+r.Intn(8), 2) {
			return
		}
		plan := append(r.Perm(len(vmodel.TxKinds)), r.Perm(len(vmodel.TxKinds))...)
		extra := s.w.UnusualOwners(s.w.Led[s.w.Order[len(s.w.Order)-1]].Utxos)
		for k := 0; k < len(plan)+len(extra) && !s.dead; k++ {
			head := s.w.Order[len(s.w.Order)-1-r.Intn(min(2, len(s.w.Order)))]
			kind, ok := "unusual-owner", true
			var t core.Tx
			if k < len(extra) {
				t = extra[k]
			} else {
				kind = vmodel.TxKinds[plan[k-len(extra)]]
				t, ok = s.w.MutantTx(kind, s.w.Led[head].Utxos, s.height(head))
			}
			if !ok {
				rep.Count("mutant_not_applicable", 1)
				continue
			}
			txid := vmodel.TxID(t)
			if _, known := s.mod.Txs[txid]; known {
				continue
			}
			s.kind = kind
			v, why := s.mod.CheckTx(t)
			err := s.real.StoreTx(t)
			acc := s.real.HasTx(t.Hash())
			if (err == nil) != acc {
				rep.Violate("answer-mismatch", id, fmt.Sprintf("submitting answered %v but known=%v", err, acc), t)
			}
			rep.Seen("mutant_kinds", kind)
			if (kind == "same-key-add-input" || kind == "same-key-swap-input") && v == vmodel.OK {
				rep.Eval("K2/" + kind)
				if acc {
					rep.Violate("K2-inputs-not-signed", id, "a transaction whose inputs were changed after signing ("+kind+") was admitted without a new signature", t)
					s.mod.AddTx(t)
				}
				continue
			}
			if !s.judge("transaction", v, why, acc, err, t) {
				return
			}
			rep.Eval(fmt.Sprintf("%s/%s/%d/%d", kind, why, len(t.Inputs), len(t.Outputs)))
			if k == 0 {
				rep.Sample(map[string]any{"case": id, "kind": kind, "verdict_reason": why, "accepted": acc})
			}
			if acc {
				s.mod.AddTx(t)
				if got := s.real.GetTx(txid); !vmodel.SameTx(got, t) {
					rep.Violate("stored-differs", id, "the admitted transaction is not the one stored", t)
				}
			}
		}
	})
}
