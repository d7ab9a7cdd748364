//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
)

// line is a block tree as the target computation sees it; no proof of work, any times and targets.
type line struct{ m *vmodel.Inv }

func (l line) HasBlock(id H) bool         { _, ok := l.m.Blocks[id]; return ok }
func (l line) GetBlock(id H) core.Block   { return l.m.Blocks[id].Block }
func (l line) GetBlockHeight(id H) uint64 { return l.m.Blocks[id].Height }
func (l line) GetBlockSpecificAncestor(id H, d int) H {
	return l.m.Anc(id, uint64(d))
}
func (l line) GetBlockAncestors(id H, n int) []H {
	var out []H
	for i := 0; i < n; i++ {
		id = l.m.Blocks[id].Block.PrevBlockId
		out = append(out, id)
		if id.EqZero() {
			break
		}
	}
	return out
}

// legalTime picks a time allowed for a block of height h on parent.
func retarget() {
	rep.Parallel("formula", vlib.N(10000, 60000), 8, func(i int, id string) {
		r := vlib.Rng(id)
		p := vmodel.RandParams(r)
		p.DifficultyPeriod = uint64(4 + r.Intn(30))
		p.BlockTargetTime = []uint64{1, 7, 10, 600, 720, 100000, 1 << 31}[r.Intn(7)]
		switch r.Intn(4) {
		case 0:
			p.MaxTarget = vmodel.FromBig(new(big.Int).Rsh(vmodel.Big(p.MaxTarget), uint(r.Intn(200))))
		case 1:
			p = core.ProdNetParams()
			p.DifficultyPeriod = uint64(4 + r.Intn(30))
		}
		if i%50 == 7 { // as long as those of the real networks, and longer
			p.DifficultyPeriod = []uint64{64, 100, 128, 129, 144, 256, 300, 2016}[r.Intn(8)]
		}
		p.OriginalTarget = vmodel.FromBig(new(big.Int).Rsh(vmodel.Big(p.MaxTarget), uint(r.Intn(60))))
		if p.OriginalTarget.EqZero() {
			p.OriginalTarget = p.MaxTarget
		}
		m := vmodel.NewInv(p)
		l := line{m}
		if got := core.NextTarget(p, l, H{}); got != p.OriginalTarget {
			rep.Violate("first-target", id, fmt.Sprintf("target of the first block is %s, want %s", got, p.OriginalTarget), p)
		}
		tip := H{}
		target := p.OriginalTarget
		pace := r.Intn(6)
		for h := uint64(1); h < 4*p.DifficultyPeriod+3; h++ {
			t := m.MinTime(tip)
			if h == 1 {
				t = []uint64{0, 1, 1700000000, 1 << 40, 1 << 62}[r.Intn(5)]
			}
			switch pace {
			case 0:
			case 1:
				t += p.BlockTargetTime
			case 2:
				t += uint64(r.Int63n(int64(2*p.BlockTargetTime + 1)))
			case 3:
				t += p.BlockTargetTime * uint64(r.Intn(40))
			case 4:
				if r.Intn(4) == 0 {
					t += 1 << uint(r.Intn(50))
				}
			case 5:
				t += uint64(r.Intn(3))
			}
			b := core.Block{PrevBlockId: tip, MerkleRoot: vmodel.HU64(h), Target: target, MinedTime: t, Nonce: r.Uint64()}
			bi := m.AddBlock(b)
			tip = bi.Id
			want, ok := m.NextTarget(tip)
			if !ok {
				continue
			}
			var got H
			rep.Guard(id, func() { got = core.NextTarget(p, l, tip) })
			if got != want {
				rep.Violate("next-target", id, fmt.Sprintf("next target after height %d is %s, the formula gives %s", h, got, want),
					map[string]any{"params": p, "prev_target": target, "time": t, "height": h})
				return
			}
			boundary := (h+1)%p.DifficultyPeriod == 0
			rel := 0
			if boundary {
				lo, hi := vmodel.TargetBounds(p, target)
				g := vmodel.Big(got)
				rel = g.Cmp(vmodel.Big(target))
				if g.Cmp(lo) < 0 || g.Cmp(hi) > 0 {
					rep.Violate("bounds", id, fmt.Sprintf("next target %s outside the verified bounds", got), p)
				}
				clamp := "mid"
				if g.Cmp(lo) == 0 {
					clamp = "lo"
				} else if g.Cmp(hi) == 0 {
					clamp = "hi"
				}
				rep.Seen("clamps", clamp)
				rep.Count("boundaries", 1)
				rep.Eval(fmt.Sprintf("boundary/%d/%d/%s/%d", p.DifficultyPeriod, h/p.DifficultyPeriod, clamp, rel))
				if i < 2 {
					rep.Sample(map[string]any{"height": h, "prev": target, "next": got, "clamp": clamp})
				}
			} else {
				rep.Eval(fmt.Sprintf("inside/%d/%d", p.DifficultyPeriod, h%p.DifficultyPeriod))
			}
			target = got
			if target.EqZero() {
				return
			}
		}
	})
	// the same on the real index, with real proof of work, and acceptance of the result by block verification
	rep.Parallel("accepted", vlib.N(400, 2000), 8, func(i int, id string) {
		r := vlib.Rng(id)
		p := vmodel.RandParams(r)
		w := vmodel.NewWorld(p, r, uint64(time.Now().Unix()))
		real := inv.NewInv(p, nil)
		tip := H{}
		fast := r.Intn(3)
		for h := uint64(1); h < 4*p.DifficultyPeriod; h++ {
			target := core.NextTarget(p, real, tip)
			if vmodel.Big(target).BitLen() < 244 {
				return
			}
			t := w.All.MinTime(tip)
			if base := w.Now - 4000000; t < base {
				t = base
			}
			switch fast {
			case 1:
				t += p.BlockTargetTime
			case 2:
				t += p.BlockTargetTime * uint64(r.Intn(8))
			}
			b := w.Assemble(tip, []core.Tx{w.Coinbase(h, p.BlockReward)}, target, t)
			w.Register(b)
			if err := real.StoreTx(b.Txs[0]); err != nil {
				rep.Errorf("coinbase refused: %v", err)
				return
			}
			for _, m := range b.Merkles {
				if err := real.StoreMerkle(m); err != nil {
					rep.Errorf("merkle refused: %v", err)
					return
				}
			}
			if err := real.StoreBlock(b.Block); err != nil {
				rep.Violate("next-target-refused", id, fmt.Sprintf("block of height %d with the computed next target %s refused: %v", h, target, err), map[string]any{"params": p, "block": b.Block})
				return
			}
			if got := real.GetBlockTotalWork(b.Id); vmodel.Big(got).Cmp(w.All.Blocks[b.Id].Work) != 0 {
				rep.Violate("total-work", id, fmt.Sprintf("total work at height %d is %s, want %s", h, vmodel.Big(got), w.All.Blocks[b.Id].Work), nil)
				return
			}
			if want, ok := w.All.NextTarget(b.Id); ok {
				if got := core.NextTarget(p, real, b.Id); got != want {
					rep.Violate("next-target", id, fmt.Sprintf("next target after height %d is %s, the formula gives %s", h, got, want), p)
					return
				}
			}
			rep.Eval(fmt.Sprintf("real/%d/%d", p.DifficultyPeriod, h))
			tip = b.Id
		}
	})
}
