//go:build go1.22

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
)

// index: every ancestry query of the real block index against the model, on memory and disk backed stores.
func index(n int) {
	rep.Parallel("index", n, 8, func(i int, id string) {
		r := vlib.Rng(id)
		p := vmodel.RandParams(r)
		w := vmodel.NewWorld(p, r, uint64(time.Now().Unix()))
		var dir *string
		if i%4 == 0 {
			d := filepath.Join(vlib.Work, strings.ReplaceAll(id, ":", "_"))
			for _, k := range []string{"", "/blocks", "/merkles", "/txs"} {
				os.MkdirAll(d+k, 0755)
			}
			dir = &d
		}
		s := &side{id: id, real: inv.NewInv(p, dir), mod: vmodel.NewInv(p), w: w}
		forky := 1 + r.Intn(12)
		for k := 0; k < 6; k++ {
			if !s.grow(3+r.Intn(8), forky) {
				return
			}
			if r.Intn(2) == 0 {
				s.mutants([]string{"no-pow", "cb+1", "unknown-root", "time=median", "legal", "cb-height+1"}, 3, func() H { return s.w.Order[r.Intn(len(s.w.Order))] })
			}
			if s.dead {
				return
			}
			compareIndex(id, s.real, s.mod)
			if rep.Violated() {
				return
			}
		}
		if dir != nil {
			// the reloaded index answers the same
			compareIndex(id, inv.NewInv(p, dir), s.mod)
			os.RemoveAll(*dir)
		}
		if i < 2 {
			rep.Sample(map[string]any{"case": id, "blocks": len(s.mod.Order), "forkiness": forky})
		}
	})
}

func (s *sim) cmpIndex() { compareIndex(s.id, s.n.Inv, s.known) }

func compareIndex(id string, real *inv.Inv, m *vmodel.Inv) {
	r := vlib.Rng(id, "q", len(m.Blocks))
	bad := func(q string, got, want any) {
		rep.Violate("query:"+strings.SplitN(q, "(", 2)[0], id, fmt.Sprintf("%s = %v, want %v", q, got, want), nil)
	}
	ids := append([]H{{}}, m.Order...)
	for _, b := range ids {
		bi := m.Blocks[b]
		if !real.HasBlock(b) {
			bad("HasBlock("+short(b)+")", false, true)
			return
		}
		if got := real.GetBlock(b); got != bi.Block {
			bad("GetBlock("+short(b)+")", got, bi.Block)
		}
		if got := real.GetBlockHeight(b); got != bi.Height {
			bad("GetBlockHeight("+short(b)+")", got, bi.Height)
		}
		if got := real.GetBlockTotalWork(b); vmodel.Big(got).Cmp(bi.Work) != 0 {
			bad("GetBlockTotalWork("+short(b)+")", vmodel.Big(got), bi.Work)
		}
		rep.Eval("block/" + fmt.Sprint(bi.Height))
		if b.EqZero() {
			continue
		}
		if got := real.GetBlockParentId(b); got != bi.Block.PrevBlockId {
			bad("GetBlockParentId("+short(b)+")", got, bi.Block.PrevBlockId)
		}
		// whole path
		path := []H{}
		for x := bi.Block.PrevBlockId; ; x = m.Blocks[x].Block.PrevBlockId {
			path = append(path, x)
			if x.EqZero() {
				break
			}
		}
		for _, k := range []int{0, 1, 2, r.Intn(len(path) + 1), len(path) - 1, len(path), len(path) + 1, len(path) + 5} {
			if k < 0 {
				continue
			}
			got := real.GetBlockAncestors(b, k)
			want := path[:min(k, len(path))]
			if !slices.Equal(got, want) {
				bad(fmt.Sprintf("GetBlockAncestors(%s,%d)", short(b), k), got, want)
			}
			wantA := b
			if k > 0 {
				wantA = path[min(k, len(path))-1]
			}
			if got := real.GetBlockSpecificAncestor(b, k); got != wantA {
				bad(fmt.Sprintf("GetBlockSpecificAncestor(%s,%d)", short(b), k), got, wantA)
			}
			rep.Eval(fmt.Sprintf("anc/%d/%d", len(path), k))
		}
		if got := real.GetMerkleTxIds(bi.Block.MerkleRoot); !slices.Equal(got, bi.TxIds) {
			bad("GetMerkleTxIds("+short(b)+")", got, bi.TxIds)
		}
		for i, t := range real.GetMerkleTxs(bi.Block.MerkleRoot) {
			if !vmodel.SameTx(t, m.Txs[bi.TxIds[i]]) {
				bad("GetMerkleTxs("+short(b)+")", i, "other content")
			}
		}
	}
	for k := 0; k < 3*len(ids); k++ {
		a, b := ids[r.Intn(len(ids))], ids[r.Intn(len(ids))]
		l := m.LCA(a, b)
		if got := real.GetBlockLCA(a, b); got != l {
			bad(fmt.Sprintf("GetBlockLCA(%s,%s)", short(a), short(b)), got, l)
		}
		isAnc := l == b
		want := uint64(0)
		if isAnc {
			want = m.Blocks[a].Height - m.Blocks[b].Height
		}
		d, ok := real.GetBlockAncestorDepth(a, b)
		if ok != isAnc || d != want {
			bad(fmt.Sprintf("GetBlockAncestorDepth(%s,%s)", short(a), short(b)), fmt.Sprint(d, ok), fmt.Sprint(want, isAnc))
		}
		rep.Eval(fmt.Sprintf("pair/%v/%d", isAnc, want))
		if isAnc {
			wantL := []H{}
			for x := a; x != b; {
				x = m.Blocks[x].Block.PrevBlockId
				if x != b {
					wantL = append(wantL, x)
				}
			}
			if got := real.GetBlockAncestorsUntil(a, b); !slices.Equal(got, wantL) {
				bad(fmt.Sprintf("GetBlockAncestorsUntil(%s,%s)", short(a), short(b)), got, wantL)
			}
		}
		// a list with unknown ids
		q := []H{vmodel.HU64(uint64(k)), a, b}
		if k%3 == 0 {
			q = []H{vmodel.HU64(uint64(k)), vmodel.HU64(uint64(k) + 1)}
			if got, ok := real.HasAnyBlock(q); ok {
				bad("HasAnyBlock(unknown)", got, "none")
			}
		} else if got, ok := real.HasAnyBlock(q); !ok || (got != a && got != b) {
			bad("HasAnyBlock(known)", fmt.Sprint(got, ok), a)
		}
	}
	for tid, t := range m.Txs {
		if !real.HasTx(tid) || !vmodel.SameTx(real.GetTx(tid), t) {
			bad("GetTx("+short(tid)+")", real.HasTx(tid), "stored content")
		} else if real.GetTxVSize(tid) != vmodel.TxVSize(t) || real.GetEntityVSize(tid) != vmodel.TxVSize(t) {
			bad("GetTxVSize("+short(tid)+")", real.GetTxVSize(tid), vmodel.TxVSize(t))
		} else {
			n := uint64(len(t.Outputs))
			if real.HasTxOut(tid, n) || (n > 0 && (!real.HasTxOut(tid, n-1) || real.GetTxOut(tid, n-1) != t.Outputs[n-1])) {
				bad("HasTxOut("+short(tid)+")", "wrong", n)
			}
		}
	}
	for mid, mn := range m.Merkles {
		if !real.HasMerkle(mid) || real.GetMerkle(mid) != mn || !real.HasEntity(mid) {
			bad("GetMerkle("+short(mid)+")", real.HasMerkle(mid), mn)
		} else if real.GetMerkleVSize(mid) != m.MSize[mid] {
			bad("GetMerkleVSize("+short(mid)+")", real.GetMerkleVSize(mid), m.MSize[mid])
		}
	}
}
