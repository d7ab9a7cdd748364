//go:build go1.22

package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
)

func isCrash(n *vnode.Node) (string, bool) { return n.Crashed() }

// trouble reports a node that failed or did not answer.
func trouble(n *vnode.Node, id, when string, err error) {
	if c, ok := n.Crashed(); ok {
		if strings.HasPrefix(c, ": ") {
			rep.Errorf("case %s: harness failure inside the node goroutine: %s", id, c)
			return
		}
		rep.Violate("node-failed", id, when+": the node failed: "+c, nil)
		return
	}
	rep.Inconclusive("case %s: %s: %v", id, when, err)
	rep.Undecided()
}

// restarts: one node that is stopped and started again now and then, and a twin that never stops, fed the same.
func restarts() {
	rep.Parallel("restart", vlib.N(200, 2500), 24, func(i int, id string) { restartCase(i, id, newScript(id)) })
	// the same with a chain of more than a thousand blocks, left for another of its length half way
	rep.Parallel("long", vlib.N(3, 30), 3, func(i int, id string) {
		s := newScript(id)
		n := 1050 + s.w.R.Intn(500)
		s.todo = s.parts(s.lengthen(H{}, n, H{}))
		s.late = func() []step {
			old := s.tip
			bs := s.lengthen(s.w.All.Anc(old, s.w.All.Blocks[old].Height-20), 2*n, old)
			rep.Max("deepest_reorg", int64(len(bs)))
			return s.parts(bs)
		}
		rep.Max("longest_chain", int64(n))
		restartCase(i+2, id, s)
	})
	// and with thousands of outputs and blocks of thousands of transactions
	rep.Parallel("wide", vlib.N(2, 20), 2, func(i int, id string) {
		p := vmodel.RandParams(vlib.Rng(id, "params"))
		p.BlockReward, p.MaxBlockVSize, p.MaxTxVSize = 1<<40, 1<<20, 1<<17
		s := newScriptWith(id, p)
		s.tip = s.w.Many(vlib.N(2500, 3700))
		s.todo = s.parts(s.bundles(s.tip))
		s.late = func() []step {
			b := s.w.Full(s.tip, s.w.SpendParts(s.tip))
			s.w.Register(b)
			s.tip = b.Id
			rep.Max("largest_block_txs", int64(len(b.Txs)))
			return s.parts([]*vmodel.Bundle{b})
		}
		restartCase(i+2, id, s)
	})
}

func restartCase(i int, id string, s *script) {
	r := s.w.R
	dir := filepath.Join(vlib.Work, strings.ReplaceAll(id, ":", "_"))
	if r.Intn(4) == 0 {
		dir += "/deeper/still"
	}
	miners := r.Intn(2) == 0
	twin := vnode.New(s.w.P, miners, nil)
	node := vnode.New(s.w.P, miners, &dir)
	log := []string{}
	fail := func(key, f string, a ...any) {
		rep.Violate(key, id, fmt.Sprintf(f, a...), map[string]any{"steps": log, "params": s.w.P})
	}
	for _, n := range []*vnode.Node{twin, node} {
		if err := n.Barrier(); err != nil {
			trouble(n, id, "first start", err)
			return
		}
	}
	steps, restartsLeft := 14+r.Intn(14), 1+r.Intn(3)
	if s.late != nil {
		restartsLeft++
	}
	nRestarts, afterPending := 0, 0
	lastBad := false
	pending := map[H]bool{}
	for k := 0; k < steps; k++ {
		if restartsLeft > 0 && r.Intn(steps/3) == 0 || (restartsLeft > 0 && k == steps-3) || (lastBad && r.Intn(2) == 0) {
			restartsLeft--
			before := twin.Head
			txs := []H{}
			for t := range s.w.All.Txs {
				txs = append(txs, t)
			}
			for _, t := range s.pool {
				txs = append(txs, vmodel.TxID(t))
			}
			old, err := node.Observe(s.pkhs(), txs)
			if err != nil {
				trouble(node, id, "before a stop", err)
				return
			}
			log = append(log, "restart")
			node = vnode.New(s.w.P, miners, &dir)
			if err := node.Barrier(); err != nil {
				trouble(node, id, "restart", err)
				return
			}
			node.DrainHeads()
			if node.Head != before {
				fail("head-after-restart", "the node was at %s and restarted at %s", before, node.Head)
				return
			}
			now, err := node.Observe(s.pkhs(), txs)
			if err != nil {
				trouble(node, id, "after a restart", err)
				return
			}
			if d := diffView(old, now); d != "" {
				fail("ledger-after-restart", "after a restart: %s", d)
				return
			}
			if d := s.cmpLedger(node, before); d != "" {
				fail("ledger-after-restart", "after a restart: %s", d)
				return
			}
			seen, bad := s.cmpRecords(node.Inv, func(h H) bool { return twin.Inv.HasBlock(h) || twin.Inv.HasMerkle(h) || twin.Inv.HasTx(h) })
			rep.Count("records_compared", int64(seen))
			if bad != "" {
				fail("record", "after a restart: %s", bad)
				return
			}
			for _, t := range s.pool {
				tid := vmodel.TxID(t)
				if twin.Inv.HasTx(tid) && !node.Inv.HasTx(tid) {
					fail("record", "a pending transaction is gone after a restart")
					return
				}
			}
			nRestarts++
			rep.Count("restarts", 1)
			if lastBad {
				rep.Count("restarts_after_refusal", 1)
			}
			rep.Eval(fmt.Sprint("restart", nRestarts, len(s.w.All.Blocks)/3, len(pending) > 0, s.w.All.Blocks[before].Height))
		}
		if s.late != nil && k >= steps/2 {
			s.todo, s.late = append(s.todo, s.late()...), nil
		}
		st := s.next()
		lastBad = st.bad
		log = append(log, st.note)
		if st.kind == "tx" {
			tid := vmodel.TxID(st.tx)
			var ans [2]error
			for j, n := range []*vnode.Node{twin, node} {
				a, err := n.Submit(st.tx)
				if err != nil {
					trouble(n, id, "submitting a transaction", err)
					return
				}
				ans[j] = a
			}
			if (ans[0] == nil) != (ans[1] == nil) {
				fail("tx-verdict", "a transaction was answered %v by the node that was restarted and %v by the one that never stopped", ans[1], ans[0])
				return
			}
			if ans[0] == nil {
				pending[tid] = true
			}
			continue
		}
		ev := st.ev
		if r.Intn(3) > 0 { // as a sync with a peer brings it: only what is not there yet
			a := invKnown(twin.Inv)
			ev = thin(ev, a)
		}
		for _, b := range st.built {
			for _, t := range b.Txs {
				if pending[vmodel.TxID(t)] && nRestarts > 0 {
					afterPending++
					rep.Count("restart_then_pending_included", 1)
				}
			}
		}
		for _, n := range []*vnode.Node{twin, node} {
			if _, err := n.Offer(ev); err != nil {
				trouble(n, id, "event after "+log[len(log)-1], err)
				return
			}
		}
		if st.bad && twin.Head == st.ev.Head {
			rep.Inconclusive("case %s: a chain that must be refused was followed", id)
			rep.Undecided()
			return
		}
		if twin.Head != node.Head {
			fail("head-differs", "a node that never stopped is at %s (height %d), the restarted one at %s (height %d)",
				twin.Head, s.w.All.Blocks[twin.Head].Height, node.Head, s.w.All.Blocks[node.Head].Height)
			return
		}
		rep.Count("events", 1)
	}
	if d := s.cmpLedger(node, twin.Head); d != "" {
		fail("ledger-after-restart", "at the end: %s", d)
	}
	rep.Eval(fmt.Sprint("end", nRestarts, afterPending, len(s.w.All.Blocks)/4))
	if i < 2 {
		rep.Sample(map[string]any{"case": id, "steps": log, "height": s.w.All.Blocks[twin.Head].Height})
	}
}

func diffView(a, b *vnode.View) string {
	if a.Height != b.Height {
		return fmt.Sprintf("height was %d and is %d", a.Height, b.Height)
	}
	if d := diffMap("unspent outputs", a.Utxos, b.Utxos); d != "" {
		return d
	}
	if d := diffMap("balances", a.Balances, b.Balances); d != "" {
		return d
	}
	if d := diffMap("rich list", a.Rich, b.Rich); d != "" {
		return d
	}
	if d := diffMap("confirmations", a.Confirms, b.Confirms); d != "" {
		return d
	}
	return diffMap("including blocks", a.Incl, b.Incl)
}

func diffMap[K comparable, V comparable](what string, a, b map[K]V) string {
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return fmt.Sprintf("%s differ: %v was %v and is %v (present %v)", what, k, v, w, ok)
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%s: there were %d and there are %d", what, len(a), len(b))
	}
	return ""
}

// ---- the text of records ----

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func randU(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return r.Uint64()
	case 1:
		return uint64(r.Intn(10))
	case 2:
		return ^uint64(0) - uint64(r.Intn(2))
	}
	return uint64(1) << uint(r.Intn(64))
}

func randH(r *rand.Rand) H {
	if r.Intn(8) == 0 {
		return H{}
	}
	return core.NewHashTFromBytes(randBytes(r, 32))
}

func randTx(r *rand.Rand) core.Tx {
	t := core.Tx{IsCoinbase: r.Intn(2) == 0, MinBlock: randU(r), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for k := r.Intn(4); k > 0; k-- {
		t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: randH(r), Ind: randU(r), Value: randU(r)},
			PublicKey: randBytes(r, 1+r.Intn(200)), Signature: randBytes(r, 1+r.Intn(120))})
	}
	for k := r.Intn(5); k > 0; k-- {
		t.Outputs = append(t.Outputs, core.TxOut{Value: randU(r), PublicKeyHash: randH(r)})
	}
	return t
}

// guarded calls a parser and reports whether it accepted; a crash is a violation.
func guarded(id, what, text string, f func(string) error) bool {
	ok := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				rep.Violate("parse-crash", id, fmt.Sprintf("reading a damaged %s record crashed: %v", what, x), text)
			}
		}()
		ok = f(text) == nil
	}()
	return ok
}

func records() {
	rep.Parallel("text", vlib.N(1500, 40000), 8, func(i int, id string) {
		r := vlib.Rng(id)
		b := inv.BlockRecord{Block: core.Block{PrevBlockId: randH(r), MerkleRoot: randH(r), Target: randH(r), Noise: randH(r), Nonce: randU(r), MinedTime: randU(r)}, Height: randU(r), TotalWork: randH(r)}
		m := inv.MerkleRecord{Merkle: core.MerkleNode{LChild: randH(r), RChild: randH(r)}, VSize: randU(r)}
		t := inv.TxRecord{Tx: randTx(r), VSize: randU(r)}
		kinds := []struct {
			what   string
			text   string
			parse  func(string) error
			again  func(string) string
			same   func(string) bool
			hashes []int // rows that hold hashes
			nums   []int
		}{
			{"block", b.String(), func(s string) error { _, e := inv.BlockRecordFromString(s); return e },
				func(s string) string { x, _ := inv.BlockRecordFromString(s); return x.String() },
				func(s string) bool { x, e := inv.BlockRecordFromString(s); return e == nil && x == b }, []int{0, 1, 2, 3, 7}, []int{4, 5, 6}},
			{"merkle", m.String(), func(s string) error { _, e := inv.MerkleRecordFromString(s); return e },
				func(s string) string { x, _ := inv.MerkleRecordFromString(s); return x.String() },
				func(s string) bool { x, e := inv.MerkleRecordFromString(s); return e == nil && x == m }, []int{0, 1}, []int{2}},
			{"tx", t.String(), func(s string) error { _, e := inv.TxRecordFromString(s); return e },
				func(s string) string { x, _ := inv.TxRecordFromString(s); return x.String() },
				func(s string) bool {
					x, e := inv.TxRecordFromString(s)
					return e == nil && vmodel.SameTx(x.Tx, t.Tx) && x.VSize == t.VSize
				}, nil, []int{0, 2, 3, 4}},
		}
		k := kinds[r.Intn(3)]
		if k.what == "tx" {
			for j := range t.Tx.Inputs {
				k.hashes = append(k.hashes, 5+5*j)
				k.nums = append(k.nums, 6+5*j, 7+5*j)
			}
			for j := range t.Tx.Outputs {
				k.nums = append(k.nums, 5+5*len(t.Tx.Inputs)+2*j)
				k.hashes = append(k.hashes, 6+5*len(t.Tx.Inputs)+2*j)
			}
		}
		same := false
		if guarded(id, k.what, k.text, k.parse) {
			same = k.same(k.text)
		}
		if !same {
			rep.Violate("record-text", id, "a "+k.what+" record does not read back as it was written", k.text)
		}
		rep.Eval("roundtrip " + k.what + fmt.Sprint(len(t.Tx.Inputs), len(t.Tx.Outputs)))
		rows := strings.Split(k.text, "\n")
		cp := func() []string { return append([]string{}, rows...) }
		// damage that no reading can make sense of
		type dmg struct{ name, text string }
		var ds []dmg
		add := func(name string, rs []string) { ds = append(ds, dmg{name, strings.Join(rs, "\n")}) }
		j := r.Intn(len(rows))
		add("row missing", append(cp()[:j], rows[j+1:]...))
		add("row added", append(append(cp()[:j], "00"), rows[j:]...))
		add("empty", nil)
		for _, bad := range []string{"", "xyz", "-1", "18446744073709551616", "1e3", "0x10", " 5", "5 ", "1.0", "9999999999999999999999999", "\x00\xff"} {
			x := cp()
			x[k.nums[r.Intn(len(k.nums))]] = bad
			add("number "+fmt.Sprintf("%q", bad), x)
		}
		if len(k.hashes) > 0 {
			for _, bad := range []string{"", "12", "zz" + strings.Repeat("0", 62), strings.Repeat("0", 63), strings.Repeat("0", 66), "0x" + strings.Repeat("0", 62)} {
				x := cp()
				x[k.hashes[r.Intn(len(k.hashes))]] = bad
				add("hash "+fmt.Sprintf("%q", vlib.Trunc(bad, 8)), x)
			}
		}
		if k.what == "tx" {
			for _, p := range [][2]string{{"-1", "0"}, {"0", "-1"}, {"-2", "5"}, {"9223372036854775807", "0"}, {"1000000000", "0"}, {"0", "1000000000000"},
				{"-1", "3"}, {"3", "-7"}, {"2", "-5"}, {"-9223372036854775808", "0"}, {"3689348814741910323", "0"}, {"1844674407370955161", "1"}, {"0", "9223372036854775808"}} {
				x := cp()
				if x[3] == p[0] && x[4] == p[1] {
					continue
				}
				x[3], x[4] = p[0], p[1]
				add("counts "+p[0]+"/"+p[1], x)
				// and with the number of rows such counts add up to in wrapping arithmetic
				var a, c int64
				fmt.Sscan(p[0], &a)
				fmt.Sscan(p[1], &c)
				if want := 5 + a*5 + c*2; want >= 5 && want < 200 {
					y := append([]string{}, x[:5]...)
					for int64(len(y)) < want {
						y = append(y, strings.Repeat("0", 64))
					}
					add("counts that add up "+p[0]+"/"+p[1], y)
				}
			}
			x := cp()
			x[1] = []string{"", "True", "TRUE", "1", "yes", "truefalse"}[r.Intn(6)]
			add("flag", x)
			if n := len(t.Tx.Inputs); n > 0 {
				x := cp()
				x[5+5*r.Intn(n)+3+r.Intn(2)] = []string{"*", "abc", "a===", "=="}[r.Intn(4)]
				add("base64", x)
				if base64.StdEncoding.EncodeToString(t.Tx.Inputs[0].PublicKey) != rows[8] {
					rep.Count("other_text_format", 1)
				}
			}
		}
		for _, d := range ds {
			if d.text == k.text {
				continue
			}
			if guarded(id, k.what, d.text, k.parse) {
				rep.Violate("damage-accepted", id, fmt.Sprintf("a %s record damaged by %s was accepted", k.what, d.name), map[string]string{"original": k.text, "damaged": d.text, "read as": k.again(d.text)})
			}
			rep.Eval("damage " + k.what + " " + d.name)
		}
		// any damage at all: never a crash
		raw := []byte(k.text)
		for n := 0; n < 20; n++ {
			x := append([]byte{}, raw...)
			switch r.Intn(4) {
			case 0:
				x = x[:r.Intn(len(x)+1)]
			case 1:
				x[r.Intn(len(x))] = byte(r.Intn(256))
			case 2:
				x = x[r.Intn(len(x)):]
			case 3:
				a, b := r.Intn(len(x)), r.Intn(len(x))
				x = append(x[:a:a], x[b:]...)
			}
			guarded(id, k.what, string(x), k.parse)
			rep.Count("random_damage", 1)
		}
	})
}

// damaged: record files of entities off the chain are damaged while the node is down; it must start all the same,
// never show a wrong record, and take the entity again when it is offered.
func damaged() {
	rep.Parallel("damaged", vlib.N(16, 200), 16, func(i int, id string) {
		s := newScript(id)
		r := s.w.R
		dir := filepath.Join(vlib.Work, strings.ReplaceAll(id, ":", "_"))
		node := vnode.New(s.w.P, false, &dir)
		var side []*vmodel.Bundle
		for k := 0; k < 8; k++ {
			s.pool = nil
			b := s.build(s.tip, 1, 3)
			ev := vnode.Event(b[0].Id, b...)
			if k >= 2 && r.Intn(2) == 0 {
				x := s.build(s.w.All.Anc(s.tip, uint64(1+r.Intn(2))), 1, 3)
				if !s.better(b[0].Id, x[0].Id) {
					continue
				}
				side = append(side, x...)
				if _, err := node.Offer(vnode.Event(x[0].Id, x...)); err != nil {
					trouble(node, id, "setup", err)
					return
				}
				if node.DrainHeads(); node.Head == x[0].Id {
					return // it became the head, an unlucky world
				}
			}
			s.tip = b[0].Id
			if _, err := node.Offer(ev); err != nil {
				trouble(node, id, "setup", err)
				return
			}
		}
		head := node.Head
		if len(side) == 0 || !s.better(head, side[len(side)-1].Id) {
			return
		}
		onChain := map[H]bool{}
		for _, x := range s.w.All.Path(head) {
			b := s.w.BunBy[x]
			onChain[x] = true
			for _, t := range b.Txs {
				onChain[vmodel.TxID(t)] = true
			}
			for _, m := range b.Merkles {
				onChain[vmodel.MerkleID(m)] = true
			}
		}
		offered := map[H]bool{}
		for _, b := range side {
			offered[b.Id] = true
			for _, t := range b.Txs {
				offered[vmodel.TxID(t)] = true
			}
			for _, m := range b.Merkles {
				offered[vmodel.MerkleID(m)] = true
			}
		}
		n := 0
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return nil
			}
			h, e := core.NewHashTFromString(filepath.Base(p))
			if e != nil || onChain[h] || h.EqZero() {
				return nil
			}
			raw, _ := os.ReadFile(p)
			switch r.Intn(4) {
			case 0:
				os.WriteFile(p, nil, 0644)
			case 1:
				os.WriteFile(p, []byte("nonsense\x00"), 0644)
			case 2:
				os.WriteFile(p, raw[:len(raw)/2], 0644)
			case 3:
				os.Remove(p)
			}
			n++
			return nil
		})
		node = vnode.New(s.w.P, false, &dir)
		if err := node.Barrier(); err != nil {
			trouble(node, id, "restart with damaged files", err)
			return
		}
		node.DrainHeads()
		if node.Head != head {
			rep.Violate("head-after-restart", id, fmt.Sprintf("with damaged side records the node restarted at %s instead of %s", node.Head, head), nil)
			return
		}
		if _, bad := s.cmpRecords(node.Inv, func(h H) bool { return onChain[h] }); bad != "" {
			rep.Violate("damaged-record", id, "with damaged side records: "+bad, nil)
			return
		}
		for _, b := range side {
			if _, err := node.Offer(vnode.Event(b.Id, b)); err != nil {
				trouble(node, id, "offering a damaged entity again", err)
				return
			}
		}
		if _, bad := s.cmpRecords(node.Inv, func(h H) bool { return onChain[h] || offered[h] }); bad != "" {
			rep.Violate("damaged-record", id, "after offering the damaged entities again: "+bad, nil)
			return
		}
		rep.Count("damaged_files", int64(n))
		rep.Eval(fmt.Sprint("damaged", n))
	})
}
