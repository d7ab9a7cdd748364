//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
)

// sim drives one real chain component through a random world and compares after every step.
type sim struct {
	id        string
	w         *vmodel.World
	n         *vnode.Node
	known     *vmodel.Inv // what the node has been shown to know
	knownB    []H         // known blocks in order
	head      H
	lastTgt   *bus.MinerTargetEvent
	must      map[H]bool // transactions that must be pending when not included
	may       map[H]bool // transactions that may be pending when not included
	pool      []core.Tx  // submitted or abandoned transactions, candidates for inclusion
	old       []bus.CandidateHeadEvent
	evs       []bus.CandidateHeadEvent // every event so far (C10)
	held      []*vmodel.Bundle         // generated, never offered (or offered incompletely)
	dead      bool
	view      *vnode.View
	announced map[H]int
	log       []string
	reorgs    int
	sentinels uint64
}

func is(ps ...string) bool {
	for _, p := range ps {
		if p == vlib.Prop {
			return true
		}
	}
	return false
}

func sims(n, steps int) {
	rep.Parallel("sim", n, 32, func(i int, id string) {
		r := vlib.Rng(id)
		p := vmodel.RandParams(r)
		s := &sim{id: id, w: vmodel.NewWorld(p, r, uint64(time.Now().Unix())), known: vmodel.NewInv(p),
			must: map[H]bool{}, may: map[H]bool{}, announced: map[H]int{}}
		s.n = vnode.New(p, true, nil)
		s.run(steps)
		if vlib.Prop == "C15" && !s.dead {
			s.cmpIndex()
		}
		if i < 4 {
			rep.Sample(map[string]any{"case": id, "blocks": len(s.knownB), "reorgs": s.reorgs, "steps": s.log[max(0, len(s.log)-12):]})
		}
		rep.Count("worlds", 1)
	})
}

func (s *sim) fail(key, msg string, detail any) {
	rep.Violate(key, s.id, msg, map[string]any{"detail": detail, "params": s.w.P, "last_steps": s.log[max(0, len(s.log)-15):]})
	s.dead = true
}

func (s *sim) note(f string, a ...any) { s.log = append(s.log, fmt.Sprintf(f, a...)) }

// harness-level trouble of a step
func (s *sim) stepErr(err error) {
	s.dead = true
	if c, ok := s.n.Crashed(); ok {
		// a failing node breaks the properties that promise it survives
		if is("C02", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C15", "C01") && !strings.HasPrefix(c, ": ") {
			s.fail("node-failed", "the node failed: "+c, nil)
		} else {
			rep.Errorf("case %s: harness failure inside the node goroutine: %s", s.id, c)
		}
		return
	}
	rep.Inconclusive("case %s: %v", s.id, err)
	rep.Undecided()
}

func short(h H) string { return h.String()[:8] }

func (s *sim) run(steps int) {
	if err := s.n.Barrier(); err != nil {
		s.stepErr(err)
		return
	}
	s.n.DrainTxs()
	s.targets(true, false)
	s.snapshot()
	s.steps(steps)
}

func (s *sim) steps(steps int) {
	r := s.w.R
	for k := 0; k < steps && !s.dead; k++ {
		x := r.Intn(100)
		switch {
		case x < 30:
			s.extend()
		case x < 42:
			s.mutant()
		case x < 55:
			s.reorg()
		case x < 60:
			s.hold()
		case x < 66:
			s.release()
		case x < 69 && len(s.old) > 0:
			ev := s.old[r.Intn(len(s.old))]
			s.note("repeat an old event (head %s)", short(ev.Head))
			s.offer(ev, "repeat")
		case x < 72 && len(s.knownB) > 0:
			h := s.knownB[r.Intn(len(s.knownB))]
			s.note("offer known head %s alone", short(h))
			s.offer(vnode.Event(h), "known-head")
		case x < 74:
			s.deepInvalid()
		case x < 78:
			s.burst()
		case x < 82:
			s.spoil()
		default:
			s.submit()
		}
	}
	rep.Count("reorgs", int64(s.reorgs))
}

// parent picks a block to build on: mostly recent and legal.
func (s *sim) parent() H {
	r := s.w.R
	if r.Intn(3) > 0 {
		return s.head
	}
	cands := []H{}
	for i := len(s.w.Order) - 1; i >= 0 && len(cands) < 8; i-- {
		if l := s.w.Led[s.w.Order[i]]; l != nil && l.Err == "" && s.w.BunBy[s.w.Order[i]].Label == "" {
			cands = append(cands, s.w.Order[i])
		}
	}
	if len(cands) == 0 || r.Intn(20) == 0 {
		return H{}
	}
	return cands[r.Intn(len(cands))]
}

func (s *sim) pendingPool() []core.Tx {
	out := append([]core.Tx{}, s.pool...)
	s.w.R.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func (s *sim) newBlock(parent H) *vmodel.Bundle {
	b := s.w.NextBlock(parent, s.pendingPool(), 4)
	s.w.Register(b)
	for _, t := range b.Txs[1:] {
		s.addPool(t)
	}
	return b
}

func (s *sim) addPool(t core.Tx) {
	if len(s.pool) > 60 {
		s.pool = s.pool[20:]
	}
	s.pool = append(s.pool, t)
}

// missing lists the not yet known ancestors of id (inclusive), oldest first.
func (s *sim) missing(id H) []*vmodel.Bundle {
	var out []*vmodel.Bundle
	for ; !id.EqZero(); id = s.w.BunBy[id].Parent {
		if _, ok := s.known.Blocks[id]; ok {
			break
		}
		out = append([]*vmodel.Bundle{s.w.BunBy[id]}, out...)
	}
	return out
}

func (s *sim) extend() {
	b := s.newBlock(s.parent())
	s.note("block %s on %s (%d txs)", short(b.Id), short(b.Parent), len(b.Txs))
	s.offer(vnode.Event(b.Id, s.missing(b.Id)...), "extend")
}

func (s *sim) hold() {
	par := s.parent()
	n := 1 + s.w.R.Intn(3)
	for i := 0; i < n; i++ {
		b := s.newBlock(par)
		s.held = append(s.held, b)
		par = b.Id
		s.note("hold back %s on %s", short(b.Id), short(b.Parent))
	}
}

func (s *sim) release() {
	if len(s.held) == 0 {
		return
	}
	b := s.held[s.w.R.Intn(len(s.held))]
	miss := s.missing(b.Id)
	switch s.w.R.Intn(3) {
	case 0:
		// without its ancestors
		if len(miss) > 1 {
			s.note("offer %s without its %d missing ancestors", short(b.Id), len(miss)-1)
			s.offer(vnode.Event(b.Id, b), "incomplete")
			return
		}
	case 1:
		// head named without being supplied
		s.note("name %s without supplying it", short(b.Id))
		s.offer(vnode.Event(b.Id), "named-only")
		return
	}
	s.note("offer held %s with %d blocks", short(b.Id), len(miss))
	s.offer(vnode.Event(b.Id, miss...), "release")
}

// reorg builds a branch from an ancestor until it out-works the head, delivered at once or block by block.
func (s *sim) reorg() {
	r := s.w.R
	h := s.known.Blocks[s.head].Height
	if h == 0 {
		s.extend()
		return
	}
	depth := uint64(1 + r.Intn(int(min(h, 6))))
	if r.Intn(12) == 0 {
		depth = h
	}
	base := s.known.Anc(s.head, depth)
	if s.w.Led[base] == nil || s.w.Led[base].Err != "" {
		return
	}
	cur := s.w.All.Blocks[s.head].Work
	tip := base
	all := r.Intn(3) == 0
	for k := 0; k < 14; k++ {
		b := s.newBlock(tip)
		tip = b.Id
		if !all {
			s.note("branch block %s on %s", short(b.Id), short(b.Parent))
			s.offer(vnode.Event(b.Id, s.missing(b.Id)...), "branch")
			if s.dead {
				return
			}
		}
		c := s.w.All.Blocks[tip].Work.Cmp(cur)
		if c > 0 || (c == 0 && r.Intn(4) == 0) {
			break
		}
	}
	if all {
		miss := s.missing(tip)
		s.note("batch of %d branch blocks from depth %d, head %s", len(miss), depth, short(tip))
		s.offer(vnode.Event(tip, miss...), "reorg-batch")
	}
}

func (s *sim) kinds() []string {
	if c, ok := classOf[vlib.Prop]; ok {
		return vmodel.Kinds[c[0]]
	}
	out := []string{}
	for _, c := range vlib.SortedKeys(vmodel.Kinds) {
		out = append(out, vmodel.Kinds[c]...)
	}
	return out
}

func (s *sim) mutant() {
	ks := s.kinds()
	par := s.parent()
	if _, ok := s.known.Blocks[par]; !ok {
		par = s.head
	}
	kind := ks[s.w.R.Intn(len(ks))]
	b := s.w.Mutant(kind, par)
	if b == nil {
		return
	}
	rep.Seen("mutant_kinds", kind)
	s.note("mutant %s %s on %s", kind, short(b.Id), short(par))
	s.w.Register(b)
	s.offer(vnode.Event(b.Id, b), "mutant:"+kind)
}

// deepInvalid offers a long branch whose work is the greatest but which is broken somewhere inside.
func (s *sim) deepInvalid() {
	r := s.w.R
	h := s.known.Blocks[s.head].Height
	if h < 2 {
		return
	}
	ks := append([]string{}, vmodel.Kinds["double"]...)
	ks = append(ks, "minblock=h+1", "replay-tx", "spent-on-branch", "child-first", "cb+1", "dup-input")
	base := s.known.Anc(s.head, uint64(r.Intn(3)))
	if s.w.Led[base] == nil {
		return
	}
	tip := base
	for k := r.Intn(3); k > 0; k-- {
		tip = s.newBlock(tip).Id
	}
	kind := ks[r.Intn(len(ks))]
	b := s.w.Mutant(kind, tip)
	if b == nil {
		return
	}
	s.w.Register(b)
	tip = b.Id
	for k := 0; k < 8; k++ {
		c := s.w.NextBlock(tip, nil, 2)
		c.Label = "after-mutant"
		s.w.Register(c)
		tip = c.Id
		if s.w.All.Blocks[tip].Work.Cmp(s.w.All.Blocks[s.head].Work) > 0 {
			break
		}
	}
	miss := s.missing(tip)
	s.note("batch of %d blocks with %s at %s, head %s", len(miss), kind, short(b.Id), short(tip))
	s.offer(vnode.Event(tip, miss...), "deep:"+kind)
}

// offer delivers one event to the node and compares everything the property speaks about.
func (s *sim) offer(ev bus.CandidateHeadEvent, what string) {
	// what should happen
	now := uint64(time.Now().Unix())
	complete := true // every entity of the event is acceptable
	stop := false
	open := false // the rules leave an entity open
	exp := s.copyKnown()
	for _, t := range ev.Txs {
		if _, ok := exp.Txs[vmodel.TxID(t)]; ok || stop {
			continue
		}
		switch v, _ := exp.CheckTx(t); v {
		case vmodel.OK:
			exp.AddTx(t)
		default:
			stop, complete = true, false
			open = open || v == vmodel.Open
		}
	}
	for _, m := range ev.Merkles {
		if _, ok := exp.Merkles[vmodel.MerkleID(m)]; ok || stop {
			continue
		}
		switch v, _ := exp.CheckMerkle(m); v {
		case vmodel.OK:
			exp.AddMerkle(m)
		default:
			stop, complete = true, false
			open = open || v == vmodel.Open
		}
	}
	for _, b := range ev.Blocks {
		if _, ok := exp.Blocks[vmodel.BlockID(b)]; ok || stop {
			continue
		}
		switch v, _ := exp.CheckBlock(b, now); v {
		case vmodel.OK:
			exp.AddBlock(b)
		default:
			stop, complete = true, false
			open = open || v == vmodel.Open
		}
	}
	judge := func(exp *vmodel.Inv) (bi *vmodel.BlockInfo, has, better, legal bool) {
		bi, has = exp.Blocks[ev.Head]
		better = has && bi.Work.Cmp(exp.Blocks[s.head].Work) > 0
		legal = has
		if better {
			if l := s.w.Led[ev.Head]; l != nil && l.Head == ev.Head {
				legal = l.Err == ""
			} else {
				legal = exp.LedgerAt(ev.Head).Err == ""
			}
		}
		return
	}
	bi, has, better, legal := judge(exp)
	mustMove := complete && better && legal
	mayMove := has && better && legal

	before := s.head
	if is("C10") {
		s.evs = append(s.evs, ev)
	}
	heads, err := s.n.Offer(ev)
	s.sentinels++
	// the barrier's own coinbase is a known, unincluded transaction; it spends nothing
	if err != nil {
		s.stepErr(err)
		return
	}
	if len(s.old) < 40 {
		s.old = append(s.old, ev)
	}
	rep.Count("events", 1)
	s.follow(ev, now)
	if s.dead {
		return
	}
	if open { // judged by what the node made of it
		bi, has, better, legal = judge(s.known)
		mayMove = has && better && legal
		rep.Count("open", 1)
	}
	if len(heads) > 0 {
		s.head = heads[len(heads)-1]
	}
	moved := s.head != before
	rep.Count("head_moves", int64(len(heads)))
	if is("C08") {
		sig := fmt.Sprintf("%s/%v/%v/%v/%v", what, complete, better, legal, moved)
		rep.Eval(sig)
		switch {
		case len(heads) > 1:
			s.fail("head-announced-twice", fmt.Sprintf("one candidate produced %d head announcements", len(heads)), heads)
		case len(heads) == 1 && heads[0] != ev.Head:
			s.fail("wrong-head", fmt.Sprintf("candidate %s but announced %s", ev.Head, heads[0]), nil)
		case mustMove && !moved:
			s.fail("did-not-move", fmt.Sprintf("%s: a fully checkable candidate with more work was not followed (head %s height %d, candidate %s height %d)",
				what, short(before), s.known.Blocks[before].Height, short(ev.Head), bi.Height), nil)
		case moved && !mayMove:
			s.fail("moved-wrongly", fmt.Sprintf("%s: head moved to %s although known=%v more-work=%v legal=%v", what, ev.Head, has, better, legal), nil)
		}
	} else if is("C10") && mustMove && !moved {
		s.pendingDecided(ev, what)
	} else if moved && !mayMove && !(legal && better) {
		s.judgeMove(ev, what, has, better, legal)
	}
	if s.dead {
		return
	}
	if moved {
		if s.known.LCA(before, s.head) != before {
			s.reorgs++
			rep.Seen("reorg_depths", fmt.Sprint(s.known.Blocks[before].Height-s.known.Blocks[s.known.LCA(before, s.head)].Height))
		}
	}
	// bookkeeping of the pending set: which transactions came in by this event, and which have ever been in the followed chain
	for _, t := range ev.Txs {
		id := vmodel.TxID(t)
		if _, ok := s.known.Txs[id]; ok {
			s.may[id] = true
		}
	}
	s.markFollowed()
	s.check(what, moved, mustMove, before)
}

// pendingDecided: the head did not move to a valid better chain. Was it because of what is pending, or of what was refused before?
func (s *sim) pendingDecided(ev bus.CandidateHeadEvent, what string) {
	twin := vnode.New(s.w.P, true, nil)
	head := H{}
	for _, e := range s.evs {
		hs, err := twin.Offer(e)
		if err != nil {
			head = H{}
			break
		}
		if len(hs) > 0 {
			head = hs[len(hs)-1]
		}
	}
	if head == ev.Head {
		s.fail("pending-decides", what+": a valid better chain was refused, though a node given the same blocks without the submitted transactions follows it", nil)
		return
	}
	var path []*vmodel.Bundle
	for h := ev.Head; !h.EqZero(); h = s.w.BunBy[h].Parent {
		b := s.w.BunBy[h]
		if b == nil {
			break
		}
		path = append([]*vmodel.Bundle{b}, path...)
	}
	fresh := vnode.New(s.w.P, true, nil)
	if hs, err := fresh.Offer(vnode.Event(ev.Head, path...)); err == nil && len(hs) > 0 && hs[len(hs)-1] == ev.Head {
		s.fail("history-decides", what+": a valid better chain was refused, though a node that has seen nothing else follows it", nil)
		return
	}
	rep.Count("diverged", 1)
	s.dead = true
}

// judgeMove: properties other than C08 that forbid following such a chain.
func (s *sim) judgeMove(ev bus.CandidateHeadEvent, what string, has, better, legal bool) {
	if !has || legal {
		rep.Count("diverged", 1)
		s.dead = true
		return
	}
	why := s.known.LedgerAt(ev.Head).Err
	switch {
	case is("C02") && (strings.Contains(why, "input-unavailable") || strings.Contains(why, "already-included")),
		is("C07") && strings.Contains(why, "min-block"),
		is("C01", "C09") && strings.Contains(why, "input-unavailable"):
		s.fail("followed-illegal", fmt.Sprintf("%s: the head moved to %s whose chain breaks: %s", what, ev.Head, why), nil)
	default:
		rep.Count("diverged", 1)
		s.dead = true
	}
}

// markFollowed: everything included in the followed chain so far must become pending again when abandoned.
func (s *sim) markFollowed() {
	if l := s.led(); l != nil {
		for id := range l.Incl {
			if !s.known.Txs[id].IsCoinbase || true {
				s.must[id] = true
			}
			s.may[id] = true
		}
	}
}

func (s *sim) led() *vmodel.Ledger {
	if l, ok := s.w.Led[s.head]; ok && l.Head == s.head {
		return l
	}
	l := s.known.LedgerAt(s.head)
	s.w.Led[s.head] = l
	return l
}

func (s *sim) copyKnown() *vmodel.Inv {
	k := &vmodel.Inv{P: s.known.P, Txs: make(map[H]core.Tx, len(s.known.Txs)), Merkles: make(map[H]core.MerkleNode), MSize: map[H]uint64{}, Blocks: map[H]*vmodel.BlockInfo{}}
	for a, b := range s.known.Txs {
		k.Txs[a] = b
	}
	for a, b := range s.known.Merkles {
		k.Merkles[a] = b
	}
	for a, b := range s.known.MSize {
		k.MSize[a] = b
	}
	for a, b := range s.known.Blocks {
		k.Blocks[a] = b
	}
	return k
}

// follow updates what the node is known to know from the node itself, judging each decision by the property's rules.
func (s *sim) follow(ev bus.CandidateHeadEvent, now uint64) {
	bad := func(what, why string, d any) {
		if reasons[vlib.Prop][why] {
			s.fail("accepted:"+why, fmt.Sprintf("%s accepted although it breaks the rule %q", what, why), d)
			return
		}
		rep.Count("diverged", 1)
		s.dead = true
	}
	for _, t := range ev.Txs {
		id := vmodel.TxID(t)
		if _, ok := s.known.Txs[id]; ok || !s.n.Inv.HasTx(id) {
			continue
		}
		if v, why := s.known.CheckTx(t); v == vmodel.Bad {
			if why == "duplicate-input" && is("C02") {
				// judged when a block is followed
			} else {
				bad("transaction", why, t)
				if s.dead {
					return
				}
			}
		}
		s.known.AddTx(t)
	}
	for _, m := range ev.Merkles {
		id := vmodel.MerkleID(m)
		if _, ok := s.known.Merkles[id]; ok || !s.n.Inv.HasMerkle(id) {
			continue
		}
		if v, why := s.known.CheckMerkle(m); v == vmodel.Bad {
			bad("merkle node", why, m)
			if s.dead {
				return
			}
		}
		s.known.AddMerkle(m)
	}
	for _, b := range ev.Blocks {
		id := vmodel.BlockID(b)
		if _, ok := s.known.Blocks[id]; ok || !s.n.Inv.HasBlock(id) {
			continue
		}
		if v, why := s.known.CheckBlock(b, now); v == vmodel.Bad {
			bad("block", why, b)
			if s.dead {
				return
			}
		}
		s.known.AddBlock(b)
		s.knownB = append(s.knownB, id)
	}
}

func (s *sim) pkhs() []H {
	seen := map[H]bool{}
	out := []H{}
	for _, k := range s.w.Keys {
		out = append(out, k.Pkh)
		seen[k.Pkh] = true
	}
	for u, p := range s.led().Utxos {
		_ = u
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func (s *sim) txids() []H {
	out := make([]H, 0, len(s.known.Txs))
	for id := range s.known.Txs {
		out = append(out, id)
	}
	out = append(out, s.w.RandH())
	return out
}

func (s *sim) snapshot() {
	v, err := s.n.Observe(s.pkhs(), s.txids())
	if err != nil {
		s.stepErr(err)
		return
	}
	s.view = v
}

// check runs the comparators of the property after a step.
func (s *sim) check(what string, moved, mustMove bool, before H) {
	old := s.view
	if is("C01", "C02", "C08", "C09", "C10") {
		s.snapshot()
		if s.dead {
			return
		}
	}
	if c, ok := s.n.Crashed(); ok {
		s.stepErr(fmt.Errorf("%s", c))
		return
	}
	switch vlib.Prop {
	case "C01":
		s.cmpSupply(what)
	case "C02":
		if moved || s.w.R.Intn(3) == 0 {
			s.cmpChain(what)
		}
	case "C05", "C06", "C07":
		rep.Eval(fmt.Sprintf("%s/%v", what, moved))
		if is("C07") && moved {
			s.cmpMinBlock(what)
		}
		s.targets(false, false)
	case "C08":
		if !moved && !sameUtxos(old.Utxos, s.view.Utxos) {
			s.fail("ledger-changed", what+": the head stayed but the ledger changed", diffUtxos(old.Utxos, s.view.Utxos))
		} else if !moved && old.Height != s.view.Height {
			s.fail("ledger-changed", what+": the head stayed but the height changed", []uint64{old.Height, s.view.Height})
		} else if s.view.Height != s.known.Blocks[s.head].Height {
			s.fail("height", fmt.Sprintf("%s: reported height %d, head %s has %d", what, s.view.Height, short(s.head), s.known.Blocks[s.head].Height), nil)
		}
	case "C09":
		s.cmpLedger(what)
	case "C10":
		s.cmpPending(what)
		s.targets(false, false)
		txs := s.n.DrainTxs()
		seen := map[H]int{}
		for _, t := range txs {
			seen[t]++
		}
		for t, n := range seen {
			s.announced[t] += n
			if s.announced[t] > 1 {
				s.fail("announced-twice", fmt.Sprintf("%s: transaction %s announced again", what, t), nil)
			}
		}
	case "C11":
		s.targets(moved, false)
	}
	if vlib.Prop != "C10" {
		s.n.DrainTxs()
	}
}

func sameUtxos(a, b map[core.Utxo]H) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func diffUtxos(a, b map[core.Utxo]H) any {
	var out []string
	for k := range a {
		if _, ok := b[k]; !ok {
			out = append(out, fmt.Sprintf("only first: %s[%d]=%d", short(k.TxId), k.Ind, k.Value))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, fmt.Sprintf("only second: %s[%d]=%d", short(k.TxId), k.Ind, k.Value))
		}
	}
	sort.Strings(out)
	if len(out) > 20 {
		out = out[:20]
	}
	return out
}

// C01: what all addresses hold is exactly reward * height.
func (s *sim) cmpSupply(what string) {
	// the node's own list of addresses, so coins outside the model's expectation are seen too
	pk := make([]H, 0, len(s.view.Rich))
	for p := range s.view.Rich {
		pk = append(pk, p)
	}
	v, err := s.n.Observe(pk, nil)
	if err != nil {
		s.stepErr(err)
		return
	}
	sum := new(big.Int)
	for u := range v.Utxos {
		sum.Add(sum, new(big.Int).SetUint64(u.Value))
	}
	bal := new(big.Int)
	for _, b := range v.Balances {
		bal.Add(bal, new(big.Int).SetUint64(b))
	}
	want := new(big.Int).SetUint64(s.w.P.BlockReward)
	want.Mul(want, new(big.Int).SetUint64(v.Height))
	rep.Eval(fmt.Sprintf("supply/%s/%d", what, v.Height))
	if sum.Cmp(want) != 0 {
		s.fail("supply", fmt.Sprintf("%s: at height %d unspent outputs add up to %s instead of %s", what, v.Height, sum, want), v.Balances)
	} else if bal.Cmp(want) != 0 {
		s.fail("supply-balances", fmt.Sprintf("%s: at height %d balances add up to %s instead of %s", what, v.Height, bal, want), v.Balances)
	}
}

// C02: replay the followed chain from the node's own inventory.
func (s *sim) cmpChain(what string) {
	var ids []H
	for id := s.head; !id.EqZero(); id = s.n.Inv.GetBlockParentId(id) {
		ids = append([]H{id}, ids...)
	}
	live := map[core.Utxo]bool{}
	for _, id := range ids {
		for _, t := range s.n.Inv.GetMerkleTxs(s.n.Inv.GetBlock(id).MerkleRoot) {
			for _, in := range t.Inputs {
				if !live[in.Utxo] {
					s.fail("double-spend", fmt.Sprintf("%s: the followed chain consumes %s[%d] twice or before its creation, in block %s", what, in.Utxo.TxId, in.Utxo.Ind, id), nil)
					return
				}
				delete(live, in.Utxo)
			}
			for i, o := range t.Outputs {
				live[core.Utxo{TxId: vmodel.TxID(t), Ind: uint64(i), Value: o.Value}] = true
			}
		}
	}
	for u := range s.view.Utxos {
		if !live[u] {
			s.fail("phantom-coin", fmt.Sprintf("%s: the node lists %s[%d] as unspent but the followed chain has consumed it or never made it", what, u.TxId, u.Ind), nil)
			return
		}
	}
	for u := range live {
		if _, ok := s.view.Utxos[u]; !ok {
			s.fail("lost-coin", fmt.Sprintf("%s: %s[%d] is unspent along the followed chain but not spendable", what, u.TxId, u.Ind), nil)
			return
		}
	}
	rep.Eval(fmt.Sprintf("%s/%d", what, len(ids)))
}

func (s *sim) cmpMinBlock(what string) {
	for _, id := range s.known.Path(s.head) {
		bi := s.known.Blocks[id]
		for _, tid := range bi.TxIds {
			if s.known.Txs[tid].MinBlock > bi.Height {
				s.fail("too-early", fmt.Sprintf("%s: block %s at height %d includes a transaction with earliest block %d", what, id, bi.Height, s.known.Txs[tid].MinBlock), nil)
				return
			}
		}
	}
}

// C09: every answer equals a replay from genesis.
func (s *sim) cmpLedger(what string) {
	l := s.known.LedgerAt(s.head)
	if l.Err != "" {
		s.fail("illegal-head", what+": followed head is not a legal chain: "+l.Err, nil)
		return
	}
	v := s.view
	h := s.known.Blocks[s.head].Height
	rep.Eval(fmt.Sprintf("%s/%d/%d", what, h, len(l.Utxos)))
	if v.Height != h {
		s.fail("height", fmt.Sprintf("%s: height %d, replay says %d", what, v.Height, h), nil)
		return
	}
	if !sameUtxos(l.Utxos, v.Utxos) {
		s.fail("utxos", what+": unspent outputs differ from the replay (first=replay)", diffUtxos(l.Utxos, v.Utxos))
		return
	}
	bal := l.Balances()
	for _, p := range s.pkhs() {
		want := uint64(0)
		if bal[p] != nil {
			want = bal[p].Uint64()
		}
		if got, ok := v.Balances[p]; !ok || got != want {
			s.fail("balance", fmt.Sprintf("%s: balance of %s is %d, replay says %d", what, p, got, want), nil)
			return
		}
	}
	for p, x := range v.Rich {
		if bal[p] == nil && x == 0 {
			continue
		}
		if bal[p] == nil || bal[p].Uint64() != x {
			s.fail("richlist", fmt.Sprintf("%s: rich list says %d for %s", what, x, p), bal[p])
			return
		}
	}
	for p, x := range bal {
		if x.Sign() > 0 {
			if _, ok := v.Rich[p]; !ok {
				s.fail("richlist", fmt.Sprintf("%s: rich list lacks %s holding %s", what, p, x), nil)
				return
			}
		}
	}
	for id := range s.known.Txs {
		blk, inc := l.Incl[id]
		c, okc := v.Confirms[id]
		b, okb := v.Incl[id]
		if !inc {
			if !okc || c != 0 || okb {
				s.fail("confirms", fmt.Sprintf("%s: unincluded tx %s reported with %d confirmations, block %v/%v (known=%v)", what, id, c, okb, b, okc), nil)
				return
			}
			continue
		}
		if want := h - s.known.Blocks[blk].Height + 1; !okc || c != want || !okb || b != blk {
			s.fail("confirms", fmt.Sprintf("%s: tx %s: confirmations %d (want %d), block %s (want %s)", what, id, c, want, b, blk), nil)
			return
		}
	}
}

// C10: spends by pending transactions are exactly what the free-output query leaves out.
func (s *sim) cmpPending(what string) {
	l := s.led()
	v := s.view
	mustSpend := map[core.Utxo]H{}
	maySpend := map[core.Utxo]H{}
	for id, t := range s.known.Txs {
		if _, inc := l.Incl[id]; inc {
			if v.Confirms[id] == 0 {
				s.fail("included-not-confirmed", fmt.Sprintf("%s: included tx %s has no confirmations", what, id), nil)
				return
			}
			continue
		}
		if v.Confirms[id] != 0 {
			s.fail("pending-confirmed", fmt.Sprintf("%s: pending tx %s reported with %d confirmations", what, id, v.Confirms[id]), nil)
			return
		}
		for _, in := range t.Inputs {
			if s.must[id] {
				mustSpend[in.Utxo] = id
			}
			if s.may[id] || s.must[id] {
				maySpend[in.Utxo] = id
			}
		}
	}
	rep.Eval(fmt.Sprintf("pending/%s/%d/%d", what, len(mustSpend), len(v.Free)))
	rep.Count("pending_spends_seen", int64(len(mustSpend)))
	for u, p := range v.Utxos {
		_, free := v.Free[u]
		if id, ok := mustSpend[u]; ok && free {
			s.fail("pending-forgotten", fmt.Sprintf("%s: %s[%d] is spent by pending tx %s but listed as free", what, u.TxId, u.Ind, id), nil)
			return
		}
		if _, ok := maySpend[u]; !ok && !free {
			s.fail("phantom-pending", fmt.Sprintf("%s: %s[%d] of %s is not spent by any pending transaction but not listed as free", what, u.TxId, u.Ind, p), nil)
			return
		}
	}
	for u := range v.Free {
		if _, ok := v.Utxos[u]; !ok {
			s.fail("free-not-unspent", fmt.Sprintf("%s: free list has %s[%d] which is not unspent", what, u.TxId, u.Ind), nil)
			return
		}
	}
}

// submit offers one transaction.
func (s *sim) submit() {
	r := s.w.R
	l := s.led()
	h := s.known.Blocks[s.head].Height
	avail := map[core.Utxo]H{}
	for u, p := range l.Utxos {
		avail[u] = p
	}
	pend := []core.Tx{}
	for id := range s.must {
		if _, inc := l.Incl[id]; !inc {
			pend = append(pend, s.known.Txs[id])
		}
	}
	sortByID(pend)
	mode := r.Intn(10)
	switch {
	case mode < 5: // independent of pending ones
		for _, t := range pend {
			for _, in := range t.Inputs {
				delete(avail, in.Utxo)
			}
		}
	case mode < 7: // may conflict, may chain
		for _, t := range pend {
			id := vmodel.TxID(t)
			for i, o := range t.Outputs {
				avail[core.Utxo{TxId: id, Ind: uint64(i), Value: o.Value}] = o.PublicKeyHash
			}
		}
	default:
	}
	var t core.Tx
	var ok bool
	kind := "random"
	if mode == 9 && len(s.known.Txs) > 0 {
		ids := s.txids()
		sort.Slice(ids, func(i, j int) bool { return ids[i].Lt(ids[j]) })
		t, ok = s.known.Txs[ids[r.Intn(len(ids))]]
		kind = "known"
	} else if r.Intn(3) == 0 {
		kind = vmodel.TxKinds[r.Intn(len(vmodel.TxKinds))]
		if strings.HasPrefix(kind, "same-key") {
			return
		}
		t, ok = s.w.MutantTx(kind, avail, h)
	} else {
		t, ok = s.w.RandTx(avail, h+1)
	}
	if ok {
		s.submitTx(t, kind)
	}
}

// burst submits several transactions in a row, many of them at odds with each other, then usually a block taking some of them.
func (s *sim) burst() {
	r := s.w.R
	l := s.led()
	h := s.known.Blocks[s.head].Height
	avail := map[core.Utxo]H{}
	for u, p := range l.Utxos {
		avail[u] = p
	}
	var pick []vmodel.Coin
	for _, c := range vmodel.Coins(avail) {
		if vmodel.KeyOf(s.w.Keys, c.Pkh) != nil && c.U.Value > 10 {
			pick = append(pick, c)
		}
	}
	if len(pick) < 2 {
		return
	}
	r.Shuffle(len(pick), func(i, j int) { pick[i], pick[j] = pick[j], pick[i] })
	pick = pick[:min(len(pick), 2+r.Intn(3))]
	var made []core.Tx
	for k := 2 + r.Intn(4); k > 0 && !s.dead; k-- {
		src := pick
		if len(made) > 0 && r.Intn(4) == 0 { // of an output of an earlier one
			t := made[r.Intn(len(made))]
			src = nil
			for i, o := range t.Outputs {
				if o.Value > 4 && vmodel.KeyOf(s.w.Keys, o.PublicKeyHash) != nil {
					src = append(src, vmodel.Coin{U: core.Utxo{TxId: vmodel.TxID(t), Ind: uint64(i), Value: o.Value}, Pkh: o.PublicKeyHash})
				}
			}
			if len(src) == 0 {
				src = pick
			}
		}
		set := []vmodel.Coin{src[r.Intn(len(src))]}
		in := set[0].U.Value
		if len(pick) > 1 && r.Intn(3) == 0 {
			if c := pick[r.Intn(len(pick))]; c.U != set[0].U && in+c.U.Value > in {
				set = append(set, c)
				in += c.U.Value
				if r.Intn(2) == 0 {
					set[0], set[1] = set[1], set[0]
				}
			}
		}
		mb := uint64(r.Intn(int(h) + 3))
		if r.Intn(2) == 0 {
			mb = 0
		}
		t := s.w.Spend(set, 1+uint64(r.Intn(int(min(in/2, 1000)))), r.Intn(4), mb)
		if vmodel.TxVSize(t) > s.w.P.MaxTxVSize {
			continue
		}
		made = append(made, t)
		s.submitTx(t, "burst")
		if r.Intn(6) == 0 && !s.dead {
			s.submitTx(t, "burst-again")
		}
	}
	for n := r.Intn(3); n > 0 && !s.dead; n-- {
		r.Shuffle(len(made), func(i, j int) { made[i], made[j] = made[j], made[i] })
		b := s.w.NextBlock(s.head, append(append([]core.Tx{}, made...), s.pendingPool()...), 1+r.Intn(4))
		s.w.Register(b)
		s.note("block %s on %s taking of the burst (%d txs)", short(b.Id), short(b.Parent), len(b.Txs))
		s.offer(vnode.Event(b.Id, b), "burst-block")
	}
}

// spoil offers better chains that take pending transactions along and then break a ledger rule; afterwards a legal block takes some of the same.
func (s *sim) spoil() {
	r := s.w.R
	for n := 1 + r.Intn(2); n > 0 && !s.dead; n-- {
		l := s.led()
		h := s.known.Blocks[s.head].Height + 1
		b := s.w.NextBlock(s.head, s.pendingPool(), 1+r.Intn(4))
		var bad core.Tx
		made := false
		if len(b.Txs) > 1 && r.Intn(3) > 0 { // a second spender of an output the block spends already
			t := b.Txs[1+r.Intn(len(b.Txs)-1)]
			in := t.Inputs[r.Intn(len(t.Inputs))].Utxo
			if k, ok := l.Utxos[in]; ok && vmodel.KeyOf(s.w.Keys, k) != nil && in.Value > 1 {
				bad, made = s.w.Spend([]vmodel.Coin{{U: in, Pkh: k}}, 1+uint64(r.Intn(int(min(in.Value, 50)))), r.Intn(3), 0), true
			}
		} else { // one that is not yet allowed
			avail := map[core.Utxo]H{}
			for u, p := range l.Utxos {
				avail[u] = p
			}
			for _, t := range b.Txs {
				for _, in := range t.Inputs {
					delete(avail, in.Utxo)
				}
			}
			for _, c := range vmodel.Coins(avail) {
				if vmodel.KeyOf(s.w.Keys, c.Pkh) != nil && c.U.Value > 1 {
					bad, made = s.w.Spend([]vmodel.Coin{c}, 1, 1+r.Intn(2), h+1+uint64(r.Intn(3))), true
					break
				}
			}
		}
		if !made || vmodel.TxVSize(bad) > s.w.P.MaxTxVSize {
			continue
		}
		body := append(append([]core.Tx{}, b.Txs[1:]...), bad)
		if r.Intn(3) == 0 {
			i, j := r.Intn(len(body)), len(body)-1
			body[i], body[j] = body[j], body[i]
		}
		size := uint64(112)
		for _, t := range body {
			size += vmodel.TxVSize(t)
		}
		if size > s.w.P.MaxBlockVSize {
			continue
		}
		txs := append([]core.Tx{s.w.Coinbase(h, s.w.P.BlockReward+vmodel.FeeSum(body))}, body...)
		x := s.w.Assemble(s.head, txs, b.Block.Target, b.Block.MinedTime)
		x.Label = "spoiled"
		s.w.Register(x)
		for _, t := range b.Txs[1:] {
			s.addPool(t)
		}
		s.note("spoiled block %s on %s (%d txs)", short(x.Id), short(x.Parent), len(x.Txs))
		s.offer(vnode.Event(x.Id, x), "spoiled")
		if s.dead || r.Intn(4) == 0 {
			continue
		}
		// what went back to pending is taken by a legal block, now or a little later
		if r.Intn(3) == 0 {
			s.submit()
		}
		if s.dead {
			return
		}
		y := s.w.NextBlock(s.head, append(append([]core.Tx{}, body...), s.pendingPool()...), 1+r.Intn(4))
		s.w.Register(y)
		s.note("block %s on %s after the spoiled one (%d txs)", short(y.Id), short(y.Parent), len(y.Txs))
		s.offer(vnode.Event(y.Id, y), "after-spoiled")
	}
}

func (s *sim) submitTx(t core.Tx, kind string) {
	id := vmodel.TxID(t)
	_, known := s.known.Txs[id]
	v, why := s.known.CheckTx(t)
	s.note("submit %s (%s) %s", short(id), kind, why)
	ans, err := s.n.Submit(t)
	if err != nil {
		s.stepErr(err)
		return
	}
	rep.Count("submissions", 1)
	acc := s.n.Inv.HasTx(id)
	ann := s.n.DrainTxs()
	if is("C10") {
		n := 0
		for _, a := range ann {
			s.announced[a]++
			if a == id {
				n++
			} else {
				s.fail("announced-other", fmt.Sprintf("submitting %s announced %s", id, a), nil)
				return
			}
		}
		fresh := acc && !known
		switch {
		case fresh && ans == nil && n != 1:
			s.fail("not-announced-once", fmt.Sprintf("newly accepted tx %s (%s) was announced %d times", id, kind, n), nil)
		case known && n > 0 && s.must[id]:
			s.fail("announced-again", fmt.Sprintf("known tx %s re-submitted and announced again", id), nil)
		case !acc && n > 0:
			s.fail("announced-rejected", fmt.Sprintf("rejected tx %s was announced", id), nil)
		case ans == nil && !acc, ans != nil && fresh:
			s.fail("answer", fmt.Sprintf("submission answered %v but the node knows it: %v", ans, acc), nil)
		case known && ans != nil:
			s.fail("answer-known", fmt.Sprintf("re-submitting a known transaction answered %v", ans), nil)
		case v == vmodel.OK && !acc:
			s.fail("valid-refused", fmt.Sprintf("valid transaction (%s) refused: %v", kind, ans), t)
		}
		rep.Eval(fmt.Sprintf("submit/%s/%v/%v/%s", kind, known, acc, why))
	}
	if s.dead {
		return
	}
	if acc && !known {
		if v == vmodel.Bad && why != "duplicate-input" {
			if reasons[vlib.Prop][why] {
				s.fail("accepted:"+why, fmt.Sprintf("transaction (%s) accepted although it breaks the rule %q", kind, why), t)
				return
			}
			rep.Count("diverged", 1)
			s.dead = true
			return
		}
		s.known.AddTx(t)
		if ans == nil {
			s.must[id] = true
		}
		s.may[id] = true
		if !t.IsCoinbase {
			s.addPool(t)
		}
	}
	if acc && known && ans == nil {
		s.must[id] = true
		s.may[id] = true
	}
	fresh := acc && !known
	switch vlib.Prop {
	case "C09":
		s.snapshot()
		if !s.dead {
			s.cmpLedger("submit")
		}
	case "C10":
		s.snapshot()
		if !s.dead {
			s.cmpPending("submit:" + kind)
		}
	case "C08":
		old := s.view
		s.snapshot()
		if !s.dead && !sameUtxos(old.Utxos, s.view.Utxos) {
			s.fail("ledger-changed", "a submitted transaction changed the ledger at the head", diffUtxos(old.Utxos, s.view.Utxos))
		}
	}
	if !s.dead {
		s.targets(fresh, true)
	}
}

func sortByID(ts []core.Tx) {
	sort.Slice(ts, func(i, j int) bool { return vmodel.TxID(ts[i]).Lt(vmodel.TxID(ts[j])) })
}

// targets drains and judges mining targets issued since the last step; expect: at least one must have been issued.
func (s *sim) targets(expect, afterTx bool) {
	ts := s.n.DrainTargets()
	if len(ts) > 0 {
		s.lastTgt = &ts[len(ts)-1]
	}
	if !is("C11") {
		return
	}
	rep.Count("mining_targets", int64(len(ts)))
	if expect && len(ts) == 0 {
		s.fail("no-target", fmt.Sprintf("no mining target after a new head or accepted transaction (afterTx=%v)", afterTx), nil)
		return
	}
	for i := range ts {
		if !s.judgeTarget(ts[i]) {
			return
		}
	}
	if s.lastTgt != nil && s.lastTgt.Head != s.head {
		s.fail("stale-target", fmt.Sprintf("the latest mining target is for %s, the head is %s", s.lastTgt.Head, s.head), nil)
	}
}

func rate(t core.Tx) *big.Rat {
	return new(big.Rat).SetFrac(vmodel.Fee(t), new(big.Int).SetUint64(vmodel.TxVSize(t)))
}

func (s *sim) judgeTarget(e bus.MinerTargetEvent) bool {
	if e.Head != s.head {
		s.fail("target-head", fmt.Sprintf("mining target for %s issued while the head is %s", e.Head, s.head), nil)
		return false
	}
	if nt, ok := s.known.NextTarget(e.Head); ok && nt != e.Target {
		s.fail("target-difficulty", fmt.Sprintf("mining target carries %s, the next block needs %s", e.Target, nt), nil)
		return false
	}
	l := s.led()
	h := s.known.Blocks[s.head].Height
	size := uint64(112)
	used := map[core.Utxo]H{}
	listed := map[H]bool{}
	for _, id := range e.TxIds {
		t, ok := s.known.Txs[id]
		switch {
		case !ok:
			s.fail("target-unknown-tx", fmt.Sprintf("mining target lists unknown tx %s", id), nil)
			return false
		case t.IsCoinbase:
			s.fail("target-coinbase", fmt.Sprintf("mining target lists coinbase tx %s", id), nil)
			return false
		case listed[id]:
			s.fail("target-repeat", fmt.Sprintf("mining target lists %s twice", id), nil)
			return false
		case t.MinBlock > h+1:
			s.fail("target-too-early", fmt.Sprintf("mining target lists %s with earliest block %d at height %d", id, t.MinBlock, h+1), nil)
			return false
		case vmodel.Fee(t).Sign() <= 0:
			s.fail("target-no-fee", fmt.Sprintf("mining target lists %s paying %s", id, vmodel.Fee(t)), t)
			return false
		}
		if _, inc := l.Incl[id]; inc {
			s.fail("target-included", fmt.Sprintf("mining target lists already included tx %s", id), nil)
			return false
		}
		listed[id] = true
		for _, in := range t.Inputs {
			if _, ok := l.Utxos[in.Utxo]; !ok {
				s.fail("target-unavailable", fmt.Sprintf("mining target lists %s whose input %s[%d] is not unspent at the head", id, short(in.Utxo.TxId), in.Utxo.Ind), nil)
				return false
			}
			if o, dup := used[in.Utxo]; dup {
				s.fail("target-conflict", fmt.Sprintf("mining target lists %s and %s consuming the same output", o, id), t)
				return false
			}
			used[in.Utxo] = id
		}
		size += vmodel.TxVSize(t)
	}
	if size > s.w.P.MaxBlockVSize {
		s.fail("target-size", fmt.Sprintf("mining target adds up to %d of %d", size, s.w.P.MaxBlockVSize), nil)
		return false
	}
	// completeness
	left := 0
	rates := make(map[H]*big.Rat, len(listed))
	for lid := range listed {
		rates[lid] = rate(s.known.Txs[lid])
	}
	for id := range s.must {
		t := s.known.Txs[id]
		if _, inc := l.Incl[id]; inc || listed[id] || t.IsCoinbase || t.MinBlock > h+1 || vmodel.Fee(t).Sign() <= 0 {
			continue
		}
		if v, _ := s.known.CheckTx(t); v != vmodel.OK {
			continue
		}
		okIn := true
		for _, in := range t.Inputs {
			if _, ok := l.Utxos[in.Utxo]; !ok {
				okIn = false
			}
		}
		if !okIn {
			continue
		}
		left++
		rt := rate(t)
		slack := new(big.Rat).Mul(rt, big.NewRat(999999999, 1000000000))
		excused := false
		beside := uint64(112)
		for lid := range listed {
			lt := s.known.Txs[lid]
			if rates[lid].Cmp(slack) < 0 {
				continue
			}
			beside += vmodel.TxVSize(lt)
			for _, a := range lt.Inputs {
				for _, b := range t.Inputs {
					if a.Utxo == b.Utxo {
						excused = true
					}
				}
			}
		}
		if !excused && beside+vmodel.TxVSize(t) > s.w.P.MaxBlockVSize {
			excused = true
		}
		if !excused {
			s.fail("target-not-greedy", fmt.Sprintf("pending tx %s (fee %s, size %d) is includable, conflicts with nothing listed at its rate and fits, but is left out of %d listed", id, vmodel.Fee(t), vmodel.TxVSize(t), len(listed)),
				map[string]any{"tx": t, "listed": e.TxIds, "height": h})
			return false
		}
	}
	rep.Count("listed_txs", int64(len(e.TxIds)))
	rep.Count("left_out_txs", int64(left))
	rep.Eval(fmt.Sprintf("target/%d/%d/%d", len(e.TxIds), left, h%s.w.P.DifficultyPeriod))
	return true
}

// fit: blocks exactly as large as some of the pending transactions together.
func fit(n int) {
	rep.Parallel("fit", n, 32, func(i int, id string) {
		r := vlib.Rng(id)
		p := vmodel.RandParams(r)
		p.BlockReward = 100000
		p.MaxTxVSize = 900
		p.MaxBlockVSize = 1500
		s := &sim{id: id, w: vmodel.NewWorld(p, r, uint64(time.Now().Unix())), known: vmodel.NewInv(p),
			must: map[H]bool{}, may: map[H]bool{}, announced: map[H]int{}}
		// coins of all sizes
		var chain []*vmodel.Bundle
		tip := H{}
		for k := 3 + r.Intn(4); k > 0; k-- {
			b := s.w.NextBlock(tip, nil, 0)
			if cs := vmodel.Coins(s.w.Led[tip].Utxos); len(cs) > 0 {
				c := cs[r.Intn(len(cs))]
				if vmodel.KeyOf(s.w.Keys, c.Pkh) != nil && c.U.Value > 100 {
					t := s.w.Spend([]vmodel.Coin{c}, 1+uint64(r.Intn(50)), 1+r.Intn(8), 0)
					if vmodel.TxVSize(t) <= p.MaxTxVSize {
						h := s.w.All.Blocks[tip].Height + 1
						body := []core.Tx{t}
						b = s.w.Assemble(tip, []core.Tx{s.w.Coinbase(h, p.BlockReward+vmodel.FeeSum(body)), t}, b.Block.Target, b.Block.MinedTime)
					}
				}
			}
			s.w.Register(b)
			tip = b.Id
			chain = append(chain, b)
		}
		avail := map[core.Utxo]H{}
		for u, q := range s.w.Led[tip].Utxos {
			avail[u] = q
		}
		var txs []core.Tx
		for _, c := range vmodel.Coins(avail) {
			if vmodel.KeyOf(s.w.Keys, c.Pkh) == nil || c.U.Value == 0 || r.Intn(3) == 0 {
				continue
			}
			fee, nOut := c.U.Value, r.Intn(3)
			if nOut > 0 {
				fee = 1 + uint64(r.Int63n(int64(c.U.Value)))
			}
			txs = append(txs, s.w.Spend([]vmodel.Coin{c}, fee, nOut, uint64(r.Intn(2))))
			if len(txs) == 6 {
				break
			}
		}
		if len(txs) == 0 {
			return
		}
		// the limit: room for some of the best, or for all
		sort.SliceStable(txs, func(i, j int) bool { return rate(txs[i]).Cmp(rate(txs[j])) > 0 })
		k := len(txs)
		if r.Intn(3) == 0 {
			k = 1 + r.Intn(len(txs))
		}
		size := uint64(112)
		for _, t := range txs[:k] {
			size += vmodel.TxVSize(t)
		}
		switch r.Intn(6) {
		case 0:
			size--
		case 1:
			size++
		}
		for _, b := range chain { // which the chain so far must keep, too
			x := uint64(0)
			for _, t := range b.Txs {
				x += vmodel.TxVSize(t)
			}
			size = max(size, x)
		}
		p.MaxBlockVSize = size
		p.MaxTxVSize = min(p.MaxTxVSize, size-112)
		s.w.P, s.w.All.P, s.known = p, p, vmodel.NewInv(p)
		s.n = vnode.New(p, true, nil)
		if err := s.n.Barrier(); err != nil {
			s.stepErr(err)
			return
		}
		s.targets(true, false)
		s.snapshot()
		if s.dead {
			return
		}
		s.offer(vnode.Event(tip, chain...), "fit")
		if s.head != tip {
			rep.Count("diverged", 1)
			return
		}
		r.Shuffle(len(txs), func(i, j int) { txs[i], txs[j] = txs[j], txs[i] })
		for _, t := range txs {
			if s.dead {
				return
			}
			s.submitTx(t, "fit")
		}
		rep.Count("fitted_blocks", 1)
	})
}
