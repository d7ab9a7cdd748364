//go:build go1.22

// Package vmodel is an independent executable model of the ledger rules, written from the properties.
package vmodel

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	"github.com/levilutz/basiccoin/pkg/core"
)

type H = core.HashT

func hb(b [32]byte) H { return core.NewHashTFromBytes(b[:]) }

func dsha(b []byte) H {
	x := sha256.Sum256(b)
	return hb(sha256.Sum256(x[:]))
}

// list composition: 32*n zero bytes, then the n hashes
func HList(hs ...H) H {
	buf := make([]byte, 32*len(hs))
	for _, h := range hs {
		d := h.Data()
		buf = append(buf, d[:]...)
	}
	return dsha(buf)
}
func HU64(v uint64) H {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return dsha(b[:])
}
func HBytes(b []byte) H { return dsha(b) }
func HBool(b bool) H {
	if b {
		return dsha([]byte{0})
	}
	return dsha([]byte{1})
}
func UtxoID(u core.Utxo) H { return HList(u.TxId, HU64(u.Ind), HU64(u.Value)) }
func TxInID(i core.TxIn) H {
	return HList(UtxoID(i.Utxo), HBytes(i.PublicKey), HBytes(i.Signature))
}
func TxOutID(o core.TxOut) H { return HList(HU64(o.Value), o.PublicKeyHash) }
func outsID(os []core.TxOut) H {
	hs := make([]H, len(os))
	for i := range os {
		hs[i] = TxOutID(os[i])
	}
	return HList(hs...)
}
func TxID(t core.Tx) H {
	ins := make([]H, len(t.Inputs))
	for i := range t.Inputs {
		ins[i] = TxInID(t.Inputs[i])
	}
	return HList(HBool(t.IsCoinbase), HU64(t.MinBlock), HList(ins...), outsID(t.Outputs))
}
func PreSig(minBlock uint64, outs []core.TxOut) H { return HList(HU64(minBlock), outsID(outs)) }
func MerkleID(m core.MerkleNode) H                { return HList(m.LChild, m.RChild) }
func BlockID(b core.Block) H {
	return HList(b.PrevBlockId, b.MerkleRoot, b.Target, b.Noise, HU64(b.Nonce))
}

func TxVSize(t core.Tx) uint64 {
	n := uint64(72) + 40*uint64(len(t.Outputs))
	for _, i := range t.Inputs {
		n += 48 + uint64(len(i.PublicKey)) + uint64(len(i.Signature))
	}
	return n
}
func InSum(t core.Tx) *big.Int {
	s := new(big.Int)
	for _, i := range t.Inputs {
		s.Add(s, new(big.Int).SetUint64(i.Utxo.Value))
	}
	return s
}
func OutSum(t core.Tx) *big.Int {
	s := new(big.Int)
	for _, o := range t.Outputs {
		s.Add(s, new(big.Int).SetUint64(o.Value))
	}
	return s
}
func Fee(t core.Tx) *big.Int { return new(big.Int).Sub(InSum(t), OutSum(t)) }

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func SigValid(pub, sig []byte, digest H) bool {
	k, err := x509.ParsePKIXPublicKey(pub)
	if err != nil {
		return false
	}
	ek, ok := k.(*ecdsa.PublicKey)
	if !ok {
		return false
	}
	d := digest.Data()
	return ecdsa.VerifyASN1(ek, d[:], sig)
}

// Verdict of a rule: Must accept, must refuse (Bad with a reason), or unspecified.
type Verdict int

const (
	OK Verdict = iota
	Bad
	Open
)

type BlockInfo struct {
	Id     H
	Block  core.Block
	Height uint64
	Work   *big.Int
	TxIds  []H
}

// Inv is the model inventory: what a node knows.
type Inv struct {
	P       core.Params
	Txs     map[H]core.Tx
	Merkles map[H]core.MerkleNode
	MSize   map[H]uint64
	Blocks  map[H]*BlockInfo
	Order   []H // blocks in order of becoming known
}

func NewInv(p core.Params) *Inv {
	v := &Inv{P: p, Txs: map[H]core.Tx{}, Merkles: map[H]core.MerkleNode{}, MSize: map[H]uint64{}, Blocks: map[H]*BlockInfo{}}
	v.Blocks[H{}] = &BlockInfo{Id: H{}, Height: 0, Work: new(big.Int)}
	return v
}

func (v *Inv) HasEntity(id H) bool {
	if _, ok := v.Txs[id]; ok {
		return true
	}
	_, ok := v.Merkles[id]
	return ok
}
func (v *Inv) EntitySize(id H) uint64 {
	if t, ok := v.Txs[id]; ok {
		return TxVSize(t)
	}
	return v.MSize[id]
}

// Leaves enumerates a tree breadth first, visiting an identical right child once.
func (v *Inv) Leaves(root H) []H {
	out := []H{}
	q := []H{root}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		if _, ok := v.Txs[id]; ok {
			out = append(out, id)
			continue
		}
		m, ok := v.Merkles[id]
		if !ok {
			return nil
		}
		q = append(q, m.LChild)
		if m.RChild != m.LChild {
			q = append(q, m.RChild)
		}
	}
	return out
}

// CheckTx judges a transaction offered to a node knowing v.
func (v *Inv) CheckTx(t core.Tx) (Verdict, string) {
	ps := PreSig(t.MinBlock, t.Outputs)
	for _, i := range t.Inputs {
		if !SigValid(i.PublicKey, i.Signature, ps) {
			return Bad, "bad-signature"
		}
	}
	if TxVSize(t) > v.P.MaxTxVSize {
		return Bad, "tx-too-big"
	}
	if t.IsCoinbase {
		if len(t.Inputs) > 0 {
			return Bad, "coinbase-with-inputs"
		}
		if len(t.Outputs) != 1 {
			return Bad, "coinbase-outputs"
		}
		if t.Outputs[0].Value < v.P.BlockReward {
			return Bad, "coinbase-below-reward"
		}
		return OK, ""
	}
	if OutSum(t).Cmp(InSum(t)) >= 0 {
		return Bad, "no-surplus"
	}
	seen := map[core.Utxo]bool{}
	for _, i := range t.Inputs {
		if seen[i.Utxo] {
			return Bad, "duplicate-input"
		}
		seen[i.Utxo] = true
		o, ok := v.Txs[i.Utxo.TxId]
		if !ok || i.Utxo.Ind >= uint64(len(o.Outputs)) {
			return Bad, "unknown-output"
		}
		oo := o.Outputs[i.Utxo.Ind]
		if HBytes(i.PublicKey) != oo.PublicKeyHash {
			return Bad, "wrong-key"
		}
		if oo.Value != i.Utxo.Value {
			return Bad, "wrong-amount"
		}
	}
	if InSum(t).Cmp(two64) >= 0 || OutSum(t).Cmp(two64) >= 0 {
		return Open, "sum-over-64-bits"
	}
	return OK, ""
}

func (v *Inv) CheckMerkle(m core.MerkleNode) (Verdict, string) {
	if !v.HasEntity(m.LChild) || !v.HasEntity(m.RChild) {
		return Bad, "unknown-child"
	}
	size := v.EntitySize(m.LChild)
	if m.LChild != m.RChild {
		size += v.EntitySize(m.RChild)
		set := map[H]bool{}
		for _, x := range v.Leaves(m.LChild) {
			set[x] = true
		}
		for _, x := range v.Leaves(m.RChild) {
			if set[x] {
				return Bad, "overlapping-children"
			}
		}
	}
	if size > v.P.MaxBlockVSize {
		return Bad, "tree-too-big"
	}
	return OK, ""
}

var max256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func Big(h H) *big.Int {
	d := h.Data()
	return new(big.Int).SetBytes(d[:])
}
func FromBig(b *big.Int) H {
	var x [32]byte
	b.FillBytes(x[:])
	return hb(x)
}

// Work of one target: floor((2^256-1)/target).
func Work(target H) *big.Int { return new(big.Int).Div(max256, Big(target)) }

// TargetBounds at a period boundary after a block with target prev.
func TargetBounds(p core.Params, prev H) (lo, hi *big.Int) {
	lo = new(big.Int).Rsh(Big(prev), 2)
	hi = new(big.Int).Lsh(Big(prev), 2)
	if m := Big(p.MaxTarget); hi.Cmp(m) > 0 {
		hi = m
	}
	return
}

func (v *Inv) Anc(id H, depth uint64) H {
	for ; depth > 0 && !id.EqZero(); depth-- {
		id = v.Blocks[id].Block.PrevBlockId
	}
	return id
}

// MedianBefore: median of the up to five blocks ending at prev (not the zero block); ok=false at genesis.
func (v *Inv) MedianBefore(prev H) (uint64, bool) {
	var ts []uint64
	for id := prev; !id.EqZero() && len(ts) < 5; id = v.Blocks[id].Block.PrevBlockId {
		ts = append(ts, v.Blocks[id].Block.MinedTime)
	}
	if len(ts) == 0 {
		return 0, false
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	n := len(ts)
	if n%2 == 1 {
		return ts[n/2], true
	}
	a := new(big.Int).SetUint64(ts[n/2-1])
	a.Add(a, new(big.Int).SetUint64(ts[n/2]))
	return a.Rsh(a, 1).Uint64(), true
}

// PeriodFirst: if a block of height h on prev is the last of its period, the first block of that period.
func (v *Inv) PeriodFirst(prev H, h uint64) (H, bool) {
	if (h+1)%v.P.DifficultyPeriod != 0 {
		return H{}, false
	}
	first := (h / v.P.DifficultyPeriod) * v.P.DifficultyPeriod
	if first == 0 {
		first = 1
	}
	return v.Anc(prev, h-1-first), true
}

// MinTime is the smallest conforming mined time for a block on prev.
func (v *Inv) MinTime(prev H) uint64 {
	t := uint64(0)
	if m, ok := v.MedianBefore(prev); ok {
		t = m + 1
	}
	if f, ok := v.PeriodFirst(prev, v.Blocks[prev].Height+1); ok {
		if ft := v.Blocks[f].Block.MinedTime; ft+1 > t {
			t = ft + 1
		}
	}
	return t
}

const FutureMargin = 600

// CheckBlock judges a block offered to a node knowing v with the clock at now.
func (v *Inv) CheckBlock(b core.Block, now uint64) (Verdict, string) {
	id := BlockID(b)
	if Big(id).Cmp(Big(b.Target)) >= 0 {
		return Bad, "no-proof-of-work"
	}
	if _, ok := v.Merkles[b.MerkleRoot]; !ok {
		return Bad, "unknown-root"
	}
	pi, ok := v.Blocks[b.PrevBlockId]
	if !ok {
		return Bad, "unknown-parent"
	}
	txIds := v.Leaves(b.MerkleRoot)
	if len(txIds) == 0 {
		return Bad, "no-txs"
	}
	h := pi.Height + 1
	in := new(big.Int).SetUint64(v.P.BlockReward)
	out := new(big.Int)
	size := uint64(0)
	seen := map[H]bool{}
	for i, tid := range txIds {
		t := v.Txs[tid]
		if seen[tid] {
			return Bad, "tx-twice"
		}
		seen[tid] = true
		if i == 0 {
			if !t.IsCoinbase {
				return Bad, "first-not-coinbase"
			}
			if t.MinBlock != h {
				return Bad, "coinbase-height"
			}
		} else if t.IsCoinbase {
			return Bad, "second-coinbase"
		}
		in.Add(in, InSum(t))
		out.Add(out, OutSum(t))
		size += TxVSize(t)
	}
	if in.Cmp(out) != 0 {
		return Bad, "reward-mismatch"
	}
	if size > v.P.MaxBlockVSize {
		return Bad, "block-too-big"
	}
	if m, ok := v.MedianBefore(b.PrevBlockId); ok && b.MinedTime <= m {
		return Bad, "time-below-median"
	}
	if f, ok := v.PeriodFirst(b.PrevBlockId, h); ok && b.MinedTime <= v.Blocks[f].Block.MinedTime {
		return Bad, "time-not-after-period-first"
	}
	if b.PrevBlockId.EqZero() {
		if b.Target != v.P.OriginalTarget {
			return Bad, "first-target"
		}
	} else if prev := v.Blocks[b.PrevBlockId].Block.Target; h%v.P.DifficultyPeriod == 0 {
		lo, hi := TargetBounds(v.P, prev)
		if t := Big(b.Target); t.Cmp(lo) < 0 {
			return Bad, "target-too-hard"
		} else if t.Cmp(hi) > 0 {
			return Bad, "target-too-easy"
		}
	} else if b.Target != prev {
		return Bad, "target-changed"
	}
	if b.MinedTime > now+3600+FutureMargin {
		return Bad, "time-in-future"
	}
	if b.MinedTime > now+3600-FutureMargin {
		return Open, "time-near-limit"
	}
	if in.Cmp(two64) >= 0 {
		return Open, "sum-over-64-bits"
	}
	return OK, ""
}

func (v *Inv) AddTx(t core.Tx)             { v.Txs[TxID(t)] = t }
func (v *Inv) AddMerkle(m core.MerkleNode) { v.addM(m) }
func (v *Inv) addM(m core.MerkleNode) {
	id := MerkleID(m)
	v.Merkles[id] = m
	s := v.EntitySize(m.LChild)
	if m.LChild != m.RChild {
		s += v.EntitySize(m.RChild)
	}
	v.MSize[id] = s
}
func (v *Inv) AddBlock(b core.Block) *BlockInfo {
	p := v.Blocks[b.PrevBlockId]
	id := BlockID(b)
	if old, ok := v.Blocks[id]; ok {
		return old
	}
	bi := &BlockInfo{Id: id, Block: b, Height: p.Height + 1, Work: new(big.Int).Add(p.Work, Work(b.Target)), TxIds: v.Leaves(b.MerkleRoot)}
	v.Blocks[id] = bi
	v.Order = append(v.Order, id)
	return bi
}

// Path lists the blocks from just after genesis to id.
func (v *Inv) Path(id H) []H {
	var out []H
	for !id.EqZero() {
		out = append(out, id)
		id = v.Blocks[id].Block.PrevBlockId
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (v *Inv) LCA(a, b H) H {
	for a != b {
		if v.Blocks[a].Height >= v.Blocks[b].Height {
			a = v.Blocks[a].Block.PrevBlockId
		} else {
			b = v.Blocks[b].Block.PrevBlockId
		}
	}
	return a
}

// Ledger is the result of applying a chain from genesis in order.
type Ledger struct {
	Head  H
	Utxos map[core.Utxo]H // -> pkh
	Incl  map[H]H         // tx -> block
	Err   string
}

func NewLedger() *Ledger {
	return &Ledger{Utxos: map[core.Utxo]H{}, Incl: map[H]H{}}
}
func (l *Ledger) Copy() *Ledger {
	n := &Ledger{Head: l.Head, Utxos: make(map[core.Utxo]H, len(l.Utxos)), Incl: make(map[H]H, len(l.Incl)), Err: l.Err}
	for k, x := range l.Utxos {
		n.Utxos[k] = x
	}
	for k, x := range l.Incl {
		n.Incl[k] = x
	}
	return n
}

// Apply one block; returns "" or why it cannot follow.
func (l *Ledger) Apply(v *Inv, id H) string {
	bi := v.Blocks[id]
	for _, tid := range bi.TxIds {
		t := v.Txs[tid]
		if t.MinBlock > bi.Height {
			return "min-block"
		}
		if _, ok := l.Incl[tid]; ok {
			return "tx-already-included"
		}
		for _, in := range t.Inputs {
			if _, ok := l.Utxos[in.Utxo]; !ok {
				return "input-unavailable"
			}
			delete(l.Utxos, in.Utxo)
		}
		for i, o := range t.Outputs {
			l.Utxos[core.Utxo{TxId: tid, Ind: uint64(i), Value: o.Value}] = o.PublicKeyHash
		}
		l.Incl[tid] = id
	}
	l.Head = id
	return ""
}

// LedgerAt replays from genesis; Err is set if the chain is not legal.
func (v *Inv) LedgerAt(head H) *Ledger {
	l := NewLedger()
	for _, id := range v.Path(head) {
		if e := l.Apply(v, id); e != "" {
			l.Err = e + " at height " + fmt.Sprint(v.Blocks[id].Height)
			return l
		}
	}
	return l
}

func (l *Ledger) Balances() map[H]*big.Int {
	out := map[H]*big.Int{}
	for u, p := range l.Utxos {
		if out[p] == nil {
			out[p] = new(big.Int)
		}
		out[p].Add(out[p], new(big.Int).SetUint64(u.Value))
	}
	return out
}

// NextTarget by the published formula; ok=false if the chain's times make it undefined.
func (v *Inv) NextTarget(prev H) (H, bool) {
	if prev.EqZero() {
		return v.P.OriginalTarget, true
	}
	bi := v.Blocks[prev]
	if (bi.Height+1)%v.P.DifficultyPeriod != 0 {
		return bi.Block.Target, true
	}
	first := (bi.Height / v.P.DifficultyPeriod) * v.P.DifficultyPeriod
	if first == 0 {
		first = 1
	}
	n := bi.Height - first
	f := v.Blocks[v.Anc(prev, n)].Block.MinedTime
	if bi.Block.MinedTime <= f {
		return H{}, false
	}
	t := Big(bi.Block.Target)
	t.Mul(t, new(big.Int).SetUint64(bi.Block.MinedTime-f))
	des := new(big.Int).SetUint64(v.P.BlockTargetTime)
	des.Mul(des, new(big.Int).SetUint64(n))
	t.Div(t, des)
	lo, hi := TargetBounds(v.P, bi.Block.Target)
	if t.Cmp(lo) < 0 {
		t = lo
	}
	if t.Cmp(hi) > 0 {
		t = hi
	}
	return FromBig(t), true
}

func SameTx(a, b core.Tx) bool {
	if a.IsCoinbase != b.IsCoinbase || a.MinBlock != b.MinBlock || len(a.Inputs) != len(b.Inputs) || len(a.Outputs) != len(b.Outputs) {
		return false
	}
	for i := range a.Inputs {
		if a.Inputs[i].Utxo != b.Inputs[i].Utxo || !bytes.Equal(a.Inputs[i].PublicKey, b.Inputs[i].PublicKey) || !bytes.Equal(a.Inputs[i].Signature, b.Inputs[i].Signature) {
			return false
		}
	}
	for i := range a.Outputs {
		if a.Outputs[i] != b.Outputs[i] {
			return false
		}
	}
	return true
}
