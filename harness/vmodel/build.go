//go:build go1.22

package vmodel

import (
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"math/big"
	"math/rand"
	"sort"

	"github.com/levilutz/basiccoin/pkg/core"
)

// Key is a wallet key of the test world.
type Key struct {
	Priv *ecdsa.PrivateKey
	Pub  []byte
	Pkh  H
}

func NewKey(c elliptic.Curve) *Key {
	p, err := ecdsa.GenerateKey(c, crand.Reader)
	if err != nil {
		panic(err)
	}
	pub, err := x509.MarshalPKIXPublicKey(p.Public())
	if err != nil {
		panic(err)
	}
	return &Key{Priv: p, Pub: pub, Pkh: HBytes(pub)}
}

func (k *Key) Sign(d H) []byte {
	x := d.Data()
	s, err := ecdsa.SignASN1(crand.Reader, k.Priv, x[:])
	if err != nil {
		panic(err)
	}
	return s
}

var keyPool []*Key

// Keys returns n shared keys (generated once per process; identity does not influence any verdict).
func Keys(n int) []*Key {
	for len(keyPool) < n {
		keyPool = append(keyPool, NewKey(elliptic.P256()))
	}
	return keyPool[:n]
}

func init() { Keys(12) }

// Foreign is an owner whose public key is of another kind than the wallets make.
type Foreign struct {
	Kind string
	Pub  []byte
	Pkh  H
	sign func(d H) []byte
}

var foreignPool []*Foreign

// Foreigners are the owners with unusual keys. Only the P-384 one can ever spend.
func Foreigners() []*Foreign {
	if foreignPool != nil {
		return foreignPool
	}
	var out []*Foreign
	add := func(kind string, pub any, sign func(d H) []byte) {
		b, err := x509.MarshalPKIXPublicKey(pub)
		if err != nil {
			panic(err)
		}
		out = append(out, &Foreign{kind, b, HBytes(b), sign})
	}
	p384 := NewKey(elliptic.P384())
	add("p384", p384.Priv.Public(), p384.Sign)
	edPub, ed, _ := ed25519.GenerateKey(crand.Reader)
	add("ed25519", edPub, func(d H) []byte { x := d.Data(); return ed25519.Sign(ed, x[:]) })
	if k, err := rsa.GenerateKey(crand.Reader, 2048); err == nil {
		add("rsa", k.Public(), func(d H) []byte {
			x := d.Data()
			s, _ := rsa.SignPKCS1v15(crand.Reader, k, crypto.SHA256, x[:])
			return s
		})
	}
	if k, err := ecdh.X25519().GenerateKey(crand.Reader); err == nil {
		add("x25519", k.Public(), func(d H) []byte { x := d.Data(); return x[:] })
	}
	for _, b := range [][]byte{{}, {0}, []byte("not a key at all")} {
		out = append(out, &Foreign{"garbage", b, HBytes(b), func(d H) []byte { x := d.Data(); return x[:] }})
	}
	foreignPool = out
	return out
}

func init() { Foreigners() }

func ForeignOf(pkh H) *Foreign {
	for _, f := range foreignPool {
		if f.Pkh == pkh {
			return f
		}
	}
	return nil
}

// Payee picks who is paid: mostly a key of the world, now and then an owner with an unusual key.
func (w *World) Payee() H {
	if w.R.Intn(12) == 0 {
		return foreignPool[w.R.Intn(len(foreignPool))].Pkh
	}
	return w.Keys[w.R.Intn(len(w.Keys))].Pkh
}

// Sign fills in all signatures of t using the keys owning the inputs (signer chosen by callback).
func SignTx(t *core.Tx, key func(i int) *Key) {
	ps := PreSig(t.MinBlock, t.Outputs)
	for i := range t.Inputs {
		k := key(i)
		t.Inputs[i].PublicKey = k.Pub
		t.Inputs[i].Signature = k.Sign(ps)
	}
}

func KeyOf(keys []*Key, pkh H) *Key {
	for _, k := range keys {
		if k.Pkh == pkh {
			return k
		}
	}
	return nil
}

// MakeTree builds the canonical tree: nodes in insertion order, root last.
func MakeTree(ids []H) []core.MerkleNode {
	if len(ids) == 1 {
		return []core.MerkleNode{{LChild: ids[0], RChild: ids[0]}}
	}
	var out []core.MerkleNode
	layer := ids
	for len(layer) > 1 {
		var next []H
		for i := 0; i < len(layer); i += 2 {
			m := core.MerkleNode{LChild: layer[i], RChild: layer[i]}
			if i+1 < len(layer) {
				m.RChild = layer[i+1]
			}
			out = append(out, m)
			next = append(next, MerkleID(m))
		}
		layer = next
	}
	return out
}

// RandTree builds a tree of arbitrary shape whose leaves in breadth-first order are ids: nodes in insertion order, root last.
func RandTree(r *rand.Rand, ids []H) []core.MerkleNode {
	type node struct {
		l, r *node // leaf: both nil
		id   H
	}
	var shape func(n, wrap int) *node
	comb := r.Intn(3) // 0 random, 1 left-leaning, 2 right-leaning
	shape = func(n, wrap int) *node {
		if wrap > 0 && r.Intn(6) == 0 {
			c := shape(n, wrap-1)
			return &node{l: c, r: c}
		}
		if n == 1 {
			return &node{}
		}
		k := 1 + r.Intn(n-1)
		if comb == 1 {
			k = n - 1
		} else if comb == 2 {
			k = 1
		}
		return &node{l: shape(k, wrap), r: shape(n-k, wrap)}
	}
	root := shape(len(ids), 2)
	if root.l == nil {
		root = &node{l: root, r: root}
	}
	var inner []*node
	next := 0
	for q := []*node{root}; len(q) > 0; q = q[1:] {
		n := q[0]
		if n.l == nil {
			n.id = ids[next]
			next++
			continue
		}
		inner = append(inner, n)
		q = append(q, n.l)
		if n.r != n.l {
			q = append(q, n.r)
		}
	}
	var out []core.MerkleNode
	for i := len(inner) - 1; i >= 0; i-- {
		m := core.MerkleNode{LChild: inner[i].l.id, RChild: inner[i].r.id}
		inner[i].id = MerkleID(m)
		out = append(out, m)
	}
	return out
}

// MineHook, when set, finds the nonces (for targets too hard for the plain loop).
var MineHook func(core.Block) core.Block

// Mine finds a nonce; want=false finds one that does NOT beat the target.
func Mine(b core.Block, want bool, rng *rand.Rand) core.Block {
	if want && MineHook != nil {
		return MineHook(b)
	}
	t := Big(b.Target)
	if rng != nil {
		b.Nonce = uint64(rng.Int63())
	}
	for {
		if (Big(BlockID(b)).Cmp(t) < 0) == want {
			return b
		}
		b.Nonce++
	}
}

// Bundle is one block with everything it needs, in insertion order.
type Bundle struct {
	Block   core.Block
	Id      H
	Txs     []core.Tx // coinbase first, block order
	Merkles []core.MerkleNode
	Label   string // "" = legal
	Parent  H
}

// World generates block trees. Full knows every entity ever created, Led memoises ledgers.
type World struct {
	P     core.Params
	R     *rand.Rand
	Keys  []*Key
	All   *Inv // every block added by Add (even branch-illegal ones)
	Led   map[H]*Ledger
	Now   uint64
	BunBy map[H]*Bundle
	Order []H
	Clock uint64 // when set, the time of every block made, with the targets that times give
}

func NewWorld(p core.Params, r *rand.Rand, now uint64) *World {
	return &World{P: p, R: r, Keys: Keys(4 + r.Intn(6)), All: NewInv(p), Led: map[H]*Ledger{{}: NewLedger()}, Now: now, BunBy: map[H]*Bundle{}}
}

// HashFromHex
func Hex(s string) H { return core.NewHashTFromStringAssert(s) }

const MaxT = "3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"

// RandParams makes small-world parameters with cheap proof of work.
func RandParams(r *rand.Rand) core.Params {
	periods := []uint64{4, 5, 6, 8}
	p := core.Params{
		BlockReward:      []uint64{1, 50, 1000, 131072, 1 << 40}[r.Intn(5)],
		DifficultyPeriod: periods[r.Intn(len(periods))],
		BlockTargetTime:  []uint64{10, 60, 720}[r.Intn(3)],
		MaxBlockVSize:    []uint64{1100, 1800, 3000, 6000}[r.Intn(4)],
		MaxTxVSize:       []uint64{650, 900, 1500}[r.Intn(3)],
		MaxTarget:        Hex(MaxT),
	}
	switch r.Intn(3) {
	case 0:
		p.OriginalTarget = p.MaxTarget
	case 1:
		p.OriginalTarget = Hex("1abcdef012345678ffffffffffffffffffffffffffffffffffffffffffffff01")
	default:
		p.OriginalTarget = Hex("05ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
	}
	return p
}

type Coin struct {
	U   core.Utxo
	Pkh H
}

func Coins(m map[core.Utxo]H) []Coin {
	out := make([]Coin, 0, len(m))
	for u, p := range m {
		out = append(out, Coin{u, p})
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].U.TxId != out[j].U.TxId {
			return out[i].U.TxId.Lt(out[j].U.TxId)
		}
		return out[i].U.Ind < out[j].U.Ind
	})
	return out
}

// Spend builds a signed transaction consuming the coins, splitting in - fee over nOut outputs.
func (w *World) Spend(coins []Coin, fee uint64, nOut int, minBlock uint64) core.Tx {
	t := core.Tx{MinBlock: minBlock, Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	in := uint64(0)
	for _, c := range coins {
		in += c.U.Value
		t.Inputs = append(t.Inputs, core.TxIn{Utxo: c.U})
	}
	left := in - fee
	even := w.R.Intn(3) == 0
	each := left / uint64(max(nOut, 1))
	for i := 0; i < nOut; i++ {
		v := left
		if even && i < nOut-1 {
			v = each
		} else if i < nOut-1 && left > 0 {
			v = uint64(w.R.Int63n(int64(min(left, 1<<62)))) + 0
		}
		left -= v
		t.Outputs = append(t.Outputs, core.TxOut{Value: v, PublicKeyHash: w.Payee()})
	}
	SignTx(&t, func(i int) *Key { return KeyOf(w.Keys, coins[i].Pkh) })
	return t
}

// RandTx makes a valid random transaction from the given available coins (removing them), or ok=false.
func (w *World) RandTx(avail map[core.Utxo]H, height uint64) (core.Tx, bool) {
	cs := Coins(avail)
	cs2 := cs[:0]
	for _, c := range cs {
		if KeyOf(w.Keys, c.Pkh) != nil {
			cs2 = append(cs2, c)
		}
	}
	if len(cs2) == 0 {
		return core.Tx{}, false
	}
	w.R.Shuffle(len(cs2), func(i, j int) { cs2[i], cs2[j] = cs2[j], cs2[i] })
	n := 1 + w.R.Intn(2)
	if w.P.MaxTxVSize >= 900 && w.R.Intn(3) == 0 {
		n = 3
	}
	if n > len(cs2) {
		n = len(cs2)
	}
	if w.R.Intn(3) == 0 { // outputs of one transaction together
		sort.SliceStable(cs2[1:], func(i, j int) bool {
			return cs2[1+i].U.TxId == cs2[0].U.TxId && cs2[1+j].U.TxId != cs2[0].U.TxId
		})
	}
	in := uint64(0)
	for _, c := range cs2[:n] {
		in += c.U.Value
	}
	if in == 0 {
		return core.Tx{}, false
	}
	fee := uint64(1)
	if in > 4 && w.R.Intn(3) > 0 {
		fee = 1 + uint64(w.R.Int63n(int64(in/4)))
	}
	mb := uint64(0)
	if w.R.Intn(2) == 0 && height > 0 {
		mb = uint64(w.R.Int63n(int64(height))) + 1
		if w.R.Intn(2) == 0 {
			mb = height
		}
	}
	nOut := w.R.Intn(4)
	t := w.Spend(cs2[:n], fee, nOut, mb)
	if nOut == 0 { // everything is fee
		SignTx(&t, func(i int) *Key { return KeyOf(w.Keys, cs2[i].Pkh) })
	}
	if TxVSize(t) > w.P.MaxTxVSize {
		return core.Tx{}, false
	}
	for _, c := range cs2[:n] {
		delete(avail, c.U)
	}
	return t, true
}

func (w *World) Coinbase(height, value uint64) core.Tx {
	return core.Tx{IsCoinbase: true, MinBlock: height, Inputs: []core.TxIn{}, Outputs: []core.TxOut{{Value: value, PublicKeyHash: w.Payee()}}}
}

// BlockTime picks a conforming time for a block on parent; mode varies.
func (w *World) BlockTime(parent H) uint64 {
	if w.Clock > 0 {
		return w.Clock
	}
	lo := w.All.MinTime(parent)
	if base := w.Now - 400000; lo < base {
		lo = base
	}
	switch w.R.Intn(8) {
	case 0:
		return lo
	case 1:
		return lo + uint64(w.R.Intn(3))
	case 2:
		return lo + uint64(w.R.Intn(4000))
	default:
		return lo + uint64(w.R.Intn(int(2*w.P.BlockTargetTime)))
	}
}

func (w *World) BlockTarget(parent H) H {
	h := w.All.Blocks[parent].Height + 1
	if parent.EqZero() {
		return w.P.OriginalTarget
	}
	prev := w.All.Blocks[parent].Block.Target
	if h%w.P.DifficultyPeriod != 0 {
		return prev
	}
	if w.Clock > 0 {
		t, ok := w.All.NextTarget(parent)
		if !ok {
			panic("no next target")
		}
		return t
	}
	lo, hi := TargetBounds(w.P, prev)
	floor := Big(Hex("00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"))
	if lo.Cmp(floor) < 0 {
		lo = floor // keep proof of work cheap
	}
	switch w.R.Intn(5) {
	case 0:
		return FromBig(lo)
	case 1:
		return FromBig(hi)
	case 2:
		d := new(big.Int).Sub(hi, lo)
		if d.Sign() <= 0 {
			return FromBig(hi)
		}
		d.Rand(w.R, d)
		return FromBig(d.Add(d, lo))
	default:
		if t, ok := w.All.NextTarget(parent); ok && Big(t).Cmp(floor) >= 0 {
			return t
		}
		return FromBig(hi)
	}
}

// Assemble makes a bundle from a transaction list (coinbase included by the caller) without registering it.
func (w *World) Assemble(parent H, txs []core.Tx, target H, time uint64) *Bundle {
	ids := make([]H, len(txs))
	for i := range txs {
		ids[i] = TxID(txs[i])
	}
	ms := MakeTree(ids)
	if w.R.Intn(4) == 0 {
		ms = RandTree(w.R, ids)
	}
	b := core.Block{PrevBlockId: parent, MerkleRoot: MerkleID(ms[len(ms)-1]), Target: target, Noise: w.RandH(), MinedTime: time}
	b = Mine(b, true, w.R)
	return &Bundle{Block: b, Id: BlockID(b), Txs: txs, Merkles: ms, Parent: parent}
}

func (w *World) RandH() H {
	var x [32]byte
	w.R.Read(x[:])
	return hb(x)
}

// Register makes the model know the bundle (Full inventory) and computes its ledger.
func (w *World) Register(b *Bundle) {
	for _, t := range b.Txs {
		w.All.AddTx(t)
	}
	for _, m := range b.Merkles {
		w.All.AddMerkle(m)
	}
	w.All.AddBlock(b.Block)
	if _, ok := w.BunBy[b.Id]; !ok {
		w.Order = append(w.Order, b.Id)
	}
	w.BunBy[b.Id] = b
	pl := w.Led[b.Parent]
	nl := pl.Copy()
	if nl.Err == "" {
		if e := nl.Apply(w.All, b.Id); e != "" {
			nl.Err = e
		}
	}
	w.Led[b.Id] = nl
}

// FeeSum over non-coinbase txs.
func FeeSum(txs []core.Tx) uint64 {
	s := new(big.Int)
	for _, t := range txs {
		if !t.IsCoinbase {
			s.Add(s, Fee(t))
		}
	}
	return s.Uint64()
}

// NextBlock extends parent with a random legal block, optionally including pool transactions legal there.
func (w *World) NextBlock(parent H, pool []core.Tx, maxTxs int) *Bundle {
	h := w.All.Blocks[parent].Height + 1
	led := w.Led[parent]
	avail := make(map[core.Utxo]H, len(led.Utxos))
	for u, p := range led.Utxos {
		avail[u] = p
	}
	var body []core.Tx
	size := uint64(112)
	used := map[H]bool{}
	add := func(t core.Tx) bool {
		if size+TxVSize(t) > w.P.MaxBlockVSize {
			return false
		}
		id := TxID(t)
		if used[id] {
			return false
		}
		if _, ok := led.Incl[id]; ok {
			return false
		}
		used[id] = true
		size += TxVSize(t)
		body = append(body, t)
		for i, o := range t.Outputs {
			avail[core.Utxo{TxId: id, Ind: uint64(i), Value: o.Value}] = o.PublicKeyHash
		}
		return true
	}
	for _, t := range pool {
		if len(body) >= maxTxs || t.IsCoinbase || t.MinBlock > h {
			continue
		}
		ok := true
		for _, in := range t.Inputs {
			if _, has := avail[in.Utxo]; !has {
				ok = false
			}
		}
		if ok && w.R.Intn(4) > 0 && size+TxVSize(t) <= w.P.MaxBlockVSize {
			if add(t) {
				for _, in := range t.Inputs {
					delete(avail, in.Utxo)
				}
			}
		}
	}
	n := w.R.Intn(maxTxs + 1)
	for k := 0; k < n && len(body) < maxTxs; k++ {
		t, ok := w.RandTx(avail, h)
		if !ok {
			break
		}
		if !add(t) {
			break // coins were taken from avail, fine: they simply stay unspent
		}
	}
	txs := append([]core.Tx{w.Coinbase(h, w.P.BlockReward+FeeSum(body))}, body...)
	return w.Assemble(parent, txs, w.BlockTarget(parent), w.BlockTime(parent))
}
