//go:build go1.22

package vmodel

import (
	"crypto/ecdsa"
	"crypto/x509"
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/levilutz/basiccoin/pkg/core"
)

// A fixture is a chain of one of the real networks, mined once (by ck_gen) and kept in /verif/data.
type FixTx struct {
	CB  bool
	Min uint64
	In  []FixIn
	Out []FixOut
}
type FixIn struct {
	Tx       string
	Ind, Val uint64
	Pub, Sig []byte
}
type FixOut struct {
	Val uint64
	To  string
}
type FixBlock struct {
	Prev, Root, Target, Noise string
	Nonce, Time               uint64
	Txs                       []FixTx
	Merkles                   [][2]string
}
type Fixture struct {
	Keys   [][]byte
	Blocks []FixBlock
}

// SaveFixture writes the world's bundles.
func (w *World) SaveFixture(path string) error {
	var f Fixture
	for _, k := range w.Keys {
		der, err := x509.MarshalECPrivateKey(k.Priv)
		if err != nil {
			return err
		}
		f.Keys = append(f.Keys, der)
	}
	for _, id := range w.Order {
		b := w.BunBy[id]
		x := FixBlock{Prev: b.Block.PrevBlockId.String(), Root: b.Block.MerkleRoot.String(), Target: b.Block.Target.String(), Noise: b.Block.Noise.String(), Nonce: b.Block.Nonce, Time: b.Block.MinedTime}
		for _, t := range b.Txs {
			ft := FixTx{CB: t.IsCoinbase, Min: t.MinBlock}
			for _, i := range t.Inputs {
				ft.In = append(ft.In, FixIn{i.Utxo.TxId.String(), i.Utxo.Ind, i.Utxo.Value, i.PublicKey, i.Signature})
			}
			for _, o := range t.Outputs {
				ft.Out = append(ft.Out, FixOut{o.Value, o.PublicKeyHash.String()})
			}
			x.Txs = append(x.Txs, ft)
		}
		for _, m := range b.Merkles {
			x.Merkles = append(x.Merkles, [2]string{m.LChild.String(), m.RChild.String()})
		}
		f.Blocks = append(f.Blocks, x)
	}
	j, err := json.Marshal(f)
	if err != nil {
		return err
	}
	return os.WriteFile(path, j, 0644)
}

// LoadFixture reads one of /verif/data's chains.
func LoadFixture(name string, p core.Params, r *rand.Rand) (*World, error) {
	j, err := os.ReadFile(filepath.Join(os.Getenv("VX_VERIF"), "data", name))
	if err != nil {
		return nil, err
	}
	var f Fixture
	if err := json.Unmarshal(j, &f); err != nil {
		return nil, err
	}
	w := NewWorld(p, r, 1700000000)
	w.Keys = nil
	for _, der := range f.Keys {
		k, err := x509.ParseECPrivateKey(der)
		if err != nil {
			return nil, err
		}
		w.Keys = append(w.Keys, keyOfPriv(k))
	}
	for _, x := range f.Blocks {
		b := &Bundle{Block: core.Block{PrevBlockId: Hex(x.Prev), MerkleRoot: Hex(x.Root), Target: Hex(x.Target), Noise: Hex(x.Noise), Nonce: x.Nonce, MinedTime: x.Time}}
		b.Id, b.Parent = BlockID(b.Block), b.Block.PrevBlockId
		for _, ft := range x.Txs {
			t := core.Tx{IsCoinbase: ft.CB, MinBlock: ft.Min, Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
			for _, i := range ft.In {
				t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: Hex(i.Tx), Ind: i.Ind, Value: i.Val}, PublicKey: i.Pub, Signature: i.Sig})
			}
			for _, o := range ft.Out {
				t.Outputs = append(t.Outputs, core.TxOut{Value: o.Val, PublicKeyHash: Hex(o.To)})
			}
			b.Txs = append(b.Txs, t)
		}
		for _, m := range x.Merkles {
			b.Merkles = append(b.Merkles, core.MerkleNode{LChild: Hex(m[0]), RChild: Hex(m[1])})
		}
		w.Register(b)
	}
	return w, nil
}

func keyOfPriv(p *ecdsa.PrivateKey) *Key {
	pub, err := x509.MarshalPKIXPublicKey(p.Public())
	if err != nil {
		panic(err)
	}
	return &Key{Priv: p, Pub: pub, Pkh: HBytes(pub)}
}
