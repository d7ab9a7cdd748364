//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"

	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/disksyncmap"
	"github.com/levilutz/basiccoin/pkg/prot"
)

func rh(r *rand.Rand) H {
	var x [32]byte
	switch r.Intn(8) {
	case 0:
		// a boundary pattern
		b := []byte{0x00, 0x01, 0x7f, 0x80, 0xff}[r.Intn(5)]
		for i := range x {
			x[i] = b
		}
		if r.Intn(2) == 0 {
			x[r.Intn(32)] ^= byte(1 << r.Intn(8))
		}
	case 1:
		k := r.Intn(32)
		r.Read(x[k:])
	default:
		r.Read(x[:])
	}
	return core.NewHashTFromBytes(x[:])
}

func ru(r *rand.Rand) uint64 {
	switch r.Intn(7) {
	case 0:
		return 0
	case 1:
		return uint64(r.Intn(4))
	case 2:
		return ^uint64(0) - uint64(r.Intn(3))
	case 3:
		return 1 << uint(r.Intn(64))
	case 4:
		return 1<<uint(r.Intn(64)) - 1
	default:
		return r.Uint64()
	}
}

func rb(r *rand.Rand, most int) []byte {
	n := 0
	switch r.Intn(5) {
	case 0:
	case 1:
		n = r.Intn(4)
	default:
		n = r.Intn(most)
	}
	b := make([]byte, n)
	r.Read(b)
	if n > 0 && r.Intn(4) == 0 {
		b[r.Intn(n)] = '\n'
	}
	return b
}

func rtx(r *rand.Rand) core.Tx {
	t := core.Tx{IsCoinbase: r.Intn(3) == 0, MinBlock: ru(r), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	for i := r.Intn(4); i > 0; i-- {
		t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: rh(r), Ind: ru(r), Value: ru(r)}, PublicKey: rb(r, 100), Signature: rb(r, 80)})
	}
	for i := r.Intn(4); i > 0; i-- {
		t.Outputs = append(t.Outputs, core.TxOut{Value: ru(r), PublicKeyHash: rh(r)})
	}
	return t
}

func rblock(r *rand.Rand) core.Block {
	return core.Block{PrevBlockId: rh(r), MerkleRoot: rh(r), Target: rh(r), Noise: rh(r), Nonce: ru(r), MinedTime: ru(r)}
}

func cpTx(t core.Tx) core.Tx {
	o := t
	o.Inputs = make([]core.TxIn, len(t.Inputs))
	for i, x := range t.Inputs {
		x.PublicKey = append([]byte{}, x.PublicKey...)
		x.Signature = append([]byte{}, x.Signature...)
		o.Inputs[i] = x
	}
	o.Outputs = append([]core.TxOut{}, t.Outputs...)
	return o
}

// txVariants lists transactions that differ from t in exactly one respect.
func txVariants(r *rand.Rand, t core.Tx) map[string]core.Tx {
	out := map[string]core.Tx{}
	v := func(name string, f func(x *core.Tx)) {
		x := cpTx(t)
		f(&x)
		if !vmodel.SameTx(x, t) {
			out[name] = x
		}
	}
	v("isCoinbase", func(x *core.Tx) { x.IsCoinbase = !x.IsCoinbase })
	v("minBlock", func(x *core.Tx) { x.MinBlock ^= 1 << uint(r.Intn(64)) })
	v("minBlock-bytes", func(x *core.Tx) { x.MinBlock = x.MinBlock<<8 | x.MinBlock>>56 })
	if n := len(t.Inputs); n > 0 {
		i := r.Intn(n)
		v("in-txid", func(x *core.Tx) { x.Inputs[i].Utxo.TxId = flip(r, x.Inputs[i].Utxo.TxId) })
		v("in-ind", func(x *core.Tx) { x.Inputs[i].Utxo.Ind ^= 1 << uint(r.Intn(64)) })
		v("in-value", func(x *core.Tx) { x.Inputs[i].Utxo.Value ^= 1 << uint(r.Intn(64)) })
		v("in-ind-value-swap", func(x *core.Tx) {
			u := &x.Inputs[i].Utxo
			u.Ind, u.Value = u.Value, u.Ind
		})
		v("in-key", func(x *core.Tx) { x.Inputs[i].PublicKey = append(x.Inputs[i].PublicKey, 0) })
		v("in-sig", func(x *core.Tx) { x.Inputs[i].Signature = append(x.Inputs[i].Signature, 0) })
		v("in-key-sig-swap", func(x *core.Tx) {
			x.Inputs[i].PublicKey, x.Inputs[i].Signature = x.Inputs[i].Signature, x.Inputs[i].PublicKey
		})
		v("in-key-sig-boundary", func(x *core.Tx) {
			if k := x.Inputs[i].PublicKey; len(k) > 0 {
				x.Inputs[i].Signature = append([]byte{k[len(k)-1]}, x.Inputs[i].Signature...)
				x.Inputs[i].PublicKey = k[:len(k)-1]
			}
		})
		if len(t.Inputs[i].Signature) > 0 {
			v("in-sig-bit", func(x *core.Tx) {
				s := x.Inputs[i].Signature
				s[r.Intn(len(s))] ^= 1 << uint(r.Intn(8))
			})
		}
		if len(t.Inputs[i].PublicKey) > 0 {
			v("in-key-bit", func(x *core.Tx) {
				s := x.Inputs[i].PublicKey
				s[r.Intn(len(s))] ^= 1 << uint(r.Intn(8))
			})
		}
		v("in-drop", func(x *core.Tx) { x.Inputs = append(x.Inputs[:i], x.Inputs[i+1:]...) })
		v("in-dup", func(x *core.Tx) { x.Inputs = append(x.Inputs, x.Inputs[i]) })
		v("in-rotate", func(x *core.Tx) { x.Inputs = append(x.Inputs[1:], x.Inputs[0]) })
	}
	if n := len(t.Outputs); n > 0 {
		i := r.Intn(n)
		v("out-value", func(x *core.Tx) { x.Outputs[i].Value ^= 1 << uint(r.Intn(64)) })
		v("out-pkh", func(x *core.Tx) { x.Outputs[i].PublicKeyHash = flip(r, x.Outputs[i].PublicKeyHash) })
		v("out-drop", func(x *core.Tx) { x.Outputs = append(x.Outputs[:i], x.Outputs[i+1:]...) })
		v("out-dup", func(x *core.Tx) { x.Outputs = append(x.Outputs, x.Outputs[i]) })
		v("out-rotate", func(x *core.Tx) { x.Outputs = append(x.Outputs[1:], x.Outputs[0]) })
	}
	v("out-add", func(x *core.Tx) { x.Outputs = append(x.Outputs, core.TxOut{}) })
	v("in-add", func(x *core.Tx) {
		x.Inputs = append(x.Inputs, core.TxIn{PublicKey: []byte{}, Signature: []byte{}})
	})
	return out
}

func flip(r *rand.Rand, h H) H {
	x := h.Data()
	x[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	return core.NewHashTFromBytes(x[:])
}

func blockVariants(r *rand.Rand, b core.Block) map[string]core.Block {
	out := map[string]core.Block{}
	v := func(name string, f func(x *core.Block)) {
		x := b
		f(&x)
		if x != b {
			out[name] = x
		}
	}
	v("prev", func(x *core.Block) { x.PrevBlockId = flip(r, x.PrevBlockId) })
	v("root", func(x *core.Block) { x.MerkleRoot = flip(r, x.MerkleRoot) })
	v("target", func(x *core.Block) { x.Target = flip(r, x.Target) })
	v("noise", func(x *core.Block) { x.Noise = flip(r, x.Noise) })
	v("nonce", func(x *core.Block) { x.Nonce ^= 1 << uint(r.Intn(64)) })
	v("time", func(x *core.Block) { x.MinedTime ^= 1 << uint(r.Intn(64)) })
	v("prev-root-swap", func(x *core.Block) { x.PrevBlockId, x.MerkleRoot = x.MerkleRoot, x.PrevBlockId })
	v("target-noise-swap", func(x *core.Block) { x.Target, x.Noise = x.Noise, x.Target })
	v("nonce-time-swap", func(x *core.Block) { x.Nonce, x.MinedTime = x.MinedTime, x.Nonce })
	return out
}

// tcpPair makes a connected pair of protocol connections over loopback.
func tcpPair() (*prot.Conn, *prot.Conn, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	defer l.Close()
	type res struct {
		c *prot.Conn
		e error
	}
	ch := make(chan res, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			ch <- res{nil, err}
			return
		}
		pc := prot.NewConn(prot.NewParams("b", false, false), c.(*net.TCPConn))
		ch <- res{pc, pc.Err()}
	}()
	a, err := prot.ResolveConn(prot.NewParams("a", true, false), l.Addr().String())
	if err != nil {
		return nil, nil, err
	}
	if e := a.Err(); e != nil {
		return nil, nil, e
	}
	b := <-ch
	return a, b.c, b.e
}

func ids() {
	n := vlib.N(20000, 200000)
	// pinned ids of fixed entities: identical on every release
	pin := []struct{ got, want H }{
		{core.Tx{Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}.Hash(), vmodel.TxID(core.Tx{})},
		{core.Tx{}.Hash(), vmodel.TxID(core.Tx{})},
		{core.Block{}.Hash(), vmodel.BlockID(core.Block{})},
		{core.MerkleNode{}.Hash(), vmodel.MerkleID(core.MerkleNode{})},
	}
	for i, p := range pin {
		if p.got != p.want {
			rep.Violate("pinned-id", fmt.Sprint("pin:", i), fmt.Sprintf("pinned id %d is %s, want %s", i, p.got, p.want), nil)
		}
		rep.Eval(fmt.Sprint("pin", i))
	}
	rep.Parallel("ids", 8, 8, func(w int, id string) {
		r := vlib.Rng(id)
		a, b, err := tcpPair()
		if err != nil {
			rep.Errorf("tcp pair: %v", err)
			return
		}
		defer a.Close()
		defer b.Close()
		dir := filepath.Join(vlib.Work, strings.ReplaceAll(id, ":", "_"))
		os.MkdirAll(dir+"/t", 0755)
		os.MkdirAll(dir+"/b", 0755)
		os.MkdirAll(dir+"/m", 0755)
		defer os.RemoveAll(dir)
		dt := disksyncmap.NewDiskSyncMap[H, inv.TxRecord](dir+"/t", inv.TxRecordFromString)
		db := disksyncmap.NewDiskSyncMap[H, inv.BlockRecord](dir+"/b", inv.BlockRecordFromString)
		dm := disksyncmap.NewDiskSyncMap[H, inv.MerkleRecord](dir+"/m", inv.MerkleRecordFromString)
		st := map[H]core.Tx{}
		sb := map[H]core.Block{}
		sm := map[H]core.MerkleNode{}
		for k := 0; k < n/8; k++ {
			cid := id
			t := rtx(r)
			tid := t.Hash()
			if tid != vmodel.TxID(t) {
				rep.Violate("tx-id", cid, fmt.Sprintf("transaction id %s, the fixed rule gives %s", tid, vmodel.TxID(t)), t)
			}
			if cpTx(t).Hash() != tid {
				rep.Violate("tx-id-unstable", cid, "equal transactions with different ids", t)
			}
			nt := t
			if len(nt.Inputs) == 0 {
				nt.Inputs = nil
			}
			if len(nt.Outputs) == 0 {
				nt.Outputs = nil
			}
			if nt.Hash() != tid {
				rep.Violate("tx-id-nil", cid, "empty and absent lists give different ids", t)
			}
			for name, v := range txVariants(r, t) {
				rep.Eval("tx/" + name)
				if v.Hash() == tid {
					rep.Violate("tx-same-id:"+name, cid, "transactions differing in "+name+" have the same id "+tid.String(), []core.Tx{t, v})
				}
				if v.Hash() != vmodel.TxID(v) {
					rep.Violate("tx-id", cid, "transaction id differs from the fixed rule", v)
				}
			}
			bl := rblock(r)
			bid := bl.Hash()
			if bid != vmodel.BlockID(bl) {
				rep.Violate("block-id", cid, fmt.Sprintf("block id %s, the fixed rule gives %s", bid, vmodel.BlockID(bl)), bl)
			}
			for name, v := range blockVariants(r, bl) {
				rep.Eval("block/" + name)
				if v.Hash() == bid {
					key := "block-same-id:" + name
					if name == "time" {
						key = "K1-mined-time"
					}
					rep.Violate(key, cid, "blocks differing in "+name+" have the same id "+bid.String(), []core.Block{bl, v})
				}
			}
			m := core.MerkleNode{LChild: rh(r), RChild: rh(r)}
			mid := m.Hash()
			if mid != vmodel.MerkleID(m) {
				rep.Violate("merkle-id", cid, fmt.Sprintf("merkle id %s, the fixed rule gives %s", mid, vmodel.MerkleID(m)), m)
			}
			for name, v := range map[string]core.MerkleNode{"l": {LChild: flip(r, m.LChild), RChild: m.RChild}, "r": {LChild: m.LChild, RChild: flip(r, m.RChild)}, "swap": {LChild: m.RChild, RChild: m.LChild}} {
				if v != m {
					rep.Eval("merkle/" + name)
					if v.Hash() == mid {
						rep.Violate("merkle-same-id:"+name, cid, "merkle nodes differing in "+name+" have the same id", []core.MerkleNode{m, v})
					}
				}
			}
			// JSON
			var jt core.Tx
			raw, err := json.Marshal(t)
			if err == nil {
				err = json.Unmarshal(raw, &jt)
			}
			if err != nil || jt.Hash() != tid || !vmodel.SameTx(jt, t) {
				rep.Violate("tx-json", cid, fmt.Sprintf("transaction changed by JSON: %v", err), t)
			}
			var jb core.Block
			raw, err = json.Marshal(bl)
			if err == nil {
				err = json.Unmarshal(raw, &jb)
			}
			if err != nil || jb != bl {
				rep.Violate("block-json", cid, fmt.Sprintf("block changed by JSON: %v", err), bl)
			}
			var jm core.MerkleNode
			raw, err = json.Marshal(m)
			if err == nil {
				err = json.Unmarshal(raw, &jm)
			}
			if err != nil || jm != m {
				rep.Violate("merkle-json", cid, fmt.Sprintf("merkle node changed by JSON: %v", err), m)
			}
			rep.Eval("json")
			// wire, one entity of each kind
			if k%3 == 0 {
				a.WriteTx(t)
				a.WriteBlock(bl)
				a.WriteMerkle(m)
				wt := b.ReadTx(tid)
				wb := b.ReadBlock(bid)
				wm := b.ReadMerkle(mid)
				if ea, eb := a.Err(), b.Err(); ea != nil || eb != nil {
					rep.Violate("wire-error", cid, fmt.Sprintf("entities did not pass the wire: %v %v", ea, eb), map[string]any{"tx": t, "block": bl})
					return
				}
				if !vmodel.SameTx(wt, t) || wt.Hash() != tid || wb != bl || wm != m {
					rep.Violate("wire-differs", cid, "an entity changed on the wire", map[string]any{"tx": []core.Tx{t, wt}, "block": []core.Block{bl, wb}})
				}
				rep.Eval("wire")
			}
			// disk: values a node can store (a signed input is never empty)
			if k%16 == 0 {
				if len(t.Outputs) == 0 {
					t.Outputs = []core.TxOut{{Value: ru(r), PublicKeyHash: rh(r)}}
					tid = t.Hash()
				}
				dt.Store(tid, inv.TxRecord{Tx: t, VSize: t.VSize()})
				db.Store(bid, inv.BlockRecord{Block: bl, Height: ru(r), TotalWork: rh(r)})
				dm.Store(mid, inv.MerkleRecord{Merkle: m, VSize: ru(r)})
				st[tid], sb[bid], sm[mid] = t, bl, m
			}
		}
		dt = disksyncmap.NewDiskSyncMap[H, inv.TxRecord](dir+"/t", inv.TxRecordFromString)
		db = disksyncmap.NewDiskSyncMap[H, inv.BlockRecord](dir+"/b", inv.BlockRecordFromString)
		dm = disksyncmap.NewDiskSyncMap[H, inv.MerkleRecord](dir+"/m", inv.MerkleRecordFromString)
		for i, t := range st {
			rep.Eval("disk-tx")
			if !dt.Has(i) || !vmodel.SameTx(dt.Get(i).Tx, t) || dt.Get(i).Tx.Hash() != i {
				rep.Violate("disk-tx", id, "transaction changed on disk", t)
			}
		}
		for i, b := range sb {
			rep.Eval("disk-block")
			if !db.Has(i) || db.Get(i).Block != b {
				rep.Violate("disk-block", id, "block changed on disk", b)
			}
		}
		for i, m := range sm {
			rep.Eval("disk-merkle")
			if !dm.Has(i) || dm.Get(i).Merkle != m {
				rep.Violate("disk-merkle", id, "merkle node changed on disk", m)
			}
		}
		if w == 0 {
			t := rtx(r)
			rep.Sample(map[string]any{"tx": t, "id": t.Hash(), "variants": vlib.SortedKeys(txVariants(r, t))})
		}
	})
}
