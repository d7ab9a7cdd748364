//go:build go1.22

// ck_gen mines the chains of the real networks kept in /verif/data. It is no check; it was run once:
//
//	ck_gen dev /verif/data/devnet.json ; ck_gen prod /verif/data/prodnet.json
package main

import (
	"crypto/elliptic"
	"crypto/sha256"
	"encoding"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
)

func hunt(b core.Block) core.Block {
	pre := make([]byte, 32*5)
	for _, h := range []core.HashT{b.PrevBlockId, b.MerkleRoot, b.Target, b.Noise} {
		d := h.Data()
		pre = append(pre, d[:]...)
	}
	t := b.Target.Data()
	n := runtime.NumCPU()
	var found atomic.Uint64
	var ok atomic.Bool
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			h := sha256.New()
			h.Write(pre)
			st, _ := h.(encoding.BinaryMarshaler).MarshalBinary()
			un := h.(encoding.BinaryUnmarshaler)
			var nb [8]byte
			out := make([]byte, 0, 32)
			for x := uint64(k); ; x += uint64(n) {
				if x&0xfff < uint64(n) && ok.Load() {
					return
				}
				binary.BigEndian.PutUint64(nb[:], x)
				a := sha256.Sum256(nb[:])
				a = sha256.Sum256(a[:])
				un.UnmarshalBinary(st)
				h.Write(a[:])
				out = h.Sum(out[:0])
				z := sha256.Sum256(out)
				if z[0] == 0 && z[1] == 0 && z[2] == 0 && string(z[:]) < string(t[:]) {
					if ok.CompareAndSwap(false, true) {
						found.Store(x)
					}
					return
				}
			}
		}(k)
	}
	wg.Wait()
	b.Nonce = found.Load()
	if !vmodel.BlockID(b).Lt(b.Target) {
		panic("not mined")
	}
	return b
}

func main() {
	p, main, at, fork, spacing := core.DevNetParams(), 26, 20, 9, uint64(12)
	if os.Args[1] == "prod" {
		p, main, at, fork, spacing = core.ProdNetParams(), 7, 5, 4, 720
	}
	r := rand.New(rand.NewSource(time.Now().UnixNano()))
	w := vmodel.NewWorld(p, r, 1700000000)
	w.Keys = nil
	for i := 0; i < 5; i++ {
		w.Keys = append(w.Keys, vmodel.NewKey(elliptic.P256()))
	}
	vmodel.MineHook = hunt
	clock := uint64(1700000000 - 100000)
	next := func(parent core.HashT) core.HashT {
		// the target is what honest blocks at this pace have: the easiest
		clock += spacing + uint64(r.Intn(int(spacing)))
		w.Clock = clock
		t0 := time.Now()
		b := w.NextBlock(parent, nil, 6)
		w.Register(b)
		if e := w.Led[b.Id].Err; e != "" {
			panic(e)
		}
		fmt.Println(w.All.Blocks[b.Id].Height, b.Id, len(b.Txs), time.Since(t0))
		return b.Id
	}
	head := core.HashT{}
	var mid core.HashT
	for i := 1; i <= main; i++ {
		head = next(head)
		if i == at {
			mid = head
		}
	}
	for i := 0; i < fork; i++ {
		mid = next(mid)
	}
	if err := w.SaveFixture(os.Args[2]); err != nil {
		panic(err)
	}
}
