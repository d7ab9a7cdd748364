//go:build go1.22

// ck_net runs whole networks of real nodes and scripted peers over loopback TCP and judges them (C20-C23).
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
)

type H = core.HashT

var rep = vlib.NewReport()

// settleLimit is how long a network with nothing left to wait for may take. Every step of the protocol takes milliseconds.
const settleLimit = 100 * time.Second

func main() {
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VX_LOG") == "" {
		os.Stdout = null
		os.Stderr = null // sessions print the stack of whatever ended them
	}
	rep.StopAfter = 4
	switch vlib.Prop {
	case "C20":
		hostile()
	case "C21":
		converge()
	case "C22":
		spread()
	case "C23":
		peerSet()
	case "C26":
		races()
	default:
		rep.Errorf("unknown property %q", vlib.Prop)
	}
	rep.Finish()
}

// nw is one case: a world, some nodes, and what was done to them.
type nw struct {
	id    string
	r     *rand.Rand
	w     *vmodel.World
	p     core.Params
	nodes []*vnode.NetNode
	tip   map[*vnode.NetNode][]H // heads offered at a node
	log   []string
	dead  bool
}

func newNW(id string) *nw {
	r := vlib.Rng("net", id)
	p := vmodel.RandParams(r)
	p.MaxBlockVSize = []uint64{1800, 3000, 8000, 20000}[r.Intn(4)]
	p.BlockReward = []uint64{1000, 131072, 1 << 40}[r.Intn(3)]
	return &nw{id: id, r: r, p: p, w: vmodel.NewWorld(p, r, uint64(time.Now().Unix())), tip: map[*vnode.NetNode][]H{}}
}

func (c *nw) note(f string, a ...any) { c.log = append(c.log, fmt.Sprintf(f, a...)) }
func (c *nw) fail(key, msg string, detail any) {
	c.dead = true
	rep.Violate(key, c.id, msg, map[string]any{"log": c.log, "detail": detail})
}

func short(h H) string { return h.String()[:8] }

// grow makes n blocks on a parent and returns the new tip.
func (c *nw) grow(parent H, n, maxTxs int) H {
	for i := 0; i < n; i++ {
		b := c.w.NextBlock(parent, nil, maxTxs)
		c.w.Register(b)
		parent = b.Id
	}
	return parent
}

// bundles from just above base to tip, oldest first.
func (c *nw) bundles(base, tip H) []*vmodel.Bundle {
	var out []*vmodel.Bundle
	for tip != base && !tip.EqZero() {
		b := c.w.BunBy[tip]
		out = append([]*vmodel.Bundle{b}, out...)
		tip = b.Parent
	}
	return out
}

func (c *nw) add(np vnode.NetParams) *vnode.NetNode {
	n := vnode.NewNet(c.p, np)
	c.nodes = append(c.nodes, n)
	return n
}

// load gives a node the chain up to tip directly (as if restored), and waits until it took it.
func (c *nw) load(n *vnode.NetNode, tip H) bool {
	if tip.EqZero() {
		return true
	}
	_, err := n.Offer(vnode.Event(tip, c.bundles(H{}, tip)...))
	c.tip[n] = append(c.tip[n], tip)
	if err != nil {
		c.stuck(err)
		return false
	}
	if n.Head != tip && c.work(n.Head).Cmp(c.work(tip)) < 0 {
		c.fail("load", "a node did not take a better legal chain handed to it whole", nil)
		return false
	}
	return true
}

func (c *nw) stuck(err error) {
	for i, n := range c.nodes {
		if why, ok := n.Crashed(); ok {
			c.fail("crash", fmt.Sprintf("node %d died: %s", i, why), nil)
			return
		}
	}
	c.dead = true
	rep.Inconclusive("%s: %v", c.id, err)
}

func (c *nw) work(h H) *big.Int { return c.w.All.Blocks[h].Work }

// best is the greatest work any node holds.
func (c *nw) best() *big.Int {
	m := new(big.Int)
	for _, hs := range c.tip {
		for _, h := range hs {
			if c.work(h).Cmp(m) > 0 {
				m = c.work(h)
			}
		}
	}
	return m
}

func (c *nw) anyCrash() bool {
	for i, n := range c.nodes {
		if why, ok := n.Crashed(); ok {
			c.fail("crash", fmt.Sprintf("node %d died: %s", i, why), nil)
			return true
		}
	}
	return false
}

// settled waits until every given node's head has the best work and says whether they got there.
func (c *nw) settled(what string, want *big.Int, nodes ...*vnode.NetNode) bool {
	at := time.Now()
	ok := vlib.Eventually(settleLimit, func() bool {
		all := true
		for _, n := range nodes {
			n.DrainHeads()
			if _, bad := n.Crashed(); bad {
				return true
			}
			if bi := c.w.All.Blocks[n.Head]; bi == nil || bi.Work.Cmp(want) != 0 {
				all = false
			}
		}
		return all
	})
	if c.anyCrash() {
		return false
	}
	if !ok {
		st := []string{}
		for i, n := range nodes {
			st = append(st, fmt.Sprintf("node %d head %s height %d work %v", i, short(n.Head), c.w.All.Blocks[n.Head].Height, c.work(n.Head)))
		}
		c.fail("not-converged:"+what, fmt.Sprintf("after %v of quiet some node still has not adopted the best valid chain a node it is connected to holds (work %v)", settleLimit, want), st)
		return false
	}
	rep.Count("settle_ms", time.Since(at).Milliseconds())
	return true
}

// ledgers compares what every node reports with the model's ledger of its head.
func (c *nw) ledgers(nodes ...*vnode.NetNode) bool {
	for i, n := range nodes {
		l := c.w.Led[n.Head]
		if l == nil || l.Err != "" {
			c.fail("illegal-head", fmt.Sprintf("node %d follows %s, which is no legal chain", i, short(n.Head)), nil)
			return false
		}
		pk := []H{}
		for _, k := range c.w.Keys {
			pk = append(pk, k.Pkh)
		}
		v, err := n.Observe(pk, nil)
		if err != nil {
			c.stuck(err)
			return false
		}
		own := map[core.Utxo]H{}
		for u, p := range l.Utxos {
			for _, k := range c.w.Keys {
				if k.Pkh == p {
					own[u] = p
				}
			}
		}
		bad := len(own) != len(v.Utxos) || v.Height != c.w.All.Blocks[n.Head].Height
		for u, p := range own {
			if v.Utxos[u] != p {
				bad = true
			}
		}
		if bad {
			c.fail("ledger", fmt.Sprintf("node %d's ledger is not that of its head %s (height %d vs %d, %d outputs vs %d)", i, short(n.Head), v.Height, c.w.All.Blocks[n.Head].Height, len(v.Utxos), len(own)), nil)
			return false
		}
		rep.Count("ledgers_compared", 1)
	}
	return true
}

// offer one block chain tip at a node (the node has the parent's chain or gets what is missing).
func (c *nw) offer(n *vnode.NetNode, tip H) bool {
	base := tip
	for !base.EqZero() && !n.Inv.HasBlock(base) {
		base = c.w.BunBy[base].Parent
	}
	n.Bus.CandidateHead.Pub(vnode.Event(tip, c.bundles(base, tip)...))
	c.tip[n] = append(c.tip[n], tip)
	return true
}
