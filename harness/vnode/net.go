//go:build go1.22

package vnode

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

// NetNode is a chain with a real peer factory on loopback.
type NetNode struct {
	*Node
	Addr    string
	Id      string
	Closing topic.Sub[bus.PeerClosingEvent]
	Recv    topic.Sub[bus.PeersReceivedEvent]
	pf      *peerfactory.PeerFactory
}

var ipCount atomic.Uint32

// FreshIP returns a loopback address nothing else in this process uses.
func FreshIP() string {
	k := ipCount.Add(1)
	return fmt.Sprintf("127.%d.%d.%d", 11+(k>>14)%200, (k>>7)&127+1, k&127+1)
}

// FreshAddr returns a free address to listen on. It is not tried by listening: a program started meanwhile would hold it.
func FreshAddr() string { return fmt.Sprintf("%s:%d", FreshIP(), 30100+rand.Intn(2000)) }

var portMu sync.Mutex
var portUsed = map[int]bool{}

// FreePort returns a port nothing listens on, outside the range outgoing connections take theirs from, and never the same twice.
func FreePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		n := 12000 + rand.Intn(18000)
		if portUsed[n] || n == 21720 { // 21720 is where a node listens when it is not told
			continue
		}
		portUsed[n] = true
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", n), time.Second)
		if err != nil {
			return n
		}
		c.Close()
	}
}

type NetParams struct {
	Listen   bool
	MaxPeers int
	Seek     time.Duration
	Seeds    []string
	Miners   bool
	Addr     string
	Id       string
	Dir      *string // save directory
}

// NewNet builds a node the way the program does (chain, then peer factory, then both loops). Call Join to start its networking.
func NewNet(p core.Params, np NetParams) *NetNode {
	b := bus.NewBus()
	n := &Node{P: p, Bus: b}
	n.HeadSub = b.ValidatedHead.Sub()
	n.TxSub = b.ValidatedTx.Sub()
	n.TgtSub = b.MinerTarget.Sub()
	n.Inv = inv.NewInv(p, np.Dir)
	c := chain.NewChain(b, n.Inv, np.Miners, np.Dir)
	addr := np.Addr
	if addr == "" {
		addr = FreshAddr()
	}
	id := np.Id
	if id == "" {
		id = core.NewHashTRand().String()
	}
	nn := &NetNode{Node: n, Addr: addr, Id: id, Closing: b.PeerClosing.Sub(), Recv: b.PeersReceived.Sub()}
	nn.pf = peerfactory.NewPeerFactory(peerfactory.Params{
		Listen: np.Listen, LocalAddr: addr, MinPeers: 1, MaxPeers: np.MaxPeers, RuntimeId: id, SeekNewPeersFreq: np.Seek,
	}, b, n.Inv)
	nn.pf.SetSeeds(np.Seeds)
	go n.runChain(c.Loop)
	return nn
}

func (n *Node) guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			n.crashMu.Lock()
			n.crash = fmt.Sprintf("%v\n%s", x, st)
			n.crashFn = vlib.RepoFrame(st)
			n.crashMu.Unlock()
			n.crashed.Store(true)
		}
	}()
	f()
}

// Join starts the peer factory.
func (n *NetNode) Join() { go n.guard(n.pf.Loop) }

// Relay forwards one TCP port to another address and can be cut and healed.
type Relay struct {
	Addr  string
	to    string
	l     net.Listener
	mu    sync.Mutex
	cut   bool
	conns map[net.Conn]struct{}
	chop  *rand.Rand
	N     atomic.Int64 // connections made
}

func NewRelay(to string, chop *rand.Rand) *Relay {
	l, err := net.Listen("tcp", FreshIP()+":0")
	if err != nil {
		panic(err)
	}
	r := &Relay{Addr: l.Addr().String(), to: to, l: l, conns: map[net.Conn]struct{}{}, chop: chop}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go r.serve(c)
		}
	}()
	return r
}

func (r *Relay) add(c net.Conn) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cut {
		c.Close()
		return false
	}
	r.conns[c] = struct{}{}
	return true
}

func (r *Relay) serve(a net.Conn) {
	if !r.add(a) {
		return
	}
	b, err := net.DialTimeout("tcp", r.to, 10*time.Second)
	if err != nil || !r.add(b) {
		a.Close()
		return
	}
	r.N.Add(1)
	go r.pump(a, b)
	go r.pump(b, a)
}

func (r *Relay) pump(dst, src net.Conn) {
	defer func() {
		dst.Close()
		src.Close()
		r.mu.Lock()
		delete(r.conns, dst)
		delete(r.conns, src)
		r.mu.Unlock()
	}()
	if r.chop == nil {
		io.Copy(dst, src)
		return
	}
	buf := make([]byte, 4096)
	for {
		n, err := src.Read(buf)
		for b := buf[:n]; len(b) > 0; {
			r.mu.Lock()
			k, d := 1+r.chop.Intn(len(b)), r.chop.Intn(20)
			r.mu.Unlock()
			if _, e := dst.Write(b[:k]); e != nil {
				return
			}
			b = b[k:]
			if d == 0 {
				time.Sleep(time.Millisecond)
			}
		}
		if err != nil {
			return
		}
	}
}

// Cut ends all connections and refuses new ones until Heal.
func (r *Relay) Cut() {
	r.mu.Lock()
	r.cut = true
	for c := range r.conns {
		c.Close()
	}
	r.mu.Unlock()
}
func (r *Relay) Heal()  { r.mu.Lock(); r.cut = false; r.mu.Unlock() }
func (r *Relay) Close() { r.l.Close(); r.Cut() }
