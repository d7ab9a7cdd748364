//go:build go1.22

package vwire

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
)

// Event is one thing a scripted peer saw the node do.
type Event struct {
	Kind  string // announce-addr, addrs-request, peer-addrs, new-tx, tx, sync, closed, ended, ack, odd
	Id    H
	Addr  string
	Addrs map[string]string
	Want  bool
	Tx    *core.Tx
	Note  string
	Seq   int
}

// Peer is a reference peer: it follows the protocol to the letter and records everything it sees.
type Peer struct {
	C         *Conn
	Initiator bool // we dialled
	Id        string
	P         core.Params

	mu     sync.Mutex
	log    []Event
	inv    *vmodel.Inv
	head   H
	done   bool
	closed bool // the node asked us to go

	// Hooks (set before Run).
	OnSync  func(p *Peer) bool  // replaces the sync exchange; false ends the session
	Wants   func(id H) bool     // overrides whether an announced tx is fetched
	TxBytes func(id H) []byte   // overrides what is sent for an announced tx
	Serve   func(id H) [][]byte // overrides what is sent for a requested entity
	OnMsg   func(msg string)    // sees every message
	Delay   func()              // called before each answer
	jobs    chan func()
	stop    chan struct{}
	stopped chan struct{}
}

func NewPeer(c *Conn, initiator bool, id string, p core.Params) *Peer {
	return &Peer{C: c, Initiator: initiator, Id: id, P: p, inv: vmodel.NewInv(p), jobs: make(chan func(), 1024),
		stop: make(chan struct{}), stopped: make(chan struct{})}
}

// DialPeer connects and shakes hands. verdict is the node's answer ("continue" or "cancel"), "" on error.
func DialPeer(addr, from, id string, p core.Params, limit time.Duration) (*Peer, string, error) {
	d := net.Dialer{Timeout: limit}
	if from != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(from)}
	}
	nc, err := d.Dial("tcp", addr)
	if err != nil {
		return nil, "", err
	}
	c := Wrap(nc, limit)
	v := c.Handshake(id)
	if c.Err != nil {
		nc.Close()
		return nil, v, c.Err
	}
	return NewPeer(c, true, id, p), v, nil
}

func (p *Peer) note(e Event) {
	p.mu.Lock()
	defer p.mu.Unlock()
	e.Seq = len(p.log)
	p.log = append(p.log, e)
}

// Log returns a copy of what was seen so far.
func (p *Peer) Log() []Event {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Event{}, p.log...)
}

// Count of events of one kind (for an id unless zero).
func (p *Peer) Count(kind string, id H) int {
	n := 0
	for _, e := range p.Log() {
		if e.Kind == kind && (id.EqZero() || e.Id == id) {
			n++
		}
	}
	return n
}

func (p *Peer) Done() bool   { p.mu.Lock(); defer p.mu.Unlock(); return p.done }
func (p *Peer) Closed() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.closed }
func (p *Peer) Head() H      { p.mu.Lock(); defer p.mu.Unlock(); return p.head }

// Give adds a bundle to what the peer holds.
func (p *Peer) Give(bs ...*vmodel.Bundle) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, b := range bs {
		for _, t := range b.Txs {
			p.inv.AddTx(t)
		}
		for _, m := range b.Merkles {
			p.inv.AddMerkle(m)
		}
		if _, ok := p.inv.Blocks[b.Id]; !ok {
			p.inv.AddBlock(b.Block)
		}
	}
}
func (p *Peer) GiveTx(t core.Tx) { p.mu.Lock(); defer p.mu.Unlock(); p.inv.AddTx(t) }
func (p *Peer) SetHead(h H)      { p.mu.Lock(); defer p.mu.Unlock(); p.head = h }
func (p *Peer) HasTx(id H) bool  { p.mu.Lock(); defer p.mu.Unlock(); _, ok := p.inv.Txs[id]; return ok }
func (p *Peer) HasBlock(id H) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	_, ok := p.inv.Blocks[id]
	return ok
}

// Known is everything the peer holds; only after the session has ended.
func (p *Peer) Known() *vmodel.Inv { return p.inv }
func (p *Peer) work(id H) *big.Int { p.mu.Lock(); defer p.mu.Unlock(); return p.inv.Blocks[id].Work }

// Run plays the peer until the session ends. It is started by Start.
func (p *Peer) Start() *Peer { go p.run(); return p }

func (p *Peer) run() {
	defer close(p.stopped)
	defer func() {
		p.C.Close()
		note := ""
		if p.C.Err != nil {
			note = p.C.Err.Error()
		}
		p.note(Event{Kind: "ended", Note: note})
		p.mu.Lock()
		p.done = true
		p.mu.Unlock()
	}()
	for p.C.Err == nil {
		select {
		case <-p.stop:
			return
		case j := <-p.jobs:
			j()
			continue
		default:
		}
		if p.Closed() {
			// asked to go: the connection must end
			if _, err := p.C.br.ReadByte(); err != nil {
				if p.C.Err == nil && !errors.Is(err, io.EOF) {
					p.C.Err = err
				}
				return
			}
			continue
		}
		if p.C.Ready(8 * time.Millisecond) {
			p.handle(p.C.RStr())
		}
	}
}

// Do queues a job on the peer's own goroutine.
func (p *Peer) Do(f func()) { p.jobs <- f }

// DoWait runs a job and waits for it; false if the session ended first.
func (p *Peer) DoWait(f func(), limit time.Duration) bool {
	ch := make(chan struct{})
	p.jobs <- func() { f(); close(ch) }
	select {
	case <-ch:
		return true
	case <-p.stopped:
		return false
	case <-time.After(limit):
		return false
	}
}

// Stop ends the session from our side (plain close of the socket).
func (p *Peer) Stop() {
	select {
	case <-p.stop:
	default:
		close(p.stop)
	}
	p.C.C.Close()
	<-p.stopped
}

func (p *Peer) fail(f string, a ...any) {
	if p.C.Err == nil {
		p.C.Err = fmt.Errorf(f, a...)
		p.note(Event{Kind: "odd", Note: p.C.Err.Error()})
	}
}

func (p *Peer) handle(msg string) {
	if p.C.Err != nil {
		return
	}
	if p.OnMsg != nil {
		p.OnMsg(msg)
	}
	if p.Delay != nil {
		p.Delay()
	}
	if msg == "cmd:close" {
		p.mu.Lock()
		p.closed = true
		p.mu.Unlock()
		p.note(Event{Kind: "closed"})
		return
	}
	if !strings.HasPrefix(msg, "cmd:") {
		p.fail("message out of place: %q", trunc(msg))
		return
	}
	cmd := msg[4:]
	if cmd == "peer-addrs" {
		// a refusal carries this without waiting for an acknowledgement, so a failed write is no matter
		e := p.C.Err
		p.C.W(Str("ack:" + cmd))
		p.C.Err = e
		p.rAddrs()
		return
	}
	p.C.W(Str("ack:" + cmd))
	switch cmd {
	case "ping":
	case "announce-addr":
		a := p.C.RStr()
		if p.C.Err == nil {
			p.note(Event{Kind: "announce-addr", Addr: a})
		}
	case "addrs-request":
		p.note(Event{Kind: "addrs-request"})
	case "new-tx":
		p.rNewTx()
	case "sync-chain":
		p.sync()
	default:
		p.fail("unknown command %q", trunc(cmd))
	}
}

func trunc(s string) string {
	if len(s) > 80 {
		return s[:80]
	}
	return s
}

func (p *Peer) rAddrs() {
	n := p.C.RU64()
	m := map[string]string{}
	if n > 1000 {
		p.fail("%d addresses", n)
		return
	}
	for i := uint64(0); i < n; i++ {
		k := p.C.RStr()
		m[k] = p.C.RStr()
	}
	if p.C.Err == nil {
		p.note(Event{Kind: "peer-addrs", Addrs: m})
	}
}

func (p *Peer) rNewTx() {
	id := p.C.RHash()
	if p.C.Err != nil {
		return
	}
	want := !p.HasTx(id)
	if p.Wants != nil {
		want = p.Wants(id)
	}
	p.note(Event{Kind: "new-tx", Id: id, Want: want})
	p.C.W(Bool(want))
	if !want {
		return
	}
	t := p.C.RTx()
	if p.C.Err != nil {
		return
	}
	p.note(Event{Kind: "tx", Id: id, Tx: &t})
	if vmodel.TxID(t) == id {
		p.GiveTx(t)
	}
}

// Issue sends a command and runs h once the node acknowledges it, resolving simultaneous commands by the protocol's rule.
func (p *Peer) Issue(cmd string, h func()) {
	c := p.C
	c.W(Str("cmd:" + cmd))
	for c.Err == nil {
		m := c.RStr()
		if c.Err != nil {
			return
		}
		if p.OnMsg != nil {
			p.OnMsg(m)
		}
		switch {
		case m == "ack:"+cmd:
			p.note(Event{Kind: "ack", Note: cmd})
			h()
			return
		case m == "cmd:close":
			p.handle(m)
			return
		case strings.HasPrefix(m, "cmd:"):
			p.otherFirst(cmd, m, h)
			return
		default:
			p.fail("instead of ack:%s got %q", cmd, trunc(m))
			return
		}
	}
}

func (p *Peer) otherFirst(cmd, m string, h func()) {
	c := p.C
	if p.Initiator {
		p.handle(m)
		if p.Closed() {
			return
		}
		if s := c.RStr(); c.Err == nil && s != "ack:"+cmd {
			if s == "cmd:close" {
				p.handle(s)
				return
			}
			p.fail("instead of ack:%s got %q", cmd, trunc(s))
			return
		}
		if c.Err == nil {
			p.note(Event{Kind: "ack", Note: cmd + "+"})
			h()
		}
		return
	}
	if s := c.RStr(); c.Err == nil && s != "ack:"+cmd {
		if s == "cmd:close" {
			p.handle(s)
			return
		}
		p.fail("instead of ack:%s got %q", cmd, trunc(s))
		return
	}
	if c.Err == nil {
		p.note(Event{Kind: "ack", Note: cmd + "+"})
		h()
		if c.Err == nil {
			p.handle(m)
		}
	}
}

// Ping reports whether the node acknowledged it.
func (p *Peer) Ping(limit time.Duration) bool {
	ok := false
	p.DoWait(func() { p.Issue("ping", func() { ok = true }) }, limit)
	return ok && !p.Done()
}

func (p *Peer) Announce(addr string) {
	p.Do(func() { p.Issue("announce-addr", func() { p.C.W(Str(addr)) }) })
}
func (p *Peer) RequestAddrs() { p.Do(func() { p.Issue("addrs-request", func() {}) }) }
func (p *Peer) SendAddrs(m map[string]string) {
	p.Do(func() {
		p.Issue("peer-addrs", func() {
			keys := []string{}
			for k := range m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			out := [][]byte{U64(uint64(len(m)))}
			for _, k := range keys {
				out = append(out, Str(k), Str(m[k]))
			}
			p.C.W(out...)
		})
	})
}

// AnnounceTx offers a transaction the peer holds; the event "offered" records whether the node wanted it.
func (p *Peer) AnnounceTx(id H) {
	p.Do(func() {
		p.Issue("new-tx", func() {
			p.C.W(Hash(id))
			want := p.C.RBool()
			if p.C.Err != nil {
				return
			}
			p.note(Event{Kind: "offered", Id: id, Want: want})
			if !want {
				return
			}
			if p.TxBytes != nil {
				if b := p.TxBytes(id); b != nil {
					p.C.W(b)
					return
				}
			}
			p.mu.Lock()
			t := p.inv.Txs[id]
			p.mu.Unlock()
			p.C.W(Tx(t))
		})
	})
}

// SyncNow starts a chain synchronisation.
func (p *Peer) SyncNow() { p.Do(func() { p.Issue("sync-chain", p.sync) }) }

func (p *Peer) CloseCmd() { p.Do(func() { p.C.W(Str("cmd:close")) }) }

func (p *Peer) sync() {
	if p.OnSync != nil {
		if !p.OnSync(p) && p.C.Err == nil {
			p.C.Err = errors.New("script ended")
		}
		return
	}
	c := p.C
	head := p.Head()
	work := p.work(head)
	c.W(Hash(vmodel.FromBig(work)), Hash(head))
	tw, th := vmodel.Big(c.RHash()), c.RHash()
	if c.Err != nil {
		return
	}
	if tw.Cmp(work) == 0 || (tw.Cmp(work) > 0 && p.HasBlock(th)) {
		c.W(Str("cancel"))
		c.RStr()
		p.note(Event{Kind: "sync", Id: th, Note: "cancel"})
		return
	}
	c.W(Str("continue"))
	if s := c.RStr(); s == "cancel" {
		p.note(Event{Kind: "sync", Id: th, Note: "their-cancel"})
		return
	} else if s != "continue" {
		p.fail("sync answer %q", trunc(s))
		return
	}
	if tw.Cmp(work) < 0 {
		c.W(Str("sync:send"))
		if s := c.RStr(); c.Err == nil && s != "sync:recv" {
			p.fail("sync role %q", trunc(s))
			return
		}
		p.outbound(head)
	} else {
		c.W(Str("sync:recv"))
		if s := c.RStr(); c.Err == nil && s != "sync:send" {
			p.fail("sync role %q", trunc(s))
			return
		}
		p.inbound()
	}
}

func (p *Peer) outbound(head H) {
	c := p.C
	var need []core.Block
	for id := head; ; {
		c.W(Hash(id))
		if c.RBool() || c.Err != nil {
			break
		}
		p.mu.Lock()
		b := p.inv.Blocks[id]
		p.mu.Unlock()
		if b == nil || id.EqZero() {
			p.fail("the node denies knowing the start of the chain")
			return
		}
		need = append(need, b.Block)
		id = b.Block.PrevBlockId
	}
	if len(need) == 0 {
		p.note(Event{Kind: "sync", Id: head, Note: "not-needed"})
		return
	}
	for _, b := range need {
		c.W(Block(b))
	}
	if !c.RBool() {
		p.note(Event{Kind: "sync", Id: head, Note: "refused"})
		return
	}
	n := 0
	for id := c.RHash(); c.Err == nil && !id.EqZero(); id = c.RHash() {
		n++
		if p.Serve != nil {
			if b := p.Serve(id); b != nil {
				c.W(b...)
				continue
			}
		}
		p.mu.Lock()
		m, okm := p.inv.Merkles[id]
		t, okt := p.inv.Txs[id]
		p.mu.Unlock()
		switch {
		case okm:
			c.W(Bool(false), Merkle(m))
		case okt:
			c.W(Bool(true), Tx(t))
		default:
			p.fail("the node asks for entity %s, which no sent block refers to", id)
		}
	}
	if s := c.RStr(); c.Err == nil && s != "complete" {
		p.fail("end of sync %q", trunc(s))
		return
	}
	p.note(Event{Kind: "sync", Id: head, Note: fmt.Sprintf("sent %d blocks %d entities", len(need), n)})
}

func (p *Peer) inbound() {
	c := p.C
	var ids []H
	newHead := c.RHash()
	for id := newHead; c.Err == nil; id = c.RHash() {
		if p.HasBlock(id) {
			break
		}
		ids = append(ids, id)
		c.W(Bool(false))
	}
	c.W(Bool(true))
	var bs []core.Block
	for _, id := range ids {
		b := c.RBlock()
		if c.Err != nil {
			return
		}
		if vmodel.BlockID(b) != id {
			p.fail("block %s has other content", id)
			return
		}
		bs = append(bs, b)
	}
	if len(ids) == 0 {
		return
	}
	c.W(Bool(true))
	type ent struct {
		m *core.MerkleNode
		t *core.Tx
	}
	got := map[H]ent{}
	has := func(id H) bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.inv.HasEntity(id)
	}
	for i := len(bs) - 1; i >= 0; i-- {
		q := []H{bs[i].MerkleRoot}
		for len(q) > 0 && c.Err == nil {
			id := q[0]
			q = q[1:]
			if _, ok := got[id]; ok || has(id) {
				continue
			}
			c.W(Hash(id))
			if c.RBool() {
				t := c.RTx()
				if c.Err == nil && vmodel.TxID(t) != id {
					p.fail("transaction %s has other content", id)
					return
				}
				got[id] = ent{t: &t}
			} else {
				m := c.RMerkle()
				if c.Err == nil && vmodel.MerkleID(m) != id {
					p.fail("merkle node %s has other content", id)
					return
				}
				got[id] = ent{m: &m}
				q = append(q, m.LChild, m.RChild)
			}
		}
	}
	c.W(Hash(H{}), Str("complete"))
	if c.Err != nil {
		return
	}
	p.mu.Lock()
	var addM func(id H)
	addM = func(id H) {
		e, ok := got[id]
		if !ok {
			return
		}
		if e.t != nil {
			p.inv.AddTx(*e.t)
			return
		}
		addM(e.m.LChild)
		addM(e.m.RChild)
		p.inv.AddMerkle(*e.m)
	}
	for i := len(bs) - 1; i >= 0; i-- {
		addM(bs[i].MerkleRoot)
		p.inv.AddBlock(bs[i])
	}
	p.head = newHead
	p.mu.Unlock()
	p.note(Event{Kind: "sync", Id: newHead, Note: fmt.Sprintf("received %d blocks", len(bs))})
}
