//go:build go1.22

// ck_prot drives both ends of real protocol connections through re-segmenting, delaying, truncating
// and corrupting links (C19).
package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vwire"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/prot"
)

type H = core.HashT

var rep = vlib.NewReport()

const limit = 120 * time.Second // for what takes milliseconds

func tcpPair() (*net.TCPConn, *net.TCPConn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	ch := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			panic(err)
		}
		ch <- c
	}()
	a, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		panic(err)
	}
	return a.(*net.TCPConn), (<-ch).(*net.TCPConn)
}

// pump copies bytes in random small pieces.
func pump(dst, src *net.TCPConn, r *rand.Rand, mode int, wg *sync.WaitGroup) {
	defer wg.Done()
	defer dst.CloseWrite()
	dst.SetNoDelay(true)
	buf := make([]byte, 64<<10)
	for {
		n, err := src.Read(buf)
		for b := buf[:n]; len(b) > 0; {
			k := len(b)
			switch mode {
			case 0:
				k = 1
			case 1:
				k = 1 + r.Intn(min(7, len(b)))
			case 2:
				k = 1 + r.Intn(len(b))
			}
			if len(b) > 4000 && k < 50 {
				k = 50 + r.Intn(3000) // long strings one byte at a time would take forever
			}
			if _, err := dst.Write(b[:k]); err != nil {
				return
			}
			b = b[k:]
			switch r.Intn(60) {
			case 0:
				time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			}
		}
		if err != nil {
			return
		}
	}
}

// link makes two raw sockets joined by a re-segmenting relay.
func link(r *rand.Rand, mode int) (*net.TCPConn, *net.TCPConn, func()) {
	a, ra := tcpPair()
	rb, b := tcpPair()
	var wg sync.WaitGroup
	wg.Add(2)
	s1, s2 := r.Int63(), r.Int63()
	go pump(rb, ra, rand.New(rand.NewSource(s1)), mode, &wg)
	go pump(ra, rb, rand.New(rand.NewSource(s2)), mode, &wg)
	return a, b, func() {
		for _, c := range []*net.TCPConn{a, b, ra, rb} {
			c.Close()
		}
		wg.Wait()
	}
}

// conns makes two handshaken protocol connections over the given sockets.
func conns(a, b *net.TCPConn, ida, idb string) (*prot.Conn, *prot.Conn) {
	ch := make(chan *prot.Conn, 1)
	go func() { ch <- prot.NewConn(prot.NewParams(idb, false, false), b) }()
	ca := prot.NewConn(prot.NewParams(ida, true, false), a)
	return ca, <-ch
}

func rh(r *rand.Rand) H {
	var b [32]byte
	switch r.Intn(6) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	default:
		r.Read(b[:])
	}
	return core.NewHashTFromBytes(b[:])
}
func ru(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2:
		return uint64(r.Intn(300))
	case 3:
		return 1 << uint(r.Intn(64))
	}
	return r.Uint64()
}
func rbytes(r *rand.Rand, big bool) []byte {
	n := r.Intn(120)
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2:
		if big {
			n = []int{255, 256, 257, 32767, 32768, 65534, 65535}[r.Intn(7)]
		}
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}
func rtx(r *rand.Rand) core.Tx {
	t := core.Tx{IsCoinbase: r.Intn(3) == 0, MinBlock: ru(r), Inputs: []core.TxIn{}, Outputs: []core.TxOut{}}
	ni, no := r.Intn(4), r.Intn(4)
	if r.Intn(12) == 0 {
		ni, no = r.Intn(60), r.Intn(60)
	}
	if r.Intn(40) == 0 { // as many as fit the size limit, and more
		ni, no = r.Intn(90), 0
		if r.Intn(2) == 0 {
			ni, no = r.Intn(3), r.Intn(700)
		}
	}
	for i := 0; i < ni; i++ {
		t.Inputs = append(t.Inputs, core.TxIn{Utxo: core.Utxo{TxId: rh(r), Ind: ru(r), Value: ru(r)}, PublicKey: rbytes(r, ni < 3), Signature: rbytes(r, false)})
	}
	for i := 0; i < no; i++ {
		t.Outputs = append(t.Outputs, core.TxOut{Value: ru(r), PublicKeyHash: rh(r)})
	}
	return t
}
func rblock(r *rand.Rand) core.Block {
	return core.Block{PrevBlockId: rh(r), MerkleRoot: rh(r), Target: rh(r), Noise: rh(r), Nonce: ru(r), MinedTime: ru(r)}
}

// item is one value with its way to be written, read and compared.
type item struct {
	kind  string
	write func(c *prot.Conn)
	read  func(c *prot.Conn) any
	same  func(got any) bool
	enc   []byte // independent encoding
	val   any
}

func ritem(r *rand.Rand, big bool) item {
	switch r.Intn(10) {
	case 0:
		v := rbytes(r, big)
		return item{"bytes", func(c *prot.Conn) { c.Write(v) }, func(c *prot.Conn) any { return c.Read() },
			func(g any) bool { return bytes.Equal(g.([]byte), v) }, vwire.Bytes(v), len(v)}
	case 1:
		v := string(rbytes(r, big))
		return item{"string", func(c *prot.Conn) { c.WriteString(v) }, func(c *prot.Conn) any { return c.ReadString() },
			func(g any) bool { return g.(string) == v }, vwire.Str(v), len(v)}
	case 2:
		v := ru(r)
		return item{"uint64", func(c *prot.Conn) { c.WriteUint64(v) }, func(c *prot.Conn) any { return c.ReadUint64() },
			func(g any) bool { return g.(uint64) == v }, vwire.U64(v), v}
	case 3:
		v := r.Intn(2) == 0
		return item{"bool", func(c *prot.Conn) { c.WriteBool(v) }, func(c *prot.Conn) any { return c.ReadBool() },
			func(g any) bool { return g.(bool) == v }, vwire.Bool(v), v}
	case 4, 5:
		v := rh(r)
		return item{"hash", func(c *prot.Conn) { c.WriteHashT(v) }, func(c *prot.Conn) any { return c.ReadHashT() },
			func(g any) bool { return g.(H) == v }, vwire.Hash(v), v}
	case 6, 7:
		v := rtx(r)
		id := vmodel.TxID(v)
		return item{"tx", func(c *prot.Conn) { c.WriteTx(v) }, func(c *prot.Conn) any { return c.ReadTx(id) },
			func(g any) bool { return vmodel.SameTx(g.(core.Tx), v) }, vwire.Tx(v), v}
	case 8:
		v := core.MerkleNode{LChild: rh(r), RChild: rh(r)}
		id := vmodel.MerkleID(v)
		return item{"merkle", func(c *prot.Conn) { c.WriteMerkle(v) }, func(c *prot.Conn) any { return c.ReadMerkle(id) },
			func(g any) bool { return g.(core.MerkleNode) == v }, vwire.Merkle(v), v}
	}
	v := rblock(r)
	id := vmodel.BlockID(v)
	return item{"block", func(c *prot.Conn) { c.WriteBlock(v) }, func(c *prot.Conn) any { return c.ReadBlock(id) },
		func(g any) bool { return g.(core.Block) == v }, vwire.Block(v), v}
}

// streams: both directions at once over a re-segmenting link, every value compared.
func streams(i int, id string) {
	r := vlib.Rng(id)
	mode := i % 4
	a, b, done := link(r, mode)
	defer done()
	ca, cb := conns(a, b, "a"+id, "b"+id)
	if ca.HasErr() || cb.HasErr() {
		rep.Violate("handshake", id, fmt.Sprintf("handshake over a segmented link failed: %v / %v", ca.Err(), cb.Err()), nil)
		return
	}
	if ca.PeerRuntimeId() != "b"+id || cb.PeerRuntimeId() != "a"+id {
		rep.Violate("handshake-id", id, fmt.Sprintf("identities exchanged wrongly: %q %q", ca.PeerRuntimeId(), cb.PeerRuntimeId()), nil)
	}
	n := 40 + r.Intn(60)
	// a conversation: turns alternate as in the protocol (a Conn is used by one routine), with several values per turn
	var turns [][]item
	for k := 0; k < n; {
		m := 1 + r.Intn(8)
		t := make([]item, m)
		for j := range t {
			t[j] = ritem(r, mode != 0 || j == 0)
		}
		turns = append(turns, t)
		k += m
	}
	var wg sync.WaitGroup
	side := func(c *prot.Conn, me int) {
		defer wg.Done()
		for k, t := range turns {
			if k%2 == me {
				for _, x := range t {
					x.write(c)
				}
				if e := c.Err(); e != nil {
					rep.Violate("write-error", id, fmt.Sprintf("writing turn %d failed: %v", k, e), nil)
					return
				}
			} else {
				for j, x := range t {
					g := x.read(c)
					if e := c.Err(); e != nil {
						rep.Violate("read-error", id, fmt.Sprintf("reading %s (turn %d, item %d) failed: %v", x.kind, k, j, e), x.val)
						return
					}
					if !x.same(g) {
						rep.Violate("altered", id, fmt.Sprintf("a %s arrived altered (turn %d, item %d)", x.kind, k, j), map[string]any{"sent": x.val, "got": fmt.Sprint(g)})
						return
					}
					rep.Count("values_"+x.kind, 1)
					rep.Eval(fmt.Sprintf("stream/%d/%s/%d", mode, x.kind, sizeClass(len(x.enc))))
				}
			}
		}
	}
	wg.Add(2)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				rep.Violate("panic", id, fmt.Sprint("the protocol code panicked: ", x), nil)
				wg.Done()
			}
		}()
		side(cb, 1)
	}()
	side(ca, 0)
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(limit):
		rep.Violate("hangs", id, fmt.Sprint("a conversation did not end within ", limit), nil)
	}
}

func sizeClass(n int) int {
	c := 0
	for n > 0 {
		n >>= 2
		c++
	}
	return c
}

// reader makes a real connection whose other side is a raw socket past the handshake.
func reader(id string) (*prot.Conn, *vwire.Conn) {
	a, b := tcpPair()
	w := vwire.Wrap(b, limit)
	ch := make(chan string, 1)
	go func() { ch <- w.Handshake("raw" + id) }()
	c := prot.NewConn(prot.NewParams("real"+id, true, false), a)
	if s := <-ch; s != "continue" || w.Err != nil || c.HasErr() {
		panic(fmt.Sprintf("harness handshake: %q %v %v", s, w.Err, c.Err()))
	}
	return c, w
}

// corrupt: every kind of altered or truncated encoding is refused or reads back as the announced content.
func corrupt(i int, id string) {
	r := vlib.Rng(id)
	for k := 0; k < 60; k++ {
		var it item
		for {
			it = ritem(r, false)
			if it.kind == "tx" || it.kind == "merkle" || it.kind == "block" {
				break
			}
		}
		enc := append([]byte{}, it.enc...)
		what := ""
		switch r.Intn(6) {
		case 0:
			enc = enc[:r.Intn(len(enc))]
			what = "truncated"
		case 1:
			enc[r.Intn(len(enc))] ^= 1 << uint(r.Intn(8))
			what = "bit"
		case 2:
			p := r.Intn(len(enc))
			enc = append(enc[:p], append([]byte{byte(r.Intn(256))}, enc[p:]...)...)
			what = "inserted"
		case 3:
			p := r.Intn(len(enc))
			enc = append(enc[:p:p], enc[p+1:]...)
			what = "deleted"
		case 4:
			for {
				o := ritem(r, false)
				if o.kind == it.kind {
					enc = o.enc
					break
				}
			}
			what = "other-content"
		case 5:
			r.Read(enc)
			if it.kind == "tx" {
				enc[0] = 0
				for z := 9; z < 25 && z < len(enc); z++ { // keep the counts small
					enc[z] = 0
				}
			}
			what = "noise"
		}
		if it.kind == "tx" && len(enc) >= 25 {
			// counts in the millions are C20's business (they would only make this slow)
			for _, z := range []int{9, 10, 11, 12, 13, 17, 18, 19, 20, 21} {
				enc[z] = 0
			}
		}
		c, w := reader(id)
		w.W(enc)
		w.Close()
		g := it.read(c)
		e := c.Err()
		if e == nil && !it.same(g) {
			if it.kind == "block" && sameButTime(g, it.val) {
				rep.Violate("K1-mined-time", id, "a block whose time was altered in transit is not refused, since its id does not cover the time", nil)
			} else {
				rep.Violate("corrupted-accepted", id, fmt.Sprintf("a %s (%s) with other content than announced was accepted", it.kind, what), map[string]any{"announced": it.val, "got": fmt.Sprint(g)})
			}
		}
		if what == "truncated" && e == nil {
			rep.Violate("truncated-accepted", id, fmt.Sprintf("a truncated %s was read without error", it.kind), it.val)
		}
		c.Close()
		rep.Eval(fmt.Sprintf("corrupt/%s/%s/%v", it.kind, what, e == nil))
	}
	// plain values, truncated
	for k := 0; k < 20; k++ {
		it := ritem(r, false)
		c, w := reader(id)
		cut := r.Intn(len(it.enc))
		w.W(it.enc[:cut])
		w.Close()
		it.read(c)
		if e := c.Err(); e == nil {
			rep.Violate("truncated-accepted", id, fmt.Sprintf("a %s cut to %d of %d bytes was read without error", it.kind, cut, len(it.enc)), it.val)
		}
		c.Close()
		rep.Eval("cut/" + it.kind)
	}
	// flags other than 0 and 1
	c, w := reader(id)
	v := byte(2 + r.Intn(254))
	w.W([]byte{v, 1})
	c.ReadBool()
	first := c.HasErr()
	c.ReadBool() // later operations do not hide it
	if e := c.Err(); !first || e == nil {
		rep.Violate("flag", id, fmt.Sprintf("flag byte %d was accepted or its error forgotten", v), nil)
	}
	rep.Eval("flag")
	w.Close()
	c.Close()
	// expected strings
	c, w = reader(id)
	s := string(rbytes(r, false))
	t := s
	if r.Intn(2) == 0 {
		t = s + "x"
	}
	w.W(vwire.Str(t))
	c.ReadStringExpected(s)
	if e := c.Err(); (e == nil) != (s == t) {
		rep.Violate("expected-string", id, fmt.Sprintf("expecting %q, received %q, error %v", s, t, e), nil)
	}
	rep.Eval("expected")
	w.Close()
	c.Close()
}

func sameButTime(g, v any) bool {
	a, ok := g.(core.Block)
	b, ok2 := v.(core.Block)
	if !ok || !ok2 {
		return false
	}
	a.MinedTime = b.MinedTime
	return a == b
}

// oversize: byte strings too long for the length field are errors at the writer, nothing false at the reader.
func oversize(i int, id string) {
	sizes := []int{65535, 65536, 65537, 65538, 70000, 131071, 131072, 131073, 1 << 20}
	how := []string{"bytes", "string", "tx-key", "tx-sig"}
	for _, n := range sizes {
		for _, h := range how {
			a, b := tcpPair()
			ca, cb := conns(a, b, "x", "y")
			data := bytes.Repeat([]byte{7}, n)
			werr := make(chan error, 1)
			go func() {
				switch h {
				case "bytes":
					ca.Write(data)
				case "string":
					ca.WriteString(string(data))
				case "tx-key":
					ca.WriteTx(core.Tx{Inputs: []core.TxIn{{PublicKey: data}}})
				case "tx-sig":
					ca.WriteTx(core.Tx{Inputs: []core.TxIn{{Signature: data}}})
				}
				ca.WriteUint64(42) // must not be readable as if the long value had been sent
				e := ca.Err()
				a.CloseWrite()
				werr <- e
			}()
			okRead := false
			switch h {
			case "bytes":
				okRead = bytes.Equal(cb.Read(), data)
			case "string":
				okRead = cb.ReadString() == string(data)
			case "tx-key":
				t := core.Tx{Inputs: []core.TxIn{{PublicKey: data}}}
				okRead = vmodel.SameTx(cb.ReadTx(vmodel.TxID(t)), t)
			case "tx-sig":
				t := core.Tx{Inputs: []core.TxIn{{Signature: data}}}
				okRead = vmodel.SameTx(cb.ReadTx(vmodel.TxID(t)), t)
			}
			re := cb.Err()
			var we error
			select {
			case we = <-werr:
			case <-time.After(limit):
				rep.Violate("hangs", id, fmt.Sprintf("writing a %s of %d bytes did not end within %s", h, n, limit), nil)
				return
			}
			if n <= 65535 && (we != nil || re != nil || !okRead) {
				rep.Violate("limit", id, fmt.Sprintf("a %s of %d bytes is not transported: writer %v reader %v equal %v", h, n, we, re, okRead), nil)
			}
			if n > 65535 && we == nil {
				rep.Violate("oversize", id, fmt.Sprintf("writing a %s of %d bytes reports no error (the reader got it intact: %v, error %v)", h, n, okRead, re), nil)
			}
			if n > 65535 && re == nil && !okRead {
				rep.Violate("oversize-read", id, fmt.Sprintf("after a %s of %d bytes the reader got something else without error", h, n), nil)
			}
			rep.Eval(fmt.Sprintf("oversize/%s/%v", h, n > 65535))
			ca.Close()
			cb.Close()
		}
	}
}

// idle: after read timeouts, anywhere before or inside a message's length, reading goes on in step.
func idle(i int, id string) {
	r := vlib.Rng(id)
	c, w := reader(id)
	defer c.Close()
	defer w.Close()
	for k := 0; k < 12; k++ {
		v := rbytes(r, false)
		enc := vwire.Bytes(v)
		cut := r.Intn(2) // nothing, or half of the length field, arrives before the timeout
		w.W(enc[:cut])
		tries := 1 + r.Intn(3)
		for j := 0; j < tries; j++ {
			if cut == 1 {
				time.Sleep(3 * time.Millisecond)
			}
			g := c.ReadTimeout(time.Duration(8+r.Intn(10)) * time.Millisecond)
			e := c.Err()
			if e == nil {
				rep.Violate("idle-value", id, fmt.Sprintf("a value %x was read although only %d byte(s) were sent", g, cut), nil)
				return
			}
			if !os.IsTimeout(e) {
				rep.Violate("idle-error", id, fmt.Sprintf("idling gives %v, not a timeout", e), nil)
				return
			}
			rep.Count("timeouts_observed", 1)
		}
		// a typed read may follow as well
		w.W(enc[cut:], vwire.U64(uint64(k)))
		g := c.ReadTimeout(limit)
		n := c.ReadUint64()
		if e := c.Err(); e != nil || !bytes.Equal(g, v) || n != uint64(k) {
			rep.Violate("idle-desync", id, fmt.Sprintf("after %d timeout(s) with %d byte(s) of the length already sent: wanted %d bytes and %d, got %d bytes and %d, error %v", tries, cut, len(v), k, len(g), n, e), nil)
			return
		}
		rep.Eval(fmt.Sprintf("idle/%d/%d/%d", cut, tries, sizeClass(len(v))))
	}
}

// slowBody: a message body arriving later than the full 30 s default: reading can still continue in step, or the error is not a mere timeout.
func slowBody(id string) {
	c, w := reader(id)
	defer c.Close()
	defer w.Close()
	v := []byte("cmd:slow-body")
	enc := vwire.Bytes(v)
	w.W(enc[:6])
	g := c.ReadTimeout(50 * time.Millisecond)
	e := c.Err()
	if e == nil {
		rep.Violate("slow-value", id, fmt.Sprintf("read %q of an incomplete message", g), nil)
		return
	}
	if !os.IsTimeout(e) {
		rep.Eval("slow/other-error")
		return // an error that ends the session
	}
	w.W(enc[6:], vwire.Str("next"))
	g = c.ReadTimeout(limit)
	s := c.ReadString()
	if e := c.Err(); e != nil || !bytes.Equal(g, v) || s != "next" {
		rep.Violate("slow-desync", id, fmt.Sprintf("after a timeout in the middle of a message, reading continues with %q, %q, error %v", g, s, e), nil)
		return
	}
	rep.Eval("slow/continued")
}

// handshakes: own identity, foreign greetings, refusals and early ends are errors on the side that met them.
func handshakes(i int, id string) {
	r := vlib.Rng(id)
	// the same identity on both sides
	a, b := tcpPair()
	ca, cb := conns(a, b, "same"+id, "same"+id)
	if ca.Err() == nil || cb.Err() == nil {
		rep.Violate("self", id, "a connection to itself was accepted", nil)
	}
	rep.Eval("self")
	ca.Close()
	cb.Close()
	msgs := [][]byte{vwire.Str("levilutz/basiccoin"), vwire.Str("v0.0.0"), vwire.Str("peer"), vwire.Str("continue")}
	for k := 0; k < 12; k++ {
		what := ""
		m := append([][]byte{}, msgs...)
		ok := false
		switch r.Intn(6) {
		case 0:
			m[0] = vwire.Str([]string{"levilutz/basiccoinx", "", "levilutz/basiccoi", "LEVILUTZ/BASICCOIN"}[r.Intn(4)])
			what = "greeting"
		case 1:
			m[1] = vwire.Str([]string{"v0.0.1", "", "v0.0.0 "}[r.Intn(3)])
			what = "version"
		case 2:
			m[3] = vwire.Str([]string{"cancel", "", "Continue", "continue "}[r.Intn(4)])
			what = "refusal"
		case 3:
			what = "truncated"
		case 4:
			m[2] = vwire.Str(string(rbytes(r, true)))
			what = "any-id"
			ok = true
		case 5:
			what = "plain"
			ok = true
		}
		var enc []byte
		for _, x := range m {
			enc = append(enc, x...)
		}
		if what == "truncated" {
			enc = enc[:r.Intn(len(enc))]
		}
		a, b := tcpPair()
		go io.Copy(io.Discard, b)
		go func() {
			b.Write(enc)
			if what == "truncated" {
				b.CloseWrite()
			}
		}()
		c := prot.NewConn(prot.NewParams("me"+id, i%2 == 0, false), a)
		e := c.Err()
		if (e == nil) != ok {
			rep.Violate("handshake-"+what, id, fmt.Sprintf("handshake (%s): error %v", what, e), vlib.Trunc(fmt.Sprintf("%q", enc), 300))
		}
		if e == nil && c.PeerRuntimeId() != string(m[2][2:]) {
			rep.Violate("handshake-id", id, fmt.Sprintf("identity %q received as %q", m[2][2:], c.PeerRuntimeId()), nil)
		}
		if c.WeAreInitiator() != (i%2 == 0) {
			rep.Violate("initiator", id, "initiator flag changed", nil)
		}
		rep.Eval("handshake/" + what)
		c.Close()
		b.Close()
	}
}

func main() {
	defer rep.Finish()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); rep.Parallel("slow", 1, 1, func(i int, id string) { slowBody(id) }) }()
	rep.Parallel("stream", vlib.N(160, 2400), 16, streams)
	rep.Parallel("corrupt", vlib.N(60, 900), 8, corrupt)
	rep.Parallel("oversize", vlib.N(2, 10), 2, oversize)
	rep.Parallel("idle", vlib.N(40, 400), 16, idle)
	rep.Parallel("handshake", vlib.N(24, 300), 8, handshakes)
	wg.Wait()
}
