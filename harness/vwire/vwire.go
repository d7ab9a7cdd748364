//go:build go1.22

// Package vwire is an independent encoder/decoder of the peer protocol over a raw TCP connection,
// with which monitors play honest, odd and hostile peers.
package vwire

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
)

type H = core.HashT

func U64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }
func Str(s string) []byte { return Bytes([]byte(s)) }
func Bytes(b []byte) []byte {
	if len(b) > 65535 {
		panic("vwire: too long")
	}
	return append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...)
}
func Hash(h H) []byte { d := h.Data(); return append([]byte{}, d[:]...) }
func Bool(b bool) []byte {
	if b {
		return []byte{1}
	}
	return []byte{0}
}

func Tx(t core.Tx) []byte {
	var b bytes.Buffer
	b.Write(Bool(t.IsCoinbase))
	b.Write(U64(t.MinBlock))
	b.Write(U64(uint64(len(t.Inputs))))
	b.Write(U64(uint64(len(t.Outputs))))
	for _, i := range t.Inputs {
		b.Write(Hash(i.Utxo.TxId))
		b.Write(U64(i.Utxo.Ind))
		b.Write(U64(i.Utxo.Value))
		b.Write(Bytes(i.PublicKey))
		b.Write(Bytes(i.Signature))
	}
	for _, o := range t.Outputs {
		b.Write(U64(o.Value))
		b.Write(Hash(o.PublicKeyHash))
	}
	return b.Bytes()
}

func Merkle(m core.MerkleNode) []byte { return append(Hash(m.LChild), Hash(m.RChild)...) }

func Block(x core.Block) []byte {
	var b []byte
	for _, h := range []H{x.PrevBlockId, x.MerkleRoot, x.Target, x.Noise} {
		b = append(b, Hash(h)...)
	}
	b = append(b, U64(x.Nonce)...)
	return append(b, U64(x.MinedTime)...)
}

// Conn is a raw peer. Every read has a generous deadline; errors stick.
type Conn struct {
	C      net.Conn
	Err    error
	Limit  time.Duration
	PeerId string
	br     *bufio.Reader
}

func Wrap(c net.Conn, limit time.Duration) *Conn {
	return &Conn{C: c, Limit: limit, br: bufio.NewReaderSize(c, 1<<16)}
}

// Ready waits up to d for the next byte; an error other than the timeout sticks.
func (c *Conn) Ready(d time.Duration) bool {
	if c.Err != nil {
		return false
	}
	if c.br.Buffered() > 0 {
		return true
	}
	c.C.SetReadDeadline(time.Now().Add(d))
	_, err := c.br.Peek(1)
	if err != nil {
		if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
			c.Err = err
		}
		return false
	}
	return true
}

func Dial(addr string, limit time.Duration) (*Conn, error) {
	c, err := net.DialTimeout("tcp", addr, limit)
	if err != nil {
		return nil, err
	}
	return Wrap(c, limit), nil
}

func (c *Conn) Close() { c.C.Close() }

func (c *Conn) W(parts ...[]byte) {
	if c.Err != nil {
		return
	}
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	c.C.SetWriteDeadline(time.Now().Add(c.Limit))
	if _, err := c.C.Write(b); err != nil {
		c.Err = err
	}
}

func (c *Conn) R(n int) []byte {
	if c.Err != nil {
		return make([]byte, n)
	}
	c.C.SetReadDeadline(time.Now().Add(c.Limit))
	b := make([]byte, n)
	if _, err := io.ReadFull(c.br, b); err != nil {
		c.Err = err
	}
	return b
}
func (c *Conn) RStr() string { return string(c.R(int(binary.BigEndian.Uint16(c.R(2))))) }
func (c *Conn) RU64() uint64 { return binary.BigEndian.Uint64(c.R(8)) }
func (c *Conn) RHash() H     { return core.NewHashTFromBytes(c.R(32)) }
func (c *Conn) RBool() bool {
	b := c.R(1)[0]
	if b > 1 && c.Err == nil {
		c.Err = fmt.Errorf("bool byte %d", b)
	}
	return b == 1
}
func (c *Conn) RBlock() core.Block {
	return core.Block{PrevBlockId: c.RHash(), MerkleRoot: c.RHash(), Target: c.RHash(), Noise: c.RHash(), Nonce: c.RU64(), MinedTime: c.RU64()}
}
func (c *Conn) RMerkle() core.MerkleNode {
	return core.MerkleNode{LChild: c.RHash(), RChild: c.RHash()}
}
func (c *Conn) RTx() core.Tx {
	t := core.Tx{IsCoinbase: c.RBool(), MinBlock: c.RU64()}
	ni, no := c.RU64(), c.RU64()
	t.Inputs, t.Outputs = []core.TxIn{}, []core.TxOut{}
	for i := uint64(0); i < ni && c.Err == nil; i++ {
		x := core.TxIn{Utxo: core.Utxo{TxId: c.RHash(), Ind: c.RU64(), Value: c.RU64()}}
		x.PublicKey = []byte(c.RStr())
		x.Signature = []byte(c.RStr())
		t.Inputs = append(t.Inputs, x)
	}
	for i := uint64(0); i < no && c.Err == nil; i++ {
		t.Outputs = append(t.Outputs, core.TxOut{Value: c.RU64(), PublicKeyHash: c.RHash()})
	}
	return t
}

// Handshake plays either side (the exchange is symmetric). It returns what the node wants.
func (c *Conn) Handshake(runtimeId string) string {
	c.W(Str("levilutz/basiccoin"), Str("v0.0.0"), Str(runtimeId))
	if s := c.RStr(); s != "levilutz/basiccoin" && c.Err == nil {
		c.Err = fmt.Errorf("greeting %q", s)
	}
	if s := c.RStr(); s != "v0.0.0" && c.Err == nil {
		c.Err = fmt.Errorf("version %q", s)
	}
	c.PeerId = c.RStr()
	c.W(Str("continue"))
	return c.RStr()
}
