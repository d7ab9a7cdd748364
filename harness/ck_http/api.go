//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/rest/client"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
)

func api() {
	rep.Parallel("api", vlib.N(24, 200), 6, func(i int, id string) { newHC(id, nil).run() })
	rep.Parallel("large", vlib.N(2, 12), 2, func(i int, id string) {
		newHC(id, func(p *core.Params) {
			p.MaxTxVSize, p.MaxBlockVSize, p.BlockReward = 60000, 1<<20, 1<<40
			p.MaxTarget, p.OriginalTarget = vmodel.Hex(vmodel.MaxT), vmodel.Hex(vmodel.MaxT)
		}).large(vlib.N(1500, 3000))
	})
	rep.Parallel("abuse", vlib.N(4, 24), 4, func(i int, id string) { newHC(id, nil).abuse() })
	rep.Parallel("live", vlib.N(8, 60), 4, func(i int, id string) { newHC(id, nil).live() })
}

// startServer starts a real server and returns where it answers. Its handlers are registered for the whole process, so that several servers would
// mix: each gets a registry of its own, served at an address of its own (the server's own address if it does not use the registry).
func startServer(p rest.Params, b *bus.Bus, inv *inv.Inv, died func(any)) (addr string, up bool) {
	serverMu.Lock()
	defer serverMu.Unlock()
	m := http.NewServeMux()
	http.DefaultServeMux = m
	for try := 0; ; try++ {
		s := rest.NewServer(p, b, inv)
		var gone atomic.Bool
		go func() {
			defer gone.Store(true)
			defer func() {
				// a port taken by another is not the server's doing
				if x := recover(); x != nil && !strings.Contains(fmt.Sprint(x), "address already in use") {
					died(x)
				}
			}()
			s.Start()
		}()
		addr = fmt.Sprintf("127.0.0.1:%d", p.Port)
		if waitUp(addr, gone.Load) {
			break
		}
		if !gone.Load() || try == 5 {
			return addr, false
		}
		// The port was taken after all.
		p.Port = freePort()
		m = http.NewServeMux()
		http.DefaultServeMux = m
	}
	if _, pat := m.Handler(httptest.NewRequest("GET", "/version", nil)); pat == "" {
		return addr, true
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return addr, false
	}
	go http.Serve(l, m)
	return l.Addr().String(), true
}

type hc struct {
	id    string
	r     *rand.Rand
	w     *vmodel.World
	p     core.Params
	n     *vnode.Node
	url   string
	addr  string
	cl    *http.Client
	wc    *client.WalletClient
	known map[H]core.Tx // every transaction the node has
	mk    map[H]core.MerkleNode
	must  map[H]bool // accepted over HTTP
	head  H
	log   []string
	dead  atomic.Bool
	died  atomic.Value
}

func newHC(id string, tweak func(*core.Params)) *hc {
	r := vlib.Rng("http", id)
	p := vmodel.RandParams(r)
	p.MaxBlockVSize = []uint64{3000, 8000, 20000}[r.Intn(3)]
	p.MaxTxVSize = 1500
	if r.Intn(3) == 0 { // as in the real networks
		p.MaxTxVSize, p.MaxBlockVSize = 16384, 40000
	}
	p.BlockReward = []uint64{1000, 131072, 1 << 40, 1 << 53, 1<<53 + 1, 1 << 59, 1<<59 + 12345}[r.Intn(7)]
	dev := r.Intn(2) == 0
	if tweak != nil {
		tweak(&p)
		dev = true
	}
	c := &hc{id: id, r: r, p: p, w: vmodel.NewWorld(p, r, uint64(time.Now().Unix())), known: map[H]core.Tx{}, mk: map[H]core.MerkleNode{}, must: map[H]bool{}}
	c.n = vnode.New(p, r.Intn(2) == 0, nil)
	addr, up := startServer(rest.NewParams(freePort(), r.Intn(2) == 0, true, "secret", dev), c.n.Bus, c.n.Inv, func(x any) { c.died.Store(fmt.Sprint(x)) })
	if !up && c.died.Load() == nil {
		c.dead.Store(true)
		rep.Inconclusive("%s: the server did not come up", id)
		return c
	}
	c.addr = addr
	c.url = "http://" + c.addr
	c.cl = &http.Client{Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		Transport: &http.Transport{MaxIdleConnsPerHost: 64}}
	ver := "v0.0.0"
	if dev {
		ver = "v0.0.0-dev"
	}
	vlib.Eventually(30*time.Second, func() bool {
		wc, err := client.NewWalletClient(c.url+[]string{"", "/"}[r.Intn(2)], ver)
		if err == nil {
			c.wc = wc
		}
		return err == nil || c.died.Load() != nil
	})
	if c.wc == nil {
		c.fail("no-server", fmt.Sprintf("the HTTP server did not come up (or reports another version than %s): %v", ver, c.died.Load()), nil)
	}
	return c
}

func (c *hc) note(f string, a ...any) { c.log = append(c.log, fmt.Sprintf(f, a...)) }
func (c *hc) fail(key, msg string, detail any) {
	c.dead.Store(true)
	rep.Violate(key, c.id, msg, map[string]any{"log": c.log, "detail": detail})
}

// alive says whether the node still works.
func (c *hc) alive(what string) bool {
	if c.dead.Load() {
		return false
	}
	if why, bad := c.n.Crashed(); bad {
		c.fail("node-died", what+": the node died: "+why, nil)
		return false
	}
	return true
}

// ---- expectations ----

func num(v uint64) json.Number { return json.Number(strconv.FormatUint(v, 10)) }
func txJSON(t core.Tx) any {
	in, out := []any{}, []any{}
	for _, i := range t.Inputs {
		in = append(in, map[string]any{"utxo": map[string]any{"txId": i.Utxo.TxId.String(), "ind": num(i.Utxo.Ind), "value": num(i.Utxo.Value)},
			"publicKey": base64.StdEncoding.EncodeToString(i.PublicKey), "signature": base64.StdEncoding.EncodeToString(i.Signature)})
	}
	for _, o := range t.Outputs {
		out = append(out, map[string]any{"value": num(o.Value), "publicKeyHash": o.PublicKeyHash.String()})
	}
	return map[string]any{"isCoinbase": t.IsCoinbase, "minBlock": num(t.MinBlock), "inputs": in, "outputs": out}
}
func blockJSON(b core.Block) any {
	return map[string]any{"prevBlockId": b.PrevBlockId.String(), "merkleRoot": b.MerkleRoot.String(), "target": b.Target.String(),
		"noise": b.Noise.String(), "nonce": num(b.Nonce), "minedTime": num(b.MinedTime)}
}
func merkleJSON(m core.MerkleNode) any {
	return map[string]any{"lChild": m.LChild.String(), "rChild": m.RChild.String()}
}

// noNull treats null lists as empty ones.
func noNull(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k := range x {
			if x[k] == nil && (k == "inputs" || k == "outputs") {
				x[k] = []any{}
			} else if x[k] == nil && (k == "publicKey" || k == "signature") {
				x[k] = ""
			} else {
				x[k] = noNull(x[k])
			}
		}
	case []any:
		for i := range x {
			x[i] = noNull(x[i])
		}
	}
	return v
}

type want func(status int, body []byte) string

func wantJSON(exp any) want {
	return func(st int, body []byte) string {
		if st != 200 {
			return fmt.Sprintf("status %d", st)
		}
		d := json.NewDecoder(bytes.NewReader(body))
		d.UseNumber()
		var got any
		if err := d.Decode(&got); err != nil {
			return "not JSON: " + err.Error()
		}
		if d.More() {
			return "trailing data"
		}
		if !reflect.DeepEqual(noNull(got), exp) {
			e, _ := json.Marshal(exp)
			return fmt.Sprintf("expected %s", vlib.Trunc(string(e), 1500))
		}
		return ""
	}
}

func want4xx(st int, body []byte) string {
	if st < 400 || st > 499 {
		return fmt.Sprintf("status %d, expected a 4xx answer", st)
	}
	return ""
}

func no5xx(st int, body []byte) string {
	if st >= 500 || st < 200 {
		return fmt.Sprintf("status %d", st)
	}
	return ""
}

// state is what the model says the node should answer right now.
type state struct {
	led     *vmodel.Ledger
	head    H
	height  uint64
	bal     map[H]uint64
	mustOff map[core.Utxo]bool // certainly spent by a pending transaction
	mayOff  map[core.Utxo]bool
	known   map[H]core.Tx
	inc     func(H) (uint64, H, bool)
}

func (c *hc) at(head H) *state {
	l := c.w.Led[head]
	s := &state{led: l, head: head, height: c.w.All.Blocks[head].Height, bal: map[H]uint64{}, mustOff: map[core.Utxo]bool{}, mayOff: map[core.Utxo]bool{}, known: map[H]core.Tx{}}
	for p, b := range l.Balances() {
		s.bal[p] = b.Uint64()
	}
	for id, t := range c.known {
		s.known[id] = t
		if _, inc := l.Incl[id]; inc {
			continue
		}
		whole := true
		for _, i := range t.Inputs {
			if _, ok := l.Utxos[i.Utxo]; !ok {
				whole = false
			}
		}
		for _, i := range t.Inputs {
			s.mayOff[i.Utxo] = true
			if whole && c.must[id] {
				s.mustOff[i.Utxo] = true
			}
		}
	}
	s.inc = func(id H) (uint64, H, bool) {
		b, ok := l.Incl[id]
		if !ok {
			return 0, H{}, false
		}
		return s.height - c.w.All.Blocks[b].Height + 1, b, true
	}
	return s
}

func (s *state) heightOK(st int, body []byte) string {
	if st != 200 || string(body) != fmt.Sprint(s.height) {
		return fmt.Sprintf("status %d, expected %d", st, s.height)
	}
	return ""
}

func (s *state) balances(pk []H) want {
	m := map[string]any{}
	for _, p := range pk {
		m[p.String()] = num(s.bal[p])
	}
	return wantJSON(map[string]any{"balances": m})
}

func (s *state) utxos(pk []H, exclude bool) want {
	return func(st int, body []byte) string {
		if st != 200 {
			return fmt.Sprintf("status %d", st)
		}
		var got struct {
			Utxos []struct {
				Utxo struct {
					TxId  string
					Ind   json.Number
					Value json.Number
				}
				Pkh string
			}
		}
		d := json.NewDecoder(bytes.NewReader(body))
		d.UseNumber()
		if err := d.Decode(&got); err != nil {
			return "not JSON: " + err.Error()
		}
		seen := map[string]bool{}
		for _, g := range got.Utxos {
			k := g.Utxo.TxId + "/" + g.Utxo.Ind.String() + "/" + g.Utxo.Value.String() + "/" + g.Pkh
			if seen[k] {
				return "output listed twice: " + k
			}
			seen[k] = true
		}
		ask := map[H]bool{}
		for _, p := range pk {
			ask[p] = true
		}
		for u, p := range s.led.Utxos {
			if !ask[p] {
				continue
			}
			k := u.TxId.String() + "/" + fmt.Sprint(u.Ind) + "/" + fmt.Sprint(u.Value) + "/" + p.String()
			has := seen[k]
			delete(seen, k)
			switch {
			case exclude && s.mustOff[u] && has:
				return "output spent by a pending transaction listed: " + k
			case !has && !(exclude && s.mayOff[u]):
				return "output missing: " + k
			}
		}
		for k := range seen {
			return "output that does not exist or was not asked for: " + k
		}
		return ""
	}
}

func (s *state) confirms(ids []H) want {
	m := map[string]any{}
	for _, id := range ids {
		if _, ok := s.known[id]; !ok {
			continue
		}
		n, _, _ := s.inc(id)
		m[id.String()] = num(n)
	}
	return wantJSON(map[string]any{"confirms": m})
}

func (s *state) included(ids []H) want {
	m := map[string]any{}
	for _, id := range ids {
		if _, b, ok := s.inc(id); ok {
			m[id.String()] = b.String()
		}
	}
	return wantJSON(map[string]any{"includedBlocks": m})
}

func (s *state) rich(n uint64) want {
	return func(st int, body []byte) string {
		if st != 200 {
			return fmt.Sprintf("status %d", st)
		}
		var got struct{ RichList map[string]json.Number }
		d := json.NewDecoder(bytes.NewReader(body))
		d.UseNumber()
		if err := d.Decode(&got); err != nil {
			return "not JSON: " + err.Error()
		}
		if uint64(len(got.RichList)) > n {
			return "more entries than asked for"
		}
		var have, exp []uint64
		for k, v := range got.RichList {
			p, err := core.NewHashTFromString(k)
			if err != nil {
				return "bad key " + k
			}
			if v.String() != fmt.Sprint(s.bal[p]) {
				return fmt.Sprintf("%s has %d, not %s", k, s.bal[p], v)
			}
			if s.bal[p] > 0 {
				have = append(have, s.bal[p])
			}
		}
		for _, b := range s.bal {
			if b > 0 {
				exp = append(exp, b)
			}
		}
		desc := func(x []uint64) { sort.Slice(x, func(i, j int) bool { return x[i] > x[j] }) }
		desc(have)
		desc(exp)
		if uint64(len(exp)) > n {
			exp = exp[:n]
		}
		if fmt.Sprint(have) != fmt.Sprint(exp) {
			return fmt.Sprintf("the richest hold %v, not %v", exp, have)
		}
		return ""
	}
}

func entities[T any](name string, ids []H, get func(H) (T, bool), enc func(T) any) want {
	m := map[string]any{}
	for _, id := range ids {
		if e, ok := get(id); ok {
			m[id.String()] = enc(e)
		}
	}
	if len(m) == 0 {
		return want4xx
	}
	return wantJSON(map[string]any{name: m})
}

// ---- requests ----

type req struct {
	kind, method, path string
	body               []byte
	w                  want
}

func (c *hc) do(method, path string, body []byte) (int, []byte, error) {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	rq, err := http.NewRequest(method, c.url+path, rd)
	if err != nil {
		return 0, nil, err
	}
	rs, err := c.cl.Do(rq)
	if err != nil {
		return 0, nil, err
	}
	defer rs.Body.Close()
	b, err := io.ReadAll(rs.Body)
	return rs.StatusCode, b, err
}

func (c *hc) judge(q req) bool {
	st, body, err := c.do(q.method, q.path, q.body)
	if c.dead.Load() {
		return false
	}
	if err != nil {
		if why, bad := c.n.Crashed(); bad {
			c.fail("node-died", fmt.Sprintf("%s %s: the node died: %s", q.method, vlib.Trunc(q.path, 300), why), nil)
			return false
		}
		c.fail("no-answer:"+q.kind, fmt.Sprintf("%s %s got no answer: %v", q.method, vlib.Trunc(q.path, 300), err), string(vlib.Trunc(string(q.body), 500)))
		return false
	}
	rep.Eval("")
	rep.Count("answers", 1)
	if why := q.w(st, body); why != "" {
		c.fail("wrong:"+q.kind, fmt.Sprintf("%s %s answered %d %s: %s", q.method, vlib.Trunc(q.path, 300), st, vlib.Trunc(string(body), 800), why), string(vlib.Trunc(string(q.body), 500)))
		return false
	}
	rep.Eval(fmt.Sprintf("%s/%s/%d", q.kind, q.method, st))
	return true
}

func (c *hc) all(qs []req) bool {
	var wg sync.WaitGroup
	ch := make(chan req)
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := range ch {
				if !c.dead.Load() {
					c.judge(q)
				}
			}
		}()
	}
	for _, q := range qs {
		ch <- q
	}
	close(ch)
	wg.Wait()
	return c.alive("requests")
}

func (c *hc) query(key string, ids []H) string {
	q := "?"
	for i, h := range ids {
		if i > 0 {
			q += "&"
		}
		s := h.String()
		if c.r.Intn(12) == 0 {
			s = strings.ToUpper(s)
		}
		q += key + "=" + s
	}
	return q
}

func pick(r *rand.Rand, from []H, n int) []H {
	out := []H{}
	for i := 0; i < n && len(from) > 0; i++ {
		out = append(out, from[r.Intn(len(from))])
	}
	return out
}

func (c *hc) ids() (pk, txs, ms, bl []H) {
	set := map[H]bool{}
	for _, p := range c.w.Led[c.head].Utxos {
		set[p] = true
	}
	for _, k := range c.w.Keys {
		set[k.Pkh] = true
	}
	for p := range set {
		pk = append(pk, p)
	}
	for id := range c.known {
		txs = append(txs, id)
	}
	for id := range c.mk {
		ms = append(ms, id)
	}
	for h := c.head; !h.EqZero(); h = c.w.BunBy[h].Parent {
		bl = append(bl, h)
	}
	for _, x := range []*[]H{&pk, &txs, &ms, &bl} {
		y := *x
		sort.Slice(y, func(i, j int) bool { return y[i].Lt(y[j]) })
	}
	return
}

// requests for everything in the current state.
func (c *hc) questions(s *state) []req {
	r := c.r
	pk, txs, ms, bl := c.ids()
	if len(pk) > 40 {
		r.Shuffle(len(pk), func(i, j int) { pk[i], pk[j] = pk[j], pk[i] })
		pk = pk[:40]
	}
	var qs []req
	add := func(kind, path string, w want) { qs = append(qs, req{kind, "GET", "/wallet" + path, nil, w}) }
	mix := func(own []H, n int) []H {
		out := pick(r, own, n)
		for _, o := range [][]H{pk, txs, ms, bl} {
			if r.Intn(4) == 0 {
				out = append(out, pick(r, o, 1)...)
			}
		}
		if r.Intn(3) == 0 {
			out = append(out, c.w.RandH())
		}
		if len(out) == 0 {
			out = append(out, c.w.RandH())
		}
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return out
	}
	add("height", "/head/height", s.heightOK)
	add("balance", "/balance"+c.query("publicKeyHash", pk), s.balances(pk))
	add("utxos", "/utxos"+c.query("publicKeyHash", pk), s.utxos(pk, false))
	add("utxos-free", "/utxos"+c.query("publicKeyHash", pk)+"&excludeMempool="+[]string{"true", "TRUE", "True"}[r.Intn(3)], s.utxos(pk, true))
	getTx := func(h H) (core.Tx, bool) { t, ok := c.known[h]; return t, ok }
	getM := func(h H) (core.MerkleNode, bool) { t, ok := c.mk[h]; return t, ok }
	getB := func(h H) (core.Block, bool) {
		for _, x := range bl {
			if x == h {
				return c.w.BunBy[h].Block, true
			}
		}
		return core.Block{}, false
	}
	for k := 0; k < 3; k++ {
		a := mix(pk, r.Intn(5))
		add("balance", "/balance"+c.query("publicKeyHash", a), s.balances(a))
		a = mix(pk, r.Intn(5))
		add("utxos", "/utxos"+c.query("publicKeyHash", a)+[]string{"", "&excludeMempool=false", "&excludeMempool=", "&excludeMempool=no"}[r.Intn(4)], s.utxos(a, false))
		a = mix(pk, r.Intn(5))
		add("utxos-free", "/utxos"+c.query("publicKeyHash", a)+"&excludeMempool=true", s.utxos(a, true))
		most := 5
		if r.Intn(8) == 0 {
			most = 300
		}
		a = mix(txs, r.Intn(most+1))
		add("confirms", "/tx/confirms"+c.query("txId", a), s.confirms(a))
		a = mix(txs, r.Intn(most+1))
		add("included", "/tx/block"+c.query("txId", a), s.included(a))
		a = mix(txs, r.Intn(most))
		add("tx", "/tx"+c.query("txId", a), entities("txs", a, getTx, txJSON))
		a = mix(ms, r.Intn(most))
		add("merkle", "/merkle"+c.query("merkleId", a), entities("merkles", a, getM, merkleJSON))
		a = mix(bl, r.Intn(most))
		add("block", "/block"+c.query("blockId", a), entities("blocks", a, getB, blockJSON))
	}
	n := uint64(r.Intn(len(s.bal) + 3))
	add("richlist", fmt.Sprintf("/richlist?maxLen=%d", n), s.rich(n))
	add("richlist", "/richlist", s.rich(10))
	if r.Intn(3) == 0 {
		n = []uint64{1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(6)]
		add("richlist-big", fmt.Sprintf("/richlist?maxLen=%d", n), s.rich(n))
	}
	return qs
}

// throughClient asks the same through the real client.
func (c *hc) throughClient(s *state) bool {
	r := c.r
	pk, txs, ms, bl := c.ids()
	bad := func(what string, err error, got any) bool {
		if !c.alive(what) {
			return false
		}
		c.fail("client:"+what, fmt.Sprintf("the real client's %s returned %v (%v), not what the node's ledger contains", what, vlib.Trunc(fmt.Sprint(got), 400), err), nil)
		return false
	}
	rep.Count("client_answers", 8)
	if h, err := c.wc.GetHeadHeight(); err != nil || h != s.height {
		return bad("GetHeadHeight", err, h)
	}
	a := pick(r, pk, 6)
	m, err := c.wc.GetManyBalances(a)
	if err != nil {
		return bad("GetManyBalances", err, m)
	}
	for _, p := range a {
		if v, ok := m[p]; !ok || v != s.bal[p] {
			return bad("GetManyBalances", nil, m)
		}
	}
	if v, err := c.wc.GetBalance(a[0]); err != nil || v != s.bal[a[0]] {
		return bad("GetBalance", err, v)
	}
	u, err := c.wc.GetManyUtxos(pk, false)
	n := 0
	for x, p := range s.led.Utxos {
		for _, q := range pk {
			if q == p {
				n++
				if u[x] != p {
					return bad("GetManyUtxos", err, u)
				}
			}
		}
	}
	if err != nil || n != len(u) {
		return bad("GetManyUtxos", err, u)
	}
	u, err = c.wc.GetManyUtxos(pk, true)
	if err != nil {
		return bad("GetManyUtxos", err, u)
	}
	for x := range s.mustOff {
		if _, ok := u[x]; ok {
			return bad("GetManyUtxos without pending", nil, x)
		}
	}
	if len(txs) > 0 {
		b := pick(r, txs, 3)
		t, err := c.wc.GetTx(b)
		for _, id := range b {
			if err != nil || !vmodel.SameTx(t[id], c.known[id]) {
				return bad("GetTx", err, t)
			}
		}
		cf, err := c.wc.GetTxConfirms(b)
		ib, err2 := c.wc.GetTxIncludedBlock(b)
		for _, id := range b {
			k, blk, ok := s.inc(id)
			if err != nil || err2 != nil || cf[id] != k {
				return bad("GetTxConfirms", err, cf)
			}
			if g, has := ib[id]; has != ok || g != blk {
				return bad("GetTxIncludedBlock", err2, ib)
			}
		}
	}
	if len(ms) > 0 {
		b := pick(r, ms, 3)
		t, err := c.wc.GetMerkle(b)
		for _, id := range b {
			if err != nil || t[id] != c.mk[id] {
				return bad("GetMerkle", err, t)
			}
		}
	}
	if len(bl) > 0 {
		b := pick(r, bl, 3)
		t, err := c.wc.GetBlock(b)
		for _, id := range b {
			if err != nil || t[id] != c.w.BunBy[id].Block {
				return bad("GetBlock", err, t)
			}
		}
	}
	rl, err := c.wc.GetRichList(1000000)
	for p, b := range s.bal {
		if err != nil || (b > 0 && rl[p] != b) {
			return bad("GetRichList", err, rl)
		}
	}
	return true
}

func (c *hc) step() bool {
	pend := []core.Tx{}
	for id := range c.must {
		if _, inc := c.w.Led[c.head].Incl[id]; !inc {
			pend = append(pend, c.known[id])
		}
	}
	sort.Slice(pend, func(i, j int) bool { return vmodel.TxID(pend[i]).Lt(vmodel.TxID(pend[j])) })
	parent := c.head
	var add []*vmodel.Bundle
	if c.r.Intn(5) == 0 && !c.head.EqZero() { // a better branch
		for k := 1 + c.r.Intn(2); k > 0 && !parent.EqZero(); k-- {
			parent = c.w.BunBy[parent].Parent
		}
		for !parent.EqZero() || len(add) == 0 || true {
			b := c.w.NextBlock(parent, nil, 3)
			c.w.Register(b)
			add = append(add, b)
			parent = b.Id
			if c.w.All.Blocks[parent].Work.Cmp(c.w.All.Blocks[c.head].Work) > 0 || len(add) > 6 {
				break
			}
		}
	} else {
		b := c.w.NextBlock(parent, pend, 4)
		c.w.Register(b)
		add = append(add, b)
	}
	last := add[len(add)-1]
	if c.w.Led[last.Id] == nil || c.w.Led[last.Id].Err != "" {
		return true
	}
	return c.give(last.Id, add)
}

func (c *hc) give(id H, add []*vmodel.Bundle) bool {
	_, err := c.n.Offer(vnode.Event(id, add...))
	if err != nil {
		if c.alive("offer") {
			c.dead.Store(true)
			rep.Inconclusive("%s: %v", c.id, err)
		}
		return false
	}
	for _, b := range add {
		for _, t := range b.Txs {
			c.known[vmodel.TxID(t)] = t
		}
		for _, m := range b.Merkles {
			c.mk[vmodel.MerkleID(m)] = m
		}
	}
	if c.n.Head != id {
		if c.w.All.Blocks[id].Work.Cmp(c.w.All.Blocks[c.head].Work) > 0 {
			c.dead.Store(true)
			rep.Inconclusive("%s: the node did not follow a better chain", c.id) // C08's business
		}
		return false
	}
	c.head = id
	return true
}

// large: a ledger of thousands, asked about in requests of thousands.
func (c *hc) large(count int) {
	if c.dead.Load() {
		return
	}
	r := c.r
	give := func(tip H) bool {
		var add []*vmodel.Bundle
		for h := tip; h != c.head; h = c.w.BunBy[h].Parent {
			add = append([]*vmodel.Bundle{c.w.BunBy[h]}, add...)
		}
		return c.give(tip, add)
	}
	tip := c.w.Many(count)
	if !give(tip) {
		return
	}
	txs := c.w.SpendParts(tip)
	// and a payment to more than a thousand strangers
	for _, co := range vmodel.Coins(c.w.Led[tip].Utxos) {
		if k := vmodel.KeyOf(c.w.Keys, co.Pkh); k != nil && co.U.Value >= c.w.P.BlockReward {
			t := core.Tx{Inputs: []core.TxIn{{Utxo: co.U}}, Outputs: []core.TxOut{}}
			for i := 0; i < 1100+r.Intn(200); i++ {
				t.Outputs = append(t.Outputs, core.TxOut{Value: uint64(1 + r.Intn(1<<25)), PublicKeyHash: c.w.RandH()})
			}
			vmodel.SignTx(&t, func(int) *vmodel.Key { return k })
			txs = append([]core.Tx{t}, txs...)
			break
		}
	}
	b := c.w.Full(tip, txs)
	c.w.Register(b)
	for round := 0; round < 3 && !c.dead.Load(); round++ {
		s := c.at(c.head)
		pk, txs, ms, bl := c.ids()
		var qs []req
		add := func(kind, path string, w want) { qs = append(qs, req{kind, "GET", "/wallet" + path, nil, w}) }
		some := func(own []H) []H {
			if len(own) == 0 || r.Intn(4) == 0 {
				own = append(append([]H{}, own...), c.w.RandH())
			}
			n := []int{len(own), 101, 257, 1001, 2500}[r.Intn(5)]
			if n >= len(own) {
				n = len(own)
			}
			own = append([]H{}, own...)
			r.Shuffle(len(own), func(i, j int) { own[i], own[j] = own[j], own[i] })
			own = own[:n]
			for k := r.Intn(3); k > 0; k-- { // now and then one twice
				own = append(own, own[r.Intn(len(own))])
			}
			rep.Max("most_ids_in_a_request", int64(len(own)))
			return own
		}
		getTx := func(h H) (core.Tx, bool) { t, ok := c.known[h]; return t, ok }
		getM := func(h H) (core.MerkleNode, bool) { t, ok := c.mk[h]; return t, ok }
		getB := func(h H) (core.Block, bool) {
			for _, x := range bl {
				if x == h {
					return c.w.BunBy[h].Block, true
				}
			}
			return core.Block{}, false
		}
		for k := 0; k < 2; k++ {
			a := some(pk)
			add("balance", "/balance"+c.query("publicKeyHash", a), s.balances(a))
			a = some(pk)
			add("utxos", "/utxos"+c.query("publicKeyHash", a), s.utxos(a, false))
			a = some(pk)
			add("utxos-free", "/utxos"+c.query("publicKeyHash", a)+"&excludeMempool=true", s.utxos(a, true))
			a = some(txs)
			add("confirms", "/tx/confirms"+c.query("txId", a), s.confirms(a))
			a = some(txs)
			add("included", "/tx/block"+c.query("txId", a), s.included(a))
			a = some(txs)
			add("tx", "/tx"+c.query("txId", a), entities("txs", a, getTx, txJSON))
			a = some(ms)
			add("merkle", "/merkle"+c.query("merkleId", a), entities("merkles", a, getM, merkleJSON))
			a = some(bl)
			add("block", "/block"+c.query("blockId", a), entities("blocks", a, getB, blockJSON))
			n := uint64([]int{len(s.bal), len(s.bal) - 1, 1000, 100, 513}[r.Intn(5)])
			add("richlist", fmt.Sprintf("/richlist?maxLen=%d", n), s.rich(n))
		}
		if !c.all(qs) || !c.throughClient(s) {
			return
		}
		switch round {
		case 0:
			if !give(b.Id) {
				return
			}
		case 1:
			if !c.posts(3) {
				return
			}
		}
		rep.Count("large_states", 1)
	}
}

// p0 is one coin of a wallet of ours.
func p0(w *vmodel.World, avail map[core.Utxo]H) []vmodel.Coin {
	for _, x := range vmodel.Coins(avail) {
		if x.U.Value > 1 && vmodel.KeyOf(w.Keys, x.Pkh) != nil {
			return []vmodel.Coin{x}
		}
	}
	return nil
}

// posts: transactions over HTTP.
func (c *hc) posts(n int) bool {
	r := c.r
	for k := 0; k < n; k++ {
		l := c.w.Led[c.head]
		h := c.w.All.Blocks[c.head].Height
		s := c.at(c.head)
		avail := map[core.Utxo]H{}
		for u, p := range l.Utxos {
			if r.Intn(8) == 0 || !s.mayOff[u] {
				avail[u] = p
			}
		}
		var t core.Tx
		ok := false
		kind := "valid"
		switch {
		case r.Intn(6) == 0 && p0(c.w, avail) != nil:
			cs := p0(c.w, avail)
			n := 1 + r.Intn(int((c.p.MaxTxVSize-72-211)/40))
			if r.Intn(2) == 0 {
				n = int((c.p.MaxTxVSize - 72 - 211) / 40)
			}
			t, ok = c.w.Spend(cs, 1+uint64(r.Int63n(int64(min(cs[0].U.Value, 1<<40)))), n, uint64(r.Intn(int(h)+1))), true
			kind = "many-outputs"
		case r.Intn(6) == 0 && len(c.known) > 0:
			_, txs, _, _ := c.ids()
			t, ok = c.known[txs[r.Intn(len(txs))]]
			kind = "known"
		case r.Intn(2) == 0:
			kind = vmodel.TxKinds[r.Intn(len(vmodel.TxKinds))]
			if strings.HasPrefix(kind, "same-key") {
				continue
			}
			t, ok = c.w.MutantTx(kind, avail, h)
		default:
			t, ok = c.w.RandTx(avail, h+1)
		}
		if !ok {
			continue
		}
		id := vmodel.TxID(t)
		_, was := c.known[id]
		v, why := c.w.All.CheckTx(t)
		enc, err := json.Marshal(txJSON(t))
		if err != nil {
			panic(err)
		}
		c.note("post %s %s (%s)", kind, id.String()[:8], why)
		viaClient := r.Intn(3) == 0
		var st int
		var body []byte
		if viaClient {
			got, err := c.wc.PostTx(t)
			st, body = 200, []byte(got.String())
			if err != nil {
				st, body = 400, []byte(err.Error())
			}
		} else {
			st, body, err = c.do("POST", "/wallet/tx", enc)
			if err != nil {
				if c.alive("post") {
					c.fail("no-answer:post", fmt.Sprintf("posting a transaction (%s) got no answer: %v", kind, err), t)
				}
				return false
			}
		}
		if !c.alive("post " + kind) {
			return false
		}
		has := c.n.Inv.HasTx(id)
		pendNow := false
		if has {
			cb, cs, err := c.do("GET", "/wallet/tx/confirms?txId="+id.String(), nil)
			if err != nil || cb != 200 {
				c.fail("no-answer:confirms", fmt.Sprintf("%d %v", cb, err), nil)
				return false
			}
			pendNow = strings.Contains(string(cs), id.String())
		}
		_, inc := l.Incl[id]
		switch {
		case st == 200 && string(body) != id.String():
			c.fail("post-id", fmt.Sprintf("a transaction post (%s) answered %q, its id is %s", kind, vlib.Trunc(string(body), 200), id), t)
		case st == 200 && (!has || !pendNow):
			c.fail("post-success-not-accepted", fmt.Sprintf("a transaction post (%s) answered success, but the node does not have it", kind), t)
		case st != 200 && (st < 400 || st > 499):
			c.fail("post-status", fmt.Sprintf("a refused transaction post (%s) answered %d", kind, st), t)
		case st != 200 && has && !was:
			c.fail("post-failure-accepted", fmt.Sprintf("a transaction post (%s) answered %d, yet the node took it", kind, st), t)
		case st != 200 && v == vmodel.OK && !t.IsCoinbase:
			c.fail("post-valid-refused", fmt.Sprintf("a valid transaction post (%s) answered %d %s", kind, st, vlib.Trunc(string(body), 200)), t)
		case st == 200 && v == vmodel.Bad && !was && why != "duplicate-input":
			rep.Count("illegal_txs_taken", 1) // the ledger rules have their own monitors
			c.dead.Store(true)
		}
		if c.dead.Load() {
			return false
		}
		rep.Eval(fmt.Sprintf("post/%s/%d/%v", kind, st, was))
		rep.Count("posts", 1)
		if st == 200 && !was {
			c.known[id] = t
			c.w.All.AddTx(t)
		}
		if st == 200 && !inc {
			c.must[id] = true
		}
	}
	return true
}

func (c *hc) run() {
	if c.dead.Load() {
		return
	}
	steps := 6 + c.r.Intn(8)
	for k := 0; k < steps && !c.dead.Load(); k++ {
		s := c.at(c.head)
		if !c.all(c.questions(s)) {
			return
		}
		if !c.throughClient(s) {
			return
		}
		if c.r.Intn(2) == 0 {
			if !c.posts(1 + c.r.Intn(4)) {
				return
			}
			if !c.all(c.questions(c.at(c.head))) {
				return
			}
		}
		if c.w.All.Blocks[c.head].Height >= 14 {
			break
		}
		if !c.step() && c.dead.Load() {
			return
		}
		rep.Count("states", 1)
	}
	c.alive("end")
}

// live: answers while the chain moves must be those of a state the node was in between question and answer.
func (c *hc) live() {
	if c.dead.Load() {
		return
	}
	for k := 0; k < 3; k++ {
		c.step()
	}
	var blocks []*vmodel.Bundle
	parent := c.head
	for k := 0; k < vlib.N(10, 11); k++ {
		b := c.w.NextBlock(parent, nil, 4)
		c.w.Register(b)
		blocks = append(blocks, b)
		parent = b.Id
		if l := c.w.Led[b.Id]; l == nil || l.Err != "" {
			return
		}
	}
	pk, _, _, _ := c.ids()
	// states in order, and which may be seen: begun counts deliveries begun, done those finished
	heads := []H{c.head}
	for _, b := range blocks {
		heads = append(heads, b.Id)
	}
	states := []*state{c.at(c.head)}
	all := map[H]core.Tx{}
	for id, t := range c.known {
		all[id] = t
	}
	for _, b := range blocks {
		for _, t := range b.Txs {
			all[vmodel.TxID(t)] = t
		}
		s := c.at(b.Id)
		states = append(states, s)
	}
	var begun, done atomic.Int64
	var wg sync.WaitGroup
	stop := make(chan bool)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if c.dead.Load() {
					return
				}
				kind := r.Intn(4)
				ask := pick(r, pk, 1+r.Intn(6))
				n := uint64(r.Intn(12))
				q := "?"
				for _, h := range ask {
					q += "publicKeyHash=" + h.String() + "&"
				}
				path := []string{"/head/height", "/balance" + q, "/utxos" + q, fmt.Sprintf("/richlist?maxLen=%d", n)}[kind]
				from := done.Load()
				st, body, err := c.do("GET", "/wallet"+path, nil)
				to := begun.Load()
				if err != nil {
					if c.alive("live") {
						c.fail("no-answer:live", err.Error(), nil)
					}
					return
				}
				why := ""
				for i := from; i <= to; i++ {
					s := states[i]
					w := []want{s.heightOK, s.balances(ask), s.utxos(ask, false), s.rich(n)}[kind]
					if why = w(st, body); why == "" {
						rep.Seen("live_lag", fmt.Sprint(i-from, to-from))
						break
					}
				}
				rep.Count("live_answers", 1)
				if why != "" {
					c.fail("torn", fmt.Sprintf("GET %s answered %d %s while blocks %d to %d arrived: no state in between says so (%s)", path, st, vlib.Trunc(string(body), 600), from, to, why), nil)
					return
				}
				rep.Eval(fmt.Sprintf("live/%d/%d", kind, to-from))
			}
		}(vlib.Rng("live", c.id, k))
	}
	for i, b := range blocks {
		begun.Store(int64(i + 1))
		if !c.give(b.Id, []*vmodel.Bundle{b}) {
			break
		}
		done.Store(int64(i + 1))
		time.Sleep(time.Duration(c.r.Intn(40)) * time.Millisecond)
	}
	time.Sleep(50 * time.Millisecond)
	close(stop)
	wg.Wait()
	c.alive("live")
}

// abuse: requests no reasonable client makes.
func (c *hc) abuse() {
	if c.dead.Load() {
		return
	}
	r := c.r
	for k := 0; k < 4; k++ {
		c.step()
	}
	good := c.head.String()
	pk := c.w.Keys[0].Pkh.String()
	var qs []req
	add := func(kind, m, p string, body []byte, w want) { qs = append(qs, req{kind, m, p, body, w}) }
	eps := []struct{ path, key string }{{"/balance", "publicKeyHash"}, {"/utxos", "publicKeyHash"}, {"/tx", "txId"}, {"/tx/confirms", "txId"},
		{"/tx/block", "txId"}, {"/merkle", "merkleId"}, {"/block", "blockId"}}
	badIds := []string{"", "zz", good[:63], good + "0", good[:62] + "zz", "0x" + good[2:], strings.Repeat("g", 64), "%00" + good[1:], strings.Repeat("%C3%A9", 32),
		strings.Repeat("a", 100000), "null", "-1", "1", good + "," + good, " " + good[1:], "%27%20drop%20table", "%25" + good[:63]}
	for _, e := range eps {
		p := "/wallet" + e.path
		if e.path != "/tx" {
			add("missing", "GET", p, nil, want4xx)
		}
		add("missing-tx", "GET", "/wallet/tx", nil, want4xx)
		add("other-param", "GET", p+"?nonsense="+good, nil, want4xx)
		for _, b := range badIds {
			add("bad-id", "GET", p+"?"+e.key+"="+strings.ReplaceAll(b, " ", "%20"), nil, want4xx)
			add("bad-id-2", "GET", p+"?"+e.key+"="+good+"&"+e.key+"="+strings.ReplaceAll(b, " ", "%20"), nil, want4xx)
		}
		add("case", "GET", p+"?"+strings.ToUpper(e.key)+"="+good, nil, want4xx)
		many := p + "?"
		for i := 0; i < 3000; i++ {
			many += e.key + "=" + c.w.RandH().String() + "&"
		}
		add("many", "GET", many, nil, no5xx)
		add("zero", "GET", p+"?"+e.key+"="+strings.Repeat("0", 64), nil, no5xx)
		add("semicolon", "GET", p+"?"+e.key+"="+good+";"+e.key+"="+good, nil, no5xx)
	}
	for _, m := range []string{"PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "get", "WEIRD", "POST"} {
		for _, e := range append(eps, struct{ path, key string }{"/head/height", "x"}, struct{ path, key string }{"/richlist", "maxLen"}) {
			if m == "POST" && e.path == "/tx" {
				continue
			}
			add("method", m, "/wallet"+e.path+"?"+e.key+"="+good, nil, want4xx)
		}
		add("method", m, "/version", nil, want4xx)
	}
	for _, b := range []string{"-1", "abc", "", "1e3", "18446744073709551616", "0x10", "1.5", "%20", "+5", "99999999999999999999999999"} {
		add("maxlen", "GET", "/wallet/richlist?maxLen="+b, nil, want4xx)
	}
	s := c.at(c.head)
	for _, n := range []uint64{0, 1, 1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1} {
		add("richlist-big", "GET", fmt.Sprintf("/wallet/richlist?maxLen=%d", n), nil, s.rich(n))
	}
	for _, p := range []string{"/", "/wallet", "/wallet/", "/wallet/nope", "/wallet/balance/", "/wallet/tx/nope", "/walletx", "/version/", "/metrics", "/debug/pprof/", "/wallet/tx/confirms/x"} {
		add("unknown-path", "GET", p, nil, want4xx)
	}
	for _, p := range []string{"//wallet/balance?publicKeyHash=" + pk, "/wallet/../wallet/head/height", "/wallet/./head/height", "/wallet//head/height"} {
		add("odd-path", "GET", p, nil, no5xx)
	}
	// transaction posts that are not transactions
	post := func(kind, b string) {
		qs = append(qs, req{"post-" + kind, "POST", "/wallet/tx", []byte(b), want4xx})
	}
	for _, b := range []string{"", "null", "[]", "{}", "0", "\"x\"", "true", "{", "}", "{\"inputs\":}", "\x00", "\xff\xfe", "[[[[", strings.Repeat("[", 20000), strings.Repeat("{\"inputs\":", 5000),
		"{\"inputs\":null,\"outputs\":null}", "{\"inputs\":[null],\"outputs\":[null]}", "{\"inputs\":[{}],\"outputs\":[{}]}", "{\"minBlock\":-1}", "{\"minBlock\":1e400}",
		"{\"minBlock\":18446744073709551616}", "{\"minBlock\":1.5}", "{\"minBlock\":\"1\"}", "{\"isCoinbase\":1}", "{\"inputs\":{}}", "{\"inputs\":[[]]}",
		"{\"inputs\":[{\"utxo\":{\"value\":18446744073709551615}}]}", "{\"inputs\":[{\"utxo\":{\"value\":18446744073709551615}},{\"utxo\":{\"value\":18446744073709551615}}],\"outputs\":[{\"value\":18446744073709551615}]}",
		"{\"inputs\":[{\"utxo\":{\"txId\":\"zz\"}}]}", "{\"inputs\":[{\"utxo\":{\"txId\":5}}]}", "{\"inputs\":[{\"publicKey\":\"!!\",\"utxo\":{\"value\":5}}]}",
		"{\"inputs\":[{\"publicKey\":\"AAAA\",\"signature\":\"AAAA\",\"utxo\":{\"value\":5,\"txId\":\"" + good + "\"}}],\"outputs\":[{\"value\":1,\"publicKeyHash\":\"" + pk + "\"}]}",
		"{\"inputs\":[{\"utxo\":{\"value\":5}}],\"outputs\":[{\"value\":1,\"publicKeyHash\":\"\"}]}",
		"{\"a\":\"" + strings.Repeat("x", 3<<20) + "\"}", "{\"inputs\":[" + strings.Repeat("{\"utxo\":{\"value\":1}},", 40000) + "{\"utxo\":{\"value\":1}}]}"} {
		post("junk", b)
	}
	// a valid one, damaged byte by byte
	if t, ok := c.w.RandTx(c.w.Led[c.head].Utxos, 1); ok {
		enc, _ := json.Marshal(txJSON(t))
		for k := 0; k < 40; k++ {
			b := append([]byte{}, enc...)
			switch r.Intn(3) {
			case 0:
				b = b[:r.Intn(len(b))]
			case 1:
				i := r.Intn(len(b))
				b = append(append(append([]byte{}, b[:i]...), byte(r.Intn(256))), b[i:]...)
			default:
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
			}
			// whatever it means now: success exactly with the id of what it says, and never a failure of the node
			qs = append(qs, req{"post-damaged", "POST", "/wallet/tx", b, func(st int, body []byte) string {
				if st != 200 && (st < 400 || st > 499) {
					return "neither success nor refusal"
				}
				if st == 200 {
					h, err := core.NewHashTFromString(string(body))
					if err != nil || !c.n.Inv.HasTx(h) {
						return "success, but the node does not have what it names"
					}
				}
				return ""
			}})
		}
	}
	r.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	if !c.all(qs) {
		return
	}
	// not HTTP, or not to the end
	raw := []string{"", "\r\n\r\n", "GET\r\n\r\n", "GET /wallet/head/height\r\n\r\n", "GET /wallet/head/height HTTP/9.9\r\n\r\n", "POST /wallet/tx HTTP/1.1\r\nHost: x\r\nContent-Length: 100000\r\n\r\n{",
		"POST /wallet/tx HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\n", "POST /wallet/tx HTTP/1.1\r\nHost: x\r\nContent-Length: -5\r\n\r\n", "GET /wallet/balance?publicKeyHash=" + pk + " HTTP/1.1\r\nHost: x\r\n",
		"GET /wallet/utxos?publicKeyHash=" + pk + " HTTP/1.1\r\nHost: x\r\n\r\n", strings.Repeat("A", 100000), "CONNECT /wallet/tx HTTP/1.1\r\nHost: x\r\n\r\n", "GET http://other/wallet/head/height HTTP/1.1\r\nHost: y\r\n\r\n",
		"GET /wallet/richlist?maxLen=3 HTTP/1.1\r\nHost: x\r\n\r\nGET /wallet/head/height HTTP/1.1\r\nHost: x\r\n\r\n"}
	for k, x := range raw {
		cn, err := net.Dial("tcp", c.addr)
		if err != nil {
			c.fail("no-connect", err.Error(), nil)
			return
		}
		cn.SetDeadline(time.Now().Add(2 * time.Second))
		cn.Write([]byte(x))
		if k%2 == 0 {
			cn.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
			bufio.NewReader(cn).ReadString('\n')
		}
		cn.Close()
		rep.Count("raw_connections", 1)
	}
	// and afterwards everything is as before
	for id, t := range c.known {
		_ = t
		if !c.n.Inv.HasTx(id) {
			c.fail("lost", "a transaction disappeared", id)
			return
		}
	}
	c.judge(req{"height", "GET", "/wallet/head/height", nil, s.heightOK})
	pks := []H{}
	for _, k := range c.w.Keys {
		pks = append(pks, k.Pkh)
	}
	c.judge(req{"balance", "GET", "/wallet/balance" + c.query("publicKeyHash", pks), nil, s.balances(pks)})
	c.alive("abuse")
}
