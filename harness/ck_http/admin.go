//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

func admin() {
	// the real program, several at a time, while in-process servers are exercised
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		rep.Parallel("real", vlib.N(14, 60), 5, func(i int, id string) { realAdmin(i, id) })
	}()
	rep.Parallel("server", vlib.N(40, 400), 4, func(i int, id string) { serverAdmin(i, id) })
	wg.Wait()
}

// adm is one server with a password, and how to tell whether it was told to end.
type adm struct {
	id            string
	r             *rand.Rand
	addr, pw      string
	admin, wallet bool
	told          func() int  // how many times the node was told to end so far
	up            func() bool // the process is there
	expect        atomic.Int64
	bad           atomic.Bool
}

func (a *adm) fail(key, f string, x ...any) {
	if a.bad.Swap(true) {
		return
	}
	rep.Violate(key, a.id, fmt.Sprintf(f, x...), map[string]any{"password": a.pw, "admin": a.admin, "wallet": a.wallet})
}

// ask is one raw request and what may come of it.
type ask struct {
	name   string
	method string
	raw    string
	ok     func(st int) bool
	effect bool
	lax    bool // no answer is an answer
}

func is(c ...int) func(int) bool {
	return func(st int) bool {
		for _, x := range c {
			if st == x {
				return true
			}
		}
		return false
	}
}
func refused(st int) bool { return st >= 300 && st < 500 }
func err4xx(st int) bool  { return st >= 400 && st < 500 }

func wire(method, target string, hdr []string, body string) string {
	s := method + " " + target + " HTTP/1.1\r\nHost: node\r\n"
	for _, h := range hdr {
		s += h + "\r\n"
	}
	if body != "" {
		s += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	return s + "\r\n" + body
}

// send writes the requests over one connection and judges the answers in order.
func (a *adm) send(qs ...ask) {
	if a.bad.Load() {
		return
	}
	c, err := net.DialTimeout("tcp", a.addr, 10*time.Second)
	if err != nil {
		if !a.up() {
			a.fail("ended-without-password", "the node ended though nobody told it to with the password (before %s)", qs[0].name)
		} else {
			rep.Inconclusive("%s: connecting to the server: %v", a.id, err)
			a.bad.Store(true)
		}
		return
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	pipe := !qs[len(qs)-1].effect
	if pipe {
		go func() {
			for _, q := range qs {
				if _, err := io.WriteString(c, q.raw); err != nil {
					return
				}
			}
		}()
	}
	br := bufio.NewReader(c)
	for _, q := range qs {
		before := a.told()
		if !pipe {
			io.WriteString(c, q.raw)
		}
		rs, err := http.ReadResponse(br, &http.Request{Method: q.method})
		for err == nil && rs.StatusCode == 100 {
			rs, err = http.ReadResponse(br, &http.Request{Method: q.method})
		}
		var body []byte
		st := 0
		if err == nil {
			st = rs.StatusCode
			body, _ = io.ReadAll(rs.Body)
			rs.Body.Close()
		}
		rep.Count("requests", 1)
		if q.effect {
			// ending at once, the program may take the answer with it
			if st/100 != 2 && !(err != nil && vlib.Eventually(20*time.Second, func() bool { return !a.up() })) {
				a.fail("right-refused:"+q.name, "%q with the right password answered %d %v", vlib.Trunc(q.raw, 400), st, err)
				return
			}
			if !vlib.Eventually(60*time.Second, func() bool { return a.told() > before }) {
				a.fail("right-no-effect:"+q.name, "%q with the right password was answered %d but the node was not told to end", vlib.Trunc(q.raw, 400), st)
				return
			}
			a.expect.Store(int64(a.told()))
			rep.Eval("effect/" + q.name)
			if err != nil || rs.Close {
				return
			}
			continue
		}
		if int64(a.told()) > a.expect.Load() {
			a.fail("took-effect:"+q.name, "%q (answer %d) told the node to end", vlib.Trunc(q.raw, 400), st)
			return
		}
		if !a.up() {
			a.fail("ended-without-password:"+q.name, "%q ended the node", vlib.Trunc(q.raw, 400))
			return
		}
		if err != nil {
			if !q.lax {
				a.fail("no-answer:"+q.name, "%q got no answer: %v (before it: %q)", vlib.Trunc(q.raw, 400), err, qs[0].raw)
			}
			return
		}
		if !q.ok(st) {
			a.fail("wrong-status:"+q.name, "%q answered %d %s", vlib.Trunc(q.raw, 400), st, vlib.Trunc(string(body), 200))
			return
		}
		if len(a.pw) > 7 {
			var hdr bytes.Buffer
			rs.Header.Write(&hdr)
			if !strings.Contains(q.raw, a.pw) && (bytes.Contains(body, []byte(a.pw)) || bytes.Contains(hdr.Bytes(), []byte(a.pw))) {
				a.fail("revealed:"+q.name, "%q was answered with the password in it", vlib.Trunc(q.raw, 400))
				return
			}
		}
		rep.Eval(fmt.Sprintf("%s/%v%v/%d", q.name, a.admin, a.wallet, st))
		if rs.Close || q.lax {
			return // the server ends the conversation here
		}
	}
}

const term = "/admin/terminate"

func password(r *rand.Rand) string {
	const all = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	const odd = all + "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ "
	str := func(from string, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = from[r.Intn(len(from))]
		}
		if b[0] == ' ' {
			b[0] = 'x'
		}
		if b[n-1] == ' ' {
			b[n-1] = 'x'
		}
		return string(b)
	}
	switch r.Intn(9) {
	case 0:
		return str(all, 1)
	case 1:
		return str(odd, 1+r.Intn(4))
	case 2:
		return "pässwörd-" + str(all, 4) + "-密码"
	case 3:
		return str(odd, 100+r.Intn(4000))
	case 4:
		return []string{"true", "false", "0", "null", "%70w%20x", "a,b", "Basic abc", "*", "pw", "pw: x", "' or '1'='1", "x\ty", "x  y", "{}", "password"}[r.Intn(15)]
	case 5:
		return str(all, 64)
	default:
		return str(odd, 8+r.Intn(24))
	}
}

// wrongs is what somebody without the password may send as password headers.
func wrongs(r *rand.Rand, pw string) [][]string {
	w := [][]string{nil, {"Pw: "}, {"Pw:"}}
	no := func(s string) {
		if strings.Trim(s, " \t") != pw {
			w = append(w, []string{"Pw: " + s})
		}
	}
	for i := 0; i < 3; i++ {
		no(pw[:r.Intn(len(pw))])
		no(pw[r.Intn(len(pw)):] + "")
	}
	no(pw[:len(pw)-1])
	no(pw[1:])
	no(pw + "x")
	no(pw + pw)
	no(pw + "," + pw)
	no(pw + ", " + pw)
	no("x" + pw)
	no(strings.ToUpper(pw))
	no(strings.ToLower(pw))
	no(strings.Title(pw))
	no(strings.ReplaceAll(pw, " ", ""))
	no(strings.ReplaceAll(pw, "  ", " "))
	no(strings.ReplaceAll(pw, "\t", " "))
	no(url.QueryEscape(pw))
	no(url.PathEscape(pw))
	if u, err := url.QueryUnescape(pw); err == nil && !strings.ContainsAny(u, "\r\n\x00") {
		no(u)
	}
	no(base64.StdEncoding.EncodeToString([]byte(pw)))
	no("\"" + pw + "\"")
	no("Basic " + pw)
	no("Bearer " + pw)
	no(strings.Repeat("A", 20000))
	no(strings.Repeat("x", len(pw)))
	no("*")
	no(".*")
	no("true")
	no("secret")
	b := []byte(pw)
	k := r.Intn(len(b))
	for _, d := range []byte{1, 2, 32, 64} {
		c := b[k] ^ d
		if c > 32 && c < 127 {
			x := append([]byte{}, b...)
			x[k] = c
			no(string(x))
		}
	}
	if len(b) > 1 {
		i, j := r.Intn(len(b)), r.Intn(len(b))
		x := append([]byte{}, b...)
		x[i], x[j] = x[j], x[i]
		no(string(x))
		h := 1 + r.Intn(len(b)-1)
		w = append(w, []string{"Pw: " + pw[:h], "Pw: " + pw[h:]}, []string{"Pw: ", "Pw: x"})
		w = append(w, []string{"Pw: " + pw[:h], "X-Pw: " + pw[h:]})
	}
	au := base64.StdEncoding.EncodeToString([]byte("admin:" + pw))
	w = append(w, []string{"Authorization: Basic " + au}, []string{"Authorization: Bearer " + pw}, []string{"Authorization: " + pw}, []string{"Password: " + pw}, []string{"X-Pw: " + pw},
		[]string{"Pw2: " + pw}, []string{"P-W: " + pw}, []string{"Cookie: pw=" + url.QueryEscape(pw)}, []string{"Cookie: Pw=" + url.QueryEscape(pw), "Pw: x"},
		[]string{"X-Forwarded-For: 127.0.0.1"}, []string{"X-Real-Ip: 127.0.0.1", "Forwarded: for=127.0.0.1", "Origin: http://localhost"},
		[]string{"X-Http-Method-Override: POST", "X-Original-Url: " + term}, []string{"Admin: true"}, []string{"Connection: Pw", "Pw: x"}, []string{"Admin-Pw: " + pw})
	return w
}

var methods = []string{"GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT", "post", "Post", "get", "WEIRD"}

// strangers is everything tried without the password.
func (a *adm) strangers() []ask {
	r, pw := a.r, a.pw
	var qs []ask
	add := func(name, m, raw string, ok func(int) bool, lax bool) {
		qs = append(qs, ask{name: name, method: m, raw: raw, ok: ok, lax: lax})
	}
	code := is(401)
	if !a.admin {
		code = is(404)
	}
	esc := url.QueryEscape(pw)
	for _, h := range wrongs(r, pw) {
		add("wrong-pw", "POST", wire("POST", term, h, ""), code, false)
		if r.Intn(3) == 0 {
			m := methods[r.Intn(len(methods))]
			add("wrong-pw-method", m, wire(m, term, h, ""), code, false)
		}
	}
	for _, m := range methods {
		add("wrong-method", m, wire(m, term, nil, ""), code, false)
		add("wrong-method", m, wire(m, term, []string{"Pw: " + pw + "x"}, ""), code, false)
	}
	// the same place by other names
	for _, p := range []string{term + "?pw=" + esc, term + "?Pw=" + esc + "&password=" + esc, term + "?", "/%61dmin/terminate", "/admin%2Fterminate"[:6] + "/terminat%65", "http://node" + term, "http://other" + term} {
		add("same-place", "POST", wire("POST", p, nil, ""), code, false)
	}
	for _, p := range []string{"//admin/terminate", "/admin//terminate", "/./admin/terminate", "/x/../admin/terminate", term + "/", term + "//", term + "/.", term + "/x/..", "/wallet/../admin/terminate", "/version/../admin/terminate",
		"/ADMIN/TERMINATE", "/Admin/terminate", "/admin/Terminate", "/admin", "/admin/", "/admin/terminate;x", "/admin/terminate%00", "/admin/terminate%20", "/admin%2Fterminate", "/admin/%74erminate/", "/..%2fadmin/terminate",
		"/%2e%2e/admin/terminate", "/admin/terminate%3Fpw=" + esc, "/wallet/admin/terminate", "/admin/wallet/head/height", "/admin/version", "/admin/stop"} {
		m := []string{"POST", "POST", "GET"}[r.Intn(3)]
		add("other-path", m, wire(m, p, nil, ""), refused, false)
		add("other-path-wrong", m, wire(m, p, []string{"Pw: " + pw + pw}, ""), refused, false)
	}
	add("no-target", "POST", wire("POST", "admin/terminate", nil, ""), refused, true)
	add("star", "OPTIONS", wire("OPTIONS", "*", nil, ""), func(st int) bool { return true }, true)
	// bodies
	inner := wire("POST", term, []string{"Pw: " + pw}, "")
	for _, b := range []string{pw, "pw=" + esc, "{\"pw\":\"" + pw + "\"}", inner, "Pw: " + pw + "\r\n\r\n", strings.Repeat("x", 300000)} {
		add("body", "POST", wire("POST", term, []string{"Content-Type: application/x-www-form-urlencoded"}, b), code, true)
		add("body", "POST", wire("POST", term, []string{"Pw: x"}, b), code, true)
	}
	add("chunked", "POST", wire("POST", term, []string{"Transfer-Encoding: chunked"}, "")+fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(inner), inner), code, true)
	add("trailer", "POST", wire("POST", term, []string{"Transfer-Encoding: chunked", "Trailer: Pw"}, "")+"1\r\nx\r\n0\r\nPw: "+pw+"\r\n\r\n", code, true)
	add("expect", "POST", wire("POST", term, []string{"Expect: 100-continue", "Content-Length: 3"}, "")+"abc", code, true)
	// not quite HTTP
	add("http10", "POST", "POST "+term+" HTTP/1.0\r\n\r\n", code, true)
	add("http10", "POST", "POST "+term+" HTTP/1.0\r\nPw: x\r\n\r\n", code, true)
	add("lf", "POST", "POST "+term+" HTTP/1.1\nHost: x\nPw: y\n\n", refused, true)
	add("no-host", "POST", "POST "+term+" HTTP/1.1\r\n\r\n", refused, true)
	add("fold", "POST", "POST "+term+" HTTP/1.1\r\nHost: x\r\nPw: x\r\n "+pw+"\r\n\r\n", refused, true)
	add("colon", "POST", "POST "+term+" HTTP/1.1\r\nHost: x\r\nPw : "+pw+"\r\n\r\n", refused, true)
	add("nul", "POST", "POST "+term+" HTTP/1.1\r\nHost: x\r\nPw: "+pw+"\x00\r\n\r\n", refused, true)
	add("two-lengths", "POST", "POST "+term+" HTTP/1.1\r\nHost: x\r\nContent-Length: 1\r\nContent-Length: 5\r\n\r\nabcde", refused, true)
	add("version-2", "PRI", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", func(int) bool { return true }, true)
	add("absurd", "POST", "POST "+term+" HTTP/1.1\r\nHost: x\r\n"+strings.Repeat("Pw: x\r\n", 500)+"\r\n", refused, true)
	return qs
}

// owner is everything tried with the password; only what POSTs to the right place takes effect.
func (a *adm) owner() (harmless, telling []ask) {
	pw, r := a.pw, a.r
	for _, m := range methods {
		ok := err4xx
		if !a.admin {
			ok = is(404)
		}
		harmless = append(harmless, ask{name: "right-method", method: m, raw: wire(m, term, []string{"Pw: " + pw}, ""), ok: ok})
	}
	for _, p := range []string{"/admin", "/admin/", "/admin/x", "/", "/terminate", "/admin/terminatex", "/wallet/terminate"} {
		harmless = append(harmless, ask{name: "right-elsewhere", method: "POST", raw: wire("POST", p, []string{"Pw: " + pw}, ""), ok: refused})
	}
	if !a.admin {
		harmless = append(harmless, ask{name: "right-disabled", method: "POST", raw: wire("POST", term, []string{"Pw: " + pw}, ""), ok: is(404)})
		return
	}
	for _, h := range [][]string{{"Pw: " + pw}, {"pw: " + pw}, {"PW: " + pw}, {"pW:" + pw}, {"Pw:   " + pw + "  "}, {"Pw: " + pw, "Content-Type: application/json"}, {"Authorization: Bearer x", "Pw: " + pw, "X-Pw: y"},
		{"User-Agent: curl/8", "Accept: */*", "Pw: " + pw}, {"Cookie: pw=x", "Pw: " + pw}} {
		telling = append(telling, ask{name: "right", method: "POST", raw: wire("POST", term, h, ""), effect: true})
	}
	telling = append(telling,
		ask{name: "right-body", method: "POST", raw: wire("POST", term, []string{"Pw: " + pw}, "hello"), effect: true},
		ask{name: "right-query", method: "POST", raw: wire("POST", term+"?pw=wrong&x=1", []string{"Pw: " + pw}, ""), effect: true},
		ask{name: "right-absolute", method: "POST", raw: wire("POST", "http://node"+term, []string{"Pw: " + pw}, ""), effect: true},
		ask{name: "right-escaped", method: "POST", raw: wire("POST", "/%61dmin/terminate", []string{"Pw: " + pw}, ""), effect: true})
	r.Shuffle(len(telling), func(i, j int) { telling[i], telling[j] = telling[j], telling[i] })
	return
}

// wallet is the wallet side: there or not, never asking for the password, never telling it.
func (a *adm) walletAsks() [][]ask {
	r := a.r
	h := core.NewHashTRand().String()
	var out [][]ask
	type q struct {
		m, p string
		st   func(int) bool
	}
	for _, x := range []q{{"GET", "/wallet/head/height", is(200)}, {"GET", "/wallet/balance?publicKeyHash=" + h, is(200)}, {"GET", "/wallet/utxos?publicKeyHash=" + h, is(200)}, {"GET", "/wallet/tx?txId=" + h, err4xx},
		{"GET", "/wallet/tx/confirms?txId=" + h, is(200)}, {"GET", "/wallet/tx/block?txId=" + h, is(200)}, {"GET", "/wallet/merkle?merkleId=" + h, err4xx}, {"GET", "/wallet/block?blockId=" + h, err4xx},
		{"GET", "/wallet/richlist", is(200)}, {"GET", "/wallet/richlist?maxLen=5", is(200)}, {"POST", "/wallet/tx", err4xx}, {"GET", "/wallet/balance", err4xx}, {"PUT", "/wallet/balance", err4xx}, {"DELETE", "/wallet/tx", err4xx}} {
		st := x.st
		if !a.wallet {
			st = is(404)
		}
		var same []ask
		for _, hd := range [][]string{nil, {"Pw: " + a.pw}, {"Pw: x" + a.pw}} {
			same = append(same, ask{name: "wallet", method: x.m, raw: wire(x.m, x.p, hd, ""), ok: st})
		}
		r.Shuffle(3, func(i, j int) { same[i], same[j] = same[j], same[i] })
		out = append(out, same)
	}
	out = append(out, []ask{{name: "version", method: "GET", raw: wire("GET", "/version", nil, ""), ok: is(200)}, {name: "version", method: "GET", raw: wire("GET", "/version", []string{"Pw: x"}, ""), ok: is(200)}})
	for _, p := range []string{"/", "/wallet", "/admin", "/flags", "/debug/vars", "/debug/pprof/cmdline", "/debug/pprof/", "/config", "/params"} {
		out = append(out, []ask{{name: "nowhere", method: "GET", raw: wire("GET", p, nil, ""), ok: func(st int) bool { return st == 404 || p == "/admin" && st == 401 }}})
	}
	return out
}

func (a *adm) exercise() {
	r := a.r
	st := a.strangers()
	harmless, telling := a.owner()
	r.Shuffle(len(st), func(i, j int) { st[i], st[j] = st[j], st[i] })
	for _, q := range st {
		a.send(q)
	}
	for _, w := range a.walletAsks() {
		if r.Intn(2) == 0 {
			a.send(w...)
		} else {
			for _, q := range w {
				a.send(q)
			}
		}
	}
	// on one connection: somebody known, then somebody unknown
	code := is(401)
	if !a.admin {
		code = is(404)
	}
	anon := ask{name: "after-right", method: "POST", raw: wire("POST", term, nil, ""), ok: code}
	for _, q := range harmless {
		a.send(q, anon)
		a.send(anon, q, anon)
	}
	// everything at once
	var wg sync.WaitGroup
	for k := 0; k < 12; k++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for j := 0; j < vlib.N(40, 150); j++ {
				switch rr.Intn(3) {
				case 0:
					a.send(harmless[rr.Intn(len(harmless))], anon)
				case 1:
					a.send(anon, anon, anon)
				default:
					a.send(st[rr.Intn(len(st))])
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(200 * time.Millisecond)
	a.calm("all of the requests without password or to the wrong place")
	_ = telling
}

// calm says that nobody was told to end more often than by the owner.
func (a *adm) calm(after string) {
	if a.bad.Load() {
		return
	}
	if int64(a.told()) > a.expect.Load() || !a.up() {
		a.fail("took-effect-late", "after %s the node was told to end", after)
		return
	}
	rep.Eval("calm")
}

var serverMu sync.Mutex

// serverAdmin: the real server in this process, with what it says on the bus observed.
func serverAdmin(i int, id string) {
	r := vlib.Rng("admin", id)
	p := vmodel.RandParams(r)
	b := bus.NewBus()
	sub := b.Terminate.Sub()
	n := vnode.NewOn(b, p, false, nil)
	a := &adm{id: id, r: r, pw: password(r), admin: i%4 != 1, wallet: i%3 != 2}
	var mu sync.Mutex
	got := 0
	a.told = func() int { mu.Lock(); defer mu.Unlock(); got += drain(sub); return got }
	a.up = func() bool { _, bad := n.Crashed(); return !bad }
	addr, ok := startServer(rest.NewParams(freePort(), a.admin, a.wallet, a.pw, r.Intn(2) == 0), b, n.Inv, func(any) {})
	a.addr = addr
	if !ok {
		rep.Inconclusive("%s: the server did not come up", id)
		return
	}
	a.exercise()
	_, telling := a.owner()
	anon := ask{name: "after-effect", method: "POST", raw: wire("POST", term, nil, ""), ok: is(401)}
	for k, q := range telling {
		switch k % 3 {
		case 0:
			a.send(q)
		case 1:
			a.send(anon, q)
		default:
			a.send(ask{name: "before", method: "GET", raw: wire("GET", "/version", nil, ""), ok: is(200)}, q)
		}
		if a.bad.Load() {
			return
		}
		a.send(anon)
	}
	a.calm("the owner's requests")
}

func drain(s topic.Sub[bus.TerminateCommand]) int {
	n := 0
	for {
		if _, ok := s.Pop(); !ok {
			return n
		}
		n++
	}
}

func waitUp(addr string, gone func() bool) bool {
	ok := false
	vlib.Eventually(60*time.Second, func() bool {
		if gone != nil && gone() {
			return true
		}
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err != nil {
			return false
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(5 * time.Second))
		io.WriteString(c, wire("GET", "/version", nil, ""))
		rs, err := http.ReadResponse(bufio.NewReader(c), nil)
		if err != nil {
			return false
		}
		io.Copy(io.Discard, rs.Body)
		ok = rs.StatusCode == 200
		return ok
	})
	return ok
}

func freePort() int { return vnode.FreePort() }

// realAdmin: the real program with its real flags.
func realAdmin(i int, id string) {
	r := vlib.Rng("real-admin", id)
	a := &adm{id: id, r: r, pw: password(r), admin: i%4 != 1 && i%7 != 6, wallet: i%3 != 2}
	if i%7 == 6 {
		a.wallet = i%2 == 0
	}
	port := freePort()
	a.addr = fmt.Sprintf("127.0.0.1:%d", port)
	args := []string{"--http", fmt.Sprint(port)}
	if r.Intn(2) == 0 {
		args[0] = "-http"
	}
	if r.Intn(3) > 0 {
		args = append(args, "--dev")
	} else {
		args = append(args, "--new-network")
	}
	flag := func(name string, on bool) {
		switch {
		case on:
			args = append(args, []string{"--" + name, "-" + name, "--" + name + "=true"}[r.Intn(3)])
		case r.Intn(2) == 0:
			args = append(args, "--"+name+"=false")
		}
	}
	flag("http-admin", a.admin)
	flag("http-wallet", a.wallet)
	if r.Intn(2) == 0 {
		args = append(args, "--admin-pw="+a.pw)
	} else {
		args = append(args, "--admin-pw", a.pw)
	}
	if r.Intn(3) == 0 {
		args = append(args, "--save-dir", filepath.Join(os.Getenv("VX_WORK"), fmt.Sprintf("adm-%d", i)))
	}
	if r.Intn(3) == 0 {
		args = append(args, "--listen", "--addr", vnode.FreshAddr())
	}
	if i%5 == 3 {
		args = append(args, "--miners", "1", "--payout", core.NewHashTRand().String())
	}
	cmd := exec.Command(filepath.Join(os.Getenv("VX_BIN"), "bcnode"), args...)
	cmd.Dir = os.Getenv("VX_WORK")
	var out tail
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		rep.Errorf("starting bcnode: %v", err)
		return
	}
	var gone atomic.Bool
	done := make(chan struct{})
	go func() { cmd.Wait(); gone.Store(true); close(done) }()
	defer func() { cmd.Process.Kill(); <-done }()
	a.up = func() bool { return !gone.Load() }
	a.told = func() int {
		if gone.Load() {
			return 1
		}
		return 0
	}
	if !a.admin && !a.wallet {
		// nothing at all may be there; knock for a while after the program has had time to start
		end := time.Now().Add(3 * time.Second)
		for time.Now().Before(end) {
			if c, err := net.DialTimeout("tcp", a.addr, time.Second); err == nil {
				c.Close()
				a.fail("disabled-listens", "with neither admin nor wallet endpoints enabled the program listens on its HTTP port")
				return
			}
			time.Sleep(100 * time.Millisecond)
		}
		if !a.up() {
			rep.Inconclusive("%s: the program did not stay up: %s", id, out.String())
			return
		}
		rep.Eval("nothing enabled")
		return
	}
	ok := waitUpOr(a.addr, a.up)
	if !ok {
		rep.Inconclusive("%s: the program did not come up: %s", id, out.String())
		return
	}
	a.exercise()
	if a.bad.Load() {
		return
	}
	rep.Count("real_programs", 1)
	if a.admin {
		_, telling := a.owner()
		q := telling[r.Intn(len(telling))]
		q.name = "real-" + q.name
		anon := ask{name: "before-end", method: "POST", raw: wire("POST", term, []string{"Pw: nope"}, ""), ok: is(401)}
		a.send(anon, q)
		if a.up() {
			a.fail("right-no-effect", "the right password did not end the program")
		}
	}
}

func waitUpOr(addr string, up func() bool) bool {
	for k := 0; k < 60; k++ {
		if !up() {
			return false
		}
		if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			c.Close()
			return waitUp(addr, func() bool { return !up() })
		}
		time.Sleep(200 * time.Millisecond)
	}
	return false
}

// tail keeps the last part of what a program prints.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 4000 {
		t.b = append([]byte{}, t.b[len(t.b)-2000:]...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }
