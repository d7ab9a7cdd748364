//go:build go1.22

package main

import (
	"bytes"
	"crypto/elliptic"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httputil"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
)

func cli() {
	scratch()
	fakeNodes()
	fillPool()
	rep.Parallel("cli", vlib.N(48, 400), 7, func(i int, id string) { newUser(i, id).live() })
	rep.Parallel("args", vlib.N(6, 20), 3, func(i int, id string) { badArgs(i, id) })
	rep.Parallel("sick", vlib.N(8, 40), 4, func(i int, id string) { newUser(i, id).sick() })
}

// user has a wallet connected through a recording relay to a real node on a small world.
type user struct {
	*hc
	wl    *wal
	own   []*vmodel.Key
	mine  map[H]bool
	relay string
	mu    sync.Mutex
	posts [][]byte
	gets  int
	fault func(w http.ResponseWriter, r *http.Request) bool
}

func newUser(i int, id string) *user {
	u := &user{mine: map[H]bool{}}
	u.hc = newHC(id, func(p *core.Params) {
		p.MaxTxVSize = core.DevNetParams().MaxTxVSize
		p.MaxBlockVSize = 60000
		p.BlockReward = []uint64{1000, 5000, 131072, 1 << 40, 5000, 1 << 53, 20000, 1 << 59}[i%8]
	})
	if u.dead.Load() {
		return u
	}
	u.wl = newWal("user-" + id)
	target, _ := url.Parse(u.url)
	px := httputil.NewSingleHostReverseProxy(target)
	px.ErrorLog = nil
	px.ErrorHandler = func(w http.ResponseWriter, r *http.Request, err error) { w.WriteHeader(502) }
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	u.relay = "http://" + l.Addr().String()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		r.Body = io.NopCloser(bytes.NewReader(body))
		u.mu.Lock()
		if r.Method != "GET" && r.Method != "HEAD" {
			u.posts = append(u.posts, body)
		} else {
			u.gets++
		}
		f := u.fault
		u.mu.Unlock()
		if f != nil && f(w, r) {
			return
		}
		px.ServeHTTP(w, r)
	}))
	u.w.Keys = append([]*vmodel.Key{}, u.w.Keys...)
	return u
}

func (u *user) drop() {
	if u.wl != nil {
		u.wl.drop()
	}
}

func (u *user) nPosts() int { u.mu.Lock(); defer u.mu.Unlock(); return len(u.posts) }

// bc runs a wallet command.
func (u *user) bc(h how, args ...string) res {
	r := u.wl.run(h, net2(true, args)...)
	rep.Count("commands", 1)
	return r
}

func (u *user) wrong(key string, args []string, r res, f string, a ...any) bool {
	if !u.alive("bcwallet " + strings.Join(args, " ")) {
		return false
	}
	if r.late {
		key, f, a = "does-not-end", "does not end", nil
	}
	u.fail(key, fmt.Sprintf("bcwallet %s: %s\n%s", vlib.Trunc(strings.Join(args, " "), 600), fmt.Sprintf(f, a...), r), nil)
	return false
}

func (u *user) adopt(k *vmodel.Key) {
	u.own = append(u.own, k)
	u.mine[k.Pkh] = true
	for _, x := range u.w.Keys {
		if x.Pkh == k.Pkh {
			return
		}
	}
	u.w.Keys = append(u.w.Keys, k, k) // more often paid than others
}

// setup: the first steps of a new user, through the commands.
func (u *user) setup() bool {
	r := u.r
	say := func(args ...string) (res, bool) {
		rs := u.bc(how{}, args...)
		if !rs.success() {
			return rs, u.wrong("refused:"+args[0], args, rs, "did not succeed though nothing is wrong")
		}
		return rs, true
	}
	rs, ok := say("version")
	if !ok {
		return false
	}
	if !contains(rs.lines(), "v0.0.0-dev") {
		return u.wrong("version", []string{"version"}, rs, "does not print its version")
	}
	if rs, ok = say("get-config-path"); !ok {
		return false
	}
	if !contains(rs.lines(), u.wl.path(true)) {
		return u.wrong("config-path", []string{"get-config-path"}, rs, "does not print the path of the wallet file (%s)", u.wl.path(true))
	}
	if rs := u.bc(how{}, "connect", deadUrl); rs.success() || rs.crashed() {
		return u.wrong("connect-dead", []string{"connect", deadUrl}, rs, "nothing is there, but it did not say so")
	}
	if rs := u.bc(how{}, "connect", fakeUrl[false]); rs.success() || rs.crashed() {
		return u.wrong("connect-other-version", []string{"connect", fakeUrl[false]}, rs, "a node of the other network, but it did not say so")
	}
	if rs, ok = say("connect", u.relay+[]string{"", "/"}[r.Intn(2)]); !ok {
		return false
	}
	for k := r.Intn(3); k >= 0; k-- {
		if rs, ok = say("generate"); !ok {
			return false
		}
		a := addrLine.FindString(rs.text())
		f, why := readWallet(u.wl.path(true))
		der := f.keys[a]
		p, err := x509.ParseECPrivateKey(der)
		if why != "" || err != nil {
			return u.wrong("generate", []string{"generate"}, rs, "the wallet file does not have the key (%s)", why)
		}
		pub, _ := x509.MarshalPKIXPublicKey(p.Public())
		u.adopt(&vmodel.Key{Priv: p, Pub: pub, Pkh: vmodel.HBytes(pub)})
	}
	if n := r.Intn(4); n > 0 {
		ks := []wkey{}
		for k := 0; k < n; k++ {
			key := u.w.Keys[k]
			ks = append(ks, keyJSON(key))
			u.adopt(key)
		}
		if r.Intn(4) == 0 { // a wallet of many keys
			for k := 60 + r.Intn(200); k > 0; k-- {
				key := vmodel.NewKey(elliptic.P256())
				ks = append(ks, keyJSON(key))
				u.adopt(key)
			}
			rep.Max("most_keys", int64(len(ks)))
		}
		p := filepath.Join(u.wl.home, "imp.json")
		u.wl.put(p, walletJSON(true, "", ks), 0600)
		if _, ok = say("import", p); !ok {
			return false
		}
	}
	return true
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- commands that print what the ledger contains ----

type asking struct {
	args []string
	ok   func(rs res) string
}

var reHash = regexp.MustCompile(`^[0-9a-f]{64}$`)

func pairs(rs res) (map[string]string, string) {
	out := map[string]string{}
	for _, l := range rs.lines() {
		if l == "" || l == "success" {
			continue
		}
		k, v, ok := strings.Cut(l, "\t")
		if !ok {
			return nil, "odd line " + l
		}
		if _, twice := out[k]; twice && v != "not known" && v != "not included" {
			return nil, "printed twice: " + l
		}
		out[k] = v
	}
	return out, ""
}

func same(got, exp map[string]string) string {
	for k, v := range exp {
		if got[k] != v {
			return fmt.Sprintf("%s should be printed with %q, not %q", k, v, got[k])
		}
	}
	for k, v := range got {
		if _, ok := exp[k]; !ok {
			return fmt.Sprintf("%s %q should not be printed", k, v)
		}
	}
	return ""
}

func hexArg(r *rand.Rand, h H) string {
	if r.Intn(10) == 0 {
		return strings.ToUpper(h.String())
	}
	return h.String()
}

func (u *user) asks(s *state) []asking {
	r := u.r
	pk, txs, ms, bl := u.ids()
	var out []asking
	cmd := func(name string, ids []H, ok func(res) string) {
		a := []string{name}
		for _, h := range ids {
			a = append(a, hexArg(r, h))
		}
		out = append(out, asking{a, ok})
	}
	need := func(f func(res) string) func(res) string {
		return func(rs res) string {
			if !rs.success() {
				return "did not succeed though nothing is wrong"
			}
			return f(rs)
		}
	}
	mine := []H{}
	for _, k := range u.own {
		mine = append(mine, k.Pkh)
	}
	mix := func(from []H, n int) []H {
		a := pick(r, from, n)
		if r.Intn(2) == 0 || len(a) == 0 {
			a = append(a, u.w.RandH())
		}
		if r.Intn(4) == 0 {
			for _, o := range [][]H{pk, txs, ms, bl} {
				a = append(a, pick(r, o, 1)...)
			}
		}
		r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
		return a
	}
	bal := func(ids []H) func(res) string {
		return need(func(rs res) string {
			got, why := pairs(rs)
			if why != "" {
				return why
			}
			exp := map[string]string{}
			t := new(big.Int)
			for _, h := range ids {
				if _, ok := exp[h.String()]; !ok {
					t.Add(t, new(big.Int).SetUint64(s.bal[h]))
				}
				exp[h.String()] = fmt.Sprint(s.bal[h])
			}
			exp["total"] = t.String()
			return same(got, exp)
		})
	}
	utx := func(ids []H) func(res) string {
		return need(func(rs res) string {
			got, why := pairs(rs)
			if why != "" {
				return why
			}
			exp := map[string]string{}
			for x, p := range s.led.Utxos {
				for _, h := range ids {
					if h == p {
						exp[fmt.Sprintf("%s[%d]", x.TxId, x.Ind)] = fmt.Sprint(x.Value)
					}
				}
			}
			return same(got, exp)
		})
	}
	cmd("balance", nil, bal(mine))
	cmd("utxos", nil, utx(mine))
	for k := 0; k < 2; k++ {
		a := mix(pk, 1+r.Intn(5))
		cmd("balance", a, bal(a))
		b := mix(pk, 1+r.Intn(5))
		cmd("utxos", b, utx(b))
		cf := mix(txs, 1+r.Intn(4))
		cmd("tx-confirms", cf, need(func(rs res) string {
			got, why := pairs(rs)
			if why != "" {
				return why
			}
			exp := map[string]string{}
			for _, h := range cf {
				exp[h.String()] = "not known"
				if _, ok := s.known[h]; ok {
					n, _, _ := s.inc(h)
					exp[h.String()] = fmt.Sprint(n)
				}
			}
			return same(got, exp)
		}))
		ib := mix(txs, 1+r.Intn(4))
		cmd("tx-block", ib, need(func(rs res) string {
			got, exp := map[string]string{}, map[string]string{}
			ls := rs.lines()
			for i := 0; i < len(ls); i++ {
				switch {
				case reHash.MatchString(ls[i]) && i+1 < len(ls) && strings.HasPrefix(ls[i+1], "\t"):
					got[ls[i]] = ls[i+1][1:]
					i++
				case strings.HasSuffix(ls[i], "\tnot included"):
					got[strings.TrimSuffix(ls[i], "\tnot included")] = "not included"
				case ls[i] != "success" && ls[i] != "":
					return "odd line " + ls[i]
				}
			}
			for _, h := range ib {
				exp[h.String()] = "not included"
				if _, b, ok := s.inc(h); ok {
					exp[h.String()] = b.String()
				}
			}
			return same(got, exp)
		}))
		gt := mix(txs, 1+r.Intn(3))
		out = append(out, u.entity("get-tx", gt, func(h H) any {
			if t, ok := s.known[h]; ok {
				return txJSON(t)
			}
			return nil
		}))
		gm := mix(ms, 1+r.Intn(3))
		out = append(out, u.entity("get-merkle", gm, func(h H) any {
			if t, ok := u.mk[h]; ok {
				return merkleJSON(t)
			}
			return nil
		}))
		gb := mix(bl, 1+r.Intn(3))
		out = append(out, u.entity("get-block", gb, func(h H) any {
			for _, x := range bl {
				if x == h {
					return blockJSON(u.w.BunBy[h].Block)
				}
			}
			return nil
		}))
	}
	for _, n := range []string{"", fmt.Sprint(r.Intn(len(s.bal) + 3)), []string{"1", "1000000", "9223372036854775808", "18446744073709551615"}[r.Intn(4)]} {
		args := []string{"rich-list"}
		m := uint64(10)
		if n != "" {
			args = append(args, n)
			m, _ = strconv.ParseUint(n, 10, 64)
		}
		out = append(out, asking{args, func(rs res) string {
			some := 0
			for _, b := range s.bal {
				if b > 0 {
					some++
				}
			}
			if some == 0 || m == 0 {
				if rs.success() && strings.TrimSpace(strings.TrimSuffix(rs.text(), "success\n")) != "" {
					return "nobody should be listed"
				}
				return ""
			}
			return need(func(rs res) string {
				got, why := pairs(rs)
				if why != "" {
					return why
				}
				rl := map[string]json.Number{}
				for k, v := range got {
					rl[k] = json.Number(v)
				}
				b, _ := json.Marshal(map[string]any{"RichList": rl})
				return s.rich(m)(200, b)
			})(rs)
		}})
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// entity is one of the get- commands.
func (u *user) entity(name string, ids []H, exp func(H) any) asking {
	args := []string{name}
	any1 := false
	for _, h := range ids {
		args = append(args, hexArg(u.r, h))
		any1 = any1 || exp(h) != nil
	}
	return asking{args, func(rs res) string {
		if !any1 {
			if strings.Contains(rs.text(), "{") {
				return "something unknown was printed"
			}
			return ""
		}
		if !rs.success() {
			return "did not succeed though nothing is wrong"
		}
		got := map[string]any{}
		ls := rs.lines()
		for i := 0; i < len(ls); i++ {
			l := ls[i]
			switch {
			case len(l) == 65 && l[64] == ':' && reHash.MatchString(l[:64]):
				var js []string
				for i+1 < len(ls) && (ls[i+1] == "{" || ls[i+1] == "}" || strings.HasPrefix(ls[i+1], " ")) {
					i++
					js = append(js, ls[i])
				}
				d := json.NewDecoder(strings.NewReader(strings.Join(js, "\n")))
				d.UseNumber()
				var v any
				if err := d.Decode(&v); err != nil {
					return "not JSON: " + err.Error()
				}
				got[l[:64]] = noNull(v)
			case strings.HasSuffix(l, "\tnot known"):
				got[strings.TrimSuffix(l, "\tnot known")] = "not known"
			case l != "success" && l != "":
				return "odd line " + l
			}
		}
		want := map[string]any{}
		for _, h := range ids {
			if want[h.String()] = exp(h); want[h.String()] == nil {
				want[h.String()] = "not known"
			}
		}
		if !reflect.DeepEqual(got, want) {
			b, _ := json.Marshal(want)
			return "should print " + vlib.Trunc(string(b), 1200)
		}
		return ""
	}}
}

func (u *user) reads() bool {
	s := u.at(u.head)
	list := u.asks(s)
	before := u.nPosts()
	var wg sync.WaitGroup
	ch := make(chan asking)
	for k := 0; k < 3; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := range ch {
				if u.dead.Load() {
					continue
				}
				rs := u.bc(how{}, q.args...)
				if rs.late || rs.crashed() {
					u.wrong("crash:"+q.args[0], q.args, rs, "crashed")
				} else if why := q.ok(rs); why != "" {
					u.wrong("prints:"+q.args[0], q.args, rs, "%s", why)
				}
				rep.Eval(fmt.Sprintf("read/%s/%d/%v", q.args[0], min(len(q.args), 5), rs.success()))
			}
		}()
	}
	for _, q := range list {
		ch <- q
	}
	close(ch)
	wg.Wait()
	if u.nPosts() != before {
		u.fail("read-posts", "a command that only looks sent something", nil)
	}
	return !u.dead.Load()
}

// ---- sending ----

var reSend = regexp.MustCompile(`(?s)outputs: (\d+)\nfees: (\d+) : [^\n]*\ntotal debit: (\d+)\n`)
var reCons = regexp.MustCompile(`(?s)inputs: (\d+)\noutputs: (\d+)\nfees: (\d+) : [^\n]*\n`)

func (u *user) free() (avail map[core.Utxo]H, total, largest uint64) {
	s := u.at(u.head)
	avail = map[core.Utxo]H{}
	for x, p := range s.led.Utxos {
		if u.mine[p] && !s.mayOff[x] {
			avail[x] = p
			total += x.Value
			largest = max(largest, x.Value)
		}
	}
	return
}

type pay struct {
	to  H
	val uint64
	arg string
}

// send runs one send (or consolidate) and judges it. Between question and answer meanwhile runs.
func (u *user) send(list []pay, cons bool, answer string, meanwhile func()) bool {
	args := []string{"send"}
	sum := new(big.Int)
	listed := map[H]uint64{}
	for _, p := range list {
		args = append(args, p.arg)
		sum.Add(sum, new(big.Int).SetUint64(p.val))
		listed[p.to] += p.val
	}
	if cons {
		args = []string{"consolidate"}
	}
	u.note("bcwallet %s, answer %q", vlib.Trunc(strings.Join(args, " "), 400), answer)
	avail, total, largest := u.free()
	before := u.nPosts()
	had := map[H]bool{}
	for id := range u.known {
		had[id] = true
	}
	stateBefore := u.at(u.head)
	var h how
	if meanwhile == nil {
		h.stdin = strings.NewReader(answer)
	} else {
		once := false
		h.watch = func(out string, in io.WriteCloser) {
			if strings.Contains(out, "confirm? ") && !once {
				once = true
				meanwhile()
				io.WriteString(in, answer)
				in.Close()
			}
		}
	}
	rs := u.bc(h, args...)
	if rs.late {
		return u.wrong("late", args, rs, "")
	}
	if !u.alive("send") {
		return false
	}
	u.mu.Lock()
	posts := append([][]byte{}, u.posts[before:]...)
	u.mu.Unlock()
	yes := answer == "y\n" || answer == "Y\n"
	asked := strings.Contains(rs.text(), "confirm? ")
	kind := "send"
	if cons {
		kind = "consolidate"
	}
	sig := fmt.Sprintf("%s/%d/asked=%v/%q/%v", kind, min(len(list), 4), asked, answer, rs.success())
	if rs.crashed() && !(asked && !strings.Contains(answer, "\n")) {
		return u.wrong("crash:"+kind, args, rs, "crashed")
	}
	if !asked {
		if len(posts) > 0 {
			return u.wrong("sent-unasked", args, rs, "something was sent without asking")
		}
		if rs.success() {
			return u.wrong("success-unasked", args, rs, "reports success without having asked")
		}
		fee := new(big.Int).SetUint64(uint64(400 + 40*len(list)))
		if !cons && len(list) < 300 && sum.Cmp(new(big.Int).SetUint64(largest)) < 0 && fee.Add(fee, sum).Cmp(new(big.Int).SetUint64(largest)) <= 0 {
			return u.wrong("refused-possible", args, rs, "one output of %d alone could pay %s, but it refuses", largest, sum)
		}
		rep.Eval(sig)
		rep.Count("refused_sends", 1)
		return true
	}
	// what it says it will do
	var said struct{ in, out, fee, debit uint64 }
	num := func(s string) uint64 { v, _ := strconv.ParseUint(s, 10, 64); return v }
	if cons {
		m := reCons.FindStringSubmatch(rs.text())
		if m == nil {
			return u.wrong("says", args, rs, "does not say what it is about to do")
		}
		said.in, said.out, said.fee = num(m[1]), num(m[2]), num(m[3])
		if said.in != said.out+said.fee {
			return u.wrong("says-sum", args, rs, "the numbers do not add up")
		}
	} else {
		m := reSend.FindStringSubmatch(rs.text())
		if m == nil {
			return u.wrong("says", args, rs, "does not say what it is about to do")
		}
		said.out, said.fee, said.debit = num(m[1]), num(m[2]), num(m[3])
		if new(big.Int).SetUint64(said.out).Cmp(sum) != 0 {
			return u.wrong("says-outputs", args, rs, "the listed pairs come to %s, it says %d", sum, said.out)
		}
		if said.debit != said.out+said.fee || said.debit > total {
			return u.wrong("says-debit", args, rs, "the numbers do not add up (available: %d)", total)
		}
	}
	if !yes {
		if len(posts) > 0 || rs.success() {
			return u.wrong("declined-sent", args, rs, "declined with %q, but sent (or reported as done)", answer)
		}
		rep.Eval(sig)
		rep.Count("declined", 1)
		return true
	}
	if len(posts) != 1 {
		return u.wrong("posts", args, rs, "confirmed once, but %d transactions were sent", len(posts))
	}
	// the node's word
	var ids []H
	_, rest, _ := strings.Cut(rs.text(), "confirm? ")
	for _, l := range regexp.MustCompile(`[0-9a-fA-F]{64}`).FindAllString(rest, -1) {
		h, _ := core.NewHashTFromString(l)
		ids = append(ids, h)
	}
	if !rs.success() {
		var t core.Tx
		if err := json.Unmarshal(posts[0], &t); err != nil {
			return u.wrong("posted-garbage", args, rs, "what was sent is not a transaction: %v", err)
		}
		id := vmodel.TxID(t)
		if u.n.Inv.HasTx(id) && !had[id] {
			return u.wrong("failed-but-sent", args, rs, "reported as failed, but the node took the transaction %s", id)
		}
		if meanwhile == nil {
			return u.wrong("refused-by-node", args, rs, "the node refused the transaction though nothing changed")
		}
		rep.Eval(sig + "/overtaken")
		rep.Count("overtaken", 1)
		return true
	}
	if len(ids) != 1 || !u.n.Inv.HasTx(ids[0]) {
		return u.wrong("success-not-there", args, rs, "reports success, but the node does not have the transaction")
	}
	t := u.n.Inv.GetTx(ids[0])
	if vmodel.TxID(t) != ids[0] {
		return u.wrong("id", args, rs, "another id is printed than that of the transaction")
	}
	in, out := new(big.Int), map[H]*big.Int{}
	for _, i := range t.Inputs {
		if _, ok := avail[i.Utxo]; !ok && meanwhile == nil {
			why := "is not the wallet's"
			if p, ok := stateBefore.led.Utxos[i.Utxo]; ok && u.mine[p] {
				why = "is being spent already"
			}
			return u.wrong("input", args, rs, "it spends %v, which %s", i.Utxo, why)
		}
		in.Add(in, new(big.Int).SetUint64(i.Utxo.Value))
	}
	o := new(big.Int)
	for _, x := range t.Outputs {
		if out[x.PublicKeyHash] == nil {
			out[x.PublicKeyHash] = new(big.Int)
		}
		out[x.PublicKeyHash].Add(out[x.PublicKeyHash], new(big.Int).SetUint64(x.Value))
		o.Add(o, new(big.Int).SetUint64(x.Value))
	}
	if fee := new(big.Int).Sub(in, o); fee.Cmp(new(big.Int).SetUint64(said.fee)) != 0 {
		return u.wrong("fee", args, rs, "the fee is %s, it said %d", fee, said.fee)
	}
	if cons {
		for p := range out {
			if !u.mine[p] {
				return u.wrong("consolidate-elsewhere", args, rs, "it pays %s, which is not the wallet's", p)
			}
		}
		if in.Cmp(new(big.Int).SetUint64(said.in)) != 0 || len(t.Outputs) >= len(t.Inputs) {
			return u.wrong("consolidate-does", args, rs, "it spends %s in %d outputs for %d", in, len(t.Inputs), len(t.Outputs))
		}
	} else {
		change := new(big.Int)
		for p, v := range listed {
			have := out[p]
			if have == nil {
				have = new(big.Int)
			}
			rest := new(big.Int).Sub(have, new(big.Int).SetUint64(v))
			if rest.Sign() < 0 || (rest.Sign() > 0 && !u.mine[p]) {
				return u.wrong("credit", args, rs, "%s is credited %s, listed were %d", p, have, v)
			}
			change.Add(change, rest)
			delete(out, p)
		}
		for p, v := range out {
			if !u.mine[p] && v.Sign() > 0 {
				return u.wrong("credit-stranger", args, rs, "%s, which was not listed, is credited %s", p, v)
			}
			change.Add(change, v)
		}
		if d := new(big.Int).Sub(in, change); d.Cmp(new(big.Int).SetUint64(said.debit)) != 0 {
			return u.wrong("debit", args, rs, "it debits %s, it said %d", d, said.debit)
		}
	}
	if v, why := u.w.All.CheckTx(t); v != vmodel.OK {
		return u.wrong("illegal", args, rs, "the transaction sent is not legal: %s", why)
	}
	if meanwhile == nil && t.MinBlock > stateBefore.height+1 {
		return u.wrong("not-yet", args, rs, "the transaction sent cannot go into the next block (%d), only into %d or later", stateBefore.height+1, t.MinBlock)
	}
	if !had[ids[0]] {
		u.w.All.AddTx(t)
	}
	u.known[ids[0]] = t
	u.must[ids[0]] = true
	rep.Eval(sig)
	rep.Count("confirmed", 1)
	rep.Count("confirmed_outputs", int64(len(t.Outputs)))
	return true
}

func (u *user) payments() []pay {
	r := u.r
	_, total, largest := u.free()
	pool := []H{}
	for _, k := range u.w.Keys {
		pool = append(pool, k.Pkh)
	}
	for k := 0; k < 4; k++ {
		pool = append(pool, u.w.RandH())
	}
	n := []int{1, 1, 1, 2, 2, 3, 5, 12, 40}[r.Intn(9)]
	budget := []uint64{largest / 2, largest / 2, largest/2 + 1, total / 2, total - total/20, total, total + 1, largest, 1000}[r.Intn(9)]
	if largest > 2000 && r.Intn(4) > 0 {
		budget = uint64(r.Int63n(int64(min(largest-1900, 1<<62))))
	}
	var list []pay
	var last H
	for k := 0; k < n; k++ {
		to := pool[r.Intn(len(pool))]
		if k > 0 && r.Intn(3) == 0 {
			to = last // the same address again
		}
		last = to
		v := budget / uint64(n)
		if v > 2 {
			v = uint64(r.Int63n(int64(min(v, 1<<62)))) + 1
		}
		if r.Intn(20) == 0 {
			v = 0
		}
		if r.Intn(60) == 0 {
			v = []uint64{1<<64 - 1, 1 << 63, 1<<64 - 5}[r.Intn(3)]
		}
		a := to.String()
		if r.Intn(6) == 0 {
			a = strings.ToUpper(a)
		}
		vs := fmt.Sprint(v)
		if r.Intn(12) == 0 {
			vs = "00" + vs
		}
		list = append(list, pay{to, v, a + ":" + vs})
	}
	return list
}

// overtake makes the chain move, spending some of what the wallet is about to spend.
func (u *user) overtake() {
	avail, _, _ := u.free()
	var ts []core.Tx
	if t, ok := u.w.RandTx(avail, u.w.All.Blocks[u.head].Height+1); ok {
		ts = append(ts, t)
	}
	b := u.w.NextBlock(u.head, ts, 1)
	u.w.Register(b)
	if l := u.w.Led[b.Id]; l != nil && l.Err == "" {
		u.give(b.Id, []*vmodel.Bundle{b})
	}
}

func (u *user) live() {
	defer u.drop()
	if u.dead.Load() {
		return
	}
	r := u.r
	if !u.setup() {
		return
	}
	if r.Intn(2) == 0 && !u.reads() {
		return
	}
	for k := 0; k < 6+r.Intn(4) && !u.dead.Load(); k++ {
		if !u.step() && u.dead.Load() {
			return
		}
		if u.w.All.Blocks[u.head].Height >= 14 {
			break
		}
		if r.Intn(3) == 0 && !u.reads() {
			return
		}
		for j := r.Intn(5); j > 0; j-- {
			ans := []string{"y\n", "y\n", "y\n", "Y\n", "n\n", "N\n", "\n", "no\n", "q\n", ""}[r.Intn(10)]
			var mw func()
			if r.Intn(6) == 0 {
				mw = u.overtake
			}
			if !u.send(u.payments(), r.Intn(7) == 0, ans, mw) {
				return
			}
			if u.dead.Load() {
				return
			}
		}
	}
	if !u.dead.Load() {
		u.reads()
	}
	rep.Count("lives", 1)
}

// sick: the node answers badly. The wallet says so; nothing is sent, nothing crashes.
func (u *user) sick() {
	defer u.drop()
	if u.dead.Load() || !u.setup() {
		return
	}
	r := u.r
	for k := 0; k < 5; k++ {
		u.step()
	}
	if u.dead.Load() {
		return
	}
	_, txs, ms, bl := u.ids()
	h := u.w.RandH().String()
	for _, l := range [][]H{txs, ms, bl} {
		if len(l) > 0 && r.Intn(2) == 0 {
			h = l[0].String()
		}
	}
	cmds := [][]string{{"balance"}, {"utxos"}, {"send", u.w.RandH().String() + ":1"}, {"consolidate"}, {"tx-confirms", h}, {"tx-block", h}, {"get-tx", h}, {"get-merkle", h}, {"get-block", h}, {"rich-list"}, {"connect", u.relay}}
	bodies := []string{"", "{", "null", "[]", "5", "\"x\"", "{\"balances\":5}", "{\"balances\":{\"zz\":1}}", "{\"utxos\":[{}]}", "{\"utxos\":[{\"utxo\":{\"txId\":\"zz\"}}]}", "{\"txs\":{\"" + h + "\":null}}", "{\"txs\":[1]}",
		"{\"confirms\":{\"" + h + "\":-1}}", "{\"blocks\":{\"" + h + "\":{}}}", "{\"merkles\":{\"" + h + "\":7}}", "{\"richList\":{\"" + h + "\":1e99}}", "<html>", strings.Repeat("{\"a\":", 20000), "-5", "99999999999999999999", h}
	for k := 0; k < vlib.N(24, 80) && !u.dead.Load(); k++ {
		cmd := cmds[r.Intn(len(cmds))]
		at := []string{"/version", "/wallet", "/wallet", "/wallet", "/head/height", "utxos"}[r.Intn(6)]
		fate := r.Intn(4)
		code := []int{500, 404, 400, 503, 301, 204, 401}[r.Intn(7)]
		body := bodies[r.Intn(len(bodies))]
		hit := false
		u.mu.Lock()
		u.fault = func(w http.ResponseWriter, q *http.Request) bool {
			if !strings.Contains(q.URL.Path, at) || q.Method == "POST" {
				return false
			}
			u.mu.Lock()
			hit = true
			u.mu.Unlock()
			switch fate {
			case 0:
				w.WriteHeader(code)
			case 1:
				io.WriteString(w, body)
			case 2:
				if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
					c.Close()
				}
			default:
				w.Header().Set("Content-Length", "1000")
				io.WriteString(w, body)
			}
			return true
		}
		u.mu.Unlock()
		before := u.nPosts()
		rs := u.bc(how{stdin: strings.NewReader("n\n")}, cmd...)
		u.mu.Lock()
		u.fault = nil
		was := hit
		u.mu.Unlock()
		if !was {
			continue
		}
		what := fmt.Sprintf("the node answered %s badly (%d: %d %q)", at, fate, code, vlib.Trunc(body, 60))
		switch {
		case rs.late:
			u.wrong("late", cmd, rs, "")
			return
		case rs.crashed():
			u.wrong("sick-crash:"+cmd[0], cmd, rs, "%s: crashed", what)
			return
		case fate != 1 && rs.success():
			u.wrong("sick-success:"+cmd[0], cmd, rs, "%s: reports success", what)
			return
		case u.nPosts() != before:
			u.wrong("sick-sent:"+cmd[0], cmd, rs, "%s: sent something", what)
			return
		}
		rep.Eval(fmt.Sprintf("sick/%s/%s/%d", cmd[0], at, fate))
		rep.Count("sick_answers", 1)
	}
	if _, why := readWallet(u.wl.path(true)); why != "" && !u.dead.Load() {
		u.fail("sick-wallet", why, nil)
	}
}

// badArgs: command lines that make no sense get a message.
func badArgs(i int, id string) {
	u := newUser(i, id)
	defer u.drop()
	if u.dead.Load() {
		return
	}
	connected := i%3 != 2
	if connected {
		if !u.setup() {
			return
		}
		for k := 0; k < 4; k++ {
			u.step()
		}
		if u.dead.Load() {
			return
		}
	}
	r := u.r
	good := u.w.RandH().String()
	bad := []string{"", "zz", good[:63], good + "0", good[:62] + "zz", "0x" + good[2:], strings.Repeat("g", 64), strings.Repeat("é", 32), " " + good[1:], good[:63] + "\n", "-1", "--help", "null", strings.Repeat("a", 5000), "%00", "\x01"}
	var list [][]string
	raw := [][]string{{}, {"dev"}, {""}, {"dev", ""}, {"dev", "dev"}, {"nonsense"}, {"dev", "nonsense", "x"}, {"-h"}, {"--help"}, {"dev", "-x"}}
	for _, c := range []string{"import", "connect", "send", "tx-confirms", "tx-block", "get-tx", "get-merkle", "get-block"} {
		list = append(list, []string{c})
	}
	for _, b := range bad {
		for _, c := range []string{"balance", "utxos", "tx-confirms", "tx-block", "get-tx", "get-merkle", "get-block"} {
			if r.Intn(3) == 0 {
				list = append(list, []string{c, b})
			}
			if r.Intn(3) == 0 {
				list = append(list, []string{c, good, b})
			}
		}
		if r.Intn(2) == 0 {
			list = append(list, []string{"send", b + ":1"})
		}
		if r.Intn(2) == 0 {
			list = append(list, []string{"send", good + ":1", b})
		}
		list = append(list, []string{"connect", b})
	}
	for _, v := range []string{"", "-1", "1.5", "abc", "1e3", "0x5", " 5", "5 ", "18446744073709551616", "99999999999999999999999", "5:6", "+5", "５"} {
		list = append(list, []string{"send", good + ":" + v})
	}
	list = append(list, []string{"send", good}, []string{"send", ":"}, []string{"send", "::"}, []string{"send", ":5"}, []string{"send", good + ":18446744073709551615", good + ":5"}, []string{"send", good + ":18446744073709551615", u.w.RandH().String() + ":1"})
	for _, v := range []string{"-1", "abc", "1e3", "", "18446744073709551616", "0x1", "1.0"} {
		list = append(list, []string{"rich-list", v})
	}
	for _, v := range []string{"g", "xyz", "0x", "A", "aZ", " ", "-", "é", strings.Repeat("a", 65), strings.Repeat("0", 100), "0\n"} {
		list = append(list, []string{"generate", v})
	}
	maybe := map[string]bool{}
	for k := 0; k < 12; k++ {
		o := &owner{id: id, r: r, w: u.wl}
		p, ks, kind := o.importFile(k)
		if kind != "good" && ks == nil {
			list = append(list, []string{"import", p})
			maybe[p] = kind == "odd" || kind == "altered" // an empty list, or a change in a part that does not matter
		}
	}
	list = append(list, []string{"import", ""}, []string{"import", "/"}, []string{"import", strings.Repeat("x", 5000)}, []string{"import", "/dev/null"}, []string{"import", "a\x01b"})
	for _, c := range []string{"", "http", "http://", "://", "http://127.0.0.1:99999", "ftp://127.0.0.1", "127.0.0.1:1", "http://[::1", deadUrl, fakeUrl[false], "http://\x7f"} {
		list = append(list, []string{"connect", c})
	}
	for _, l := range list {
		raw = append(raw, append([]string{"dev"}, l...))
	}
	raw = append(raw, []string{"nonsense"})
	before := u.nPosts()
	took := 0
	f0, _ := readWallet(u.wl.path(true))
	for _, a := range raw {
		ok := true
		for _, x := range a {
			if strings.Contains(x, "\x00") {
				ok = false
			}
		}
		if len(a) > 0 && a[0] != "dev" && len(a) > 1 || !ok || u.dead.Load() {
			continue
		}
		if (len(a) == 0 || a[0] != "dev") && !connectedProd(u) {
			continue
		}
		began := time.Now()
		rs := u.wl.run(how{stdin: strings.NewReader("n\n"), limit: 60 * time.Second}, a...)
		rep.Count("commands", 1)
		verb := "none"
		if len(a) > 1 {
			verb = a[1]
		}
		switch {
		case rs.late && verb == "generate":
			u.fail("hang:generate", fmt.Sprintf("bcwallet %q goes on for ever instead of saying that there is no such address", vlib.Trunc(fmt.Sprint(a), 200)), nil)
		case rs.late:
			u.wrong("late", a, rs, "")
		case rs.crashed():
			u.wrong("crash:"+verb, a, rs, "crashed")
		case rs.success() && verb != "connect" && !(verb == "import" && len(a) > 2 && maybe[a[2]]):
			u.wrong("accepted:"+verb, a, rs, "reports success")
		case strings.TrimSpace(rs.text()) == "":
			u.wrong("silent:"+verb, a, rs, "says nothing")
		}
		if rs.success() && verb == "import" {
			took++
		}
		if len(verb) > 20 {
			verb = "long"
		}
		rep.Eval(fmt.Sprintf("args/%q/%d/%v", verb, len(a), connected))
		if d := time.Since(began); d > time.Second && os.Getenv("VX_LOG") != "" {
			fmt.Fprintln(os.Stderr, "slow", d, a)
		}
	}
	if u.dead.Load() {
		return
	}
	if u.nPosts() != before {
		u.fail("args-sent", "a command line that makes no sense sent something", nil)
	}
	f1, why := readWallet(u.wl.path(true))
	lost := false
	for a, der := range f0.keys {
		lost = lost || !bytes.Equal(f1.keys[a], der)
	}
	if why != "" || lost || len(f1.keys) > len(f0.keys)+took*3 {
		u.fail("args-keys", fmt.Sprintf("command lines that make no sense changed the keys of the wallet (%s)", why), nil)
	}
	// help always helps
	names := []string{"version", "get-config-path", "import", "connect", "generate", "balance", "utxos", "send", "consolidate", "tx-confirms", "tx-block", "get-tx", "get-merkle", "get-block", "rich-list"}
	sort.Strings(names)
	rs := u.wl.run(how{}, "dev", "help")
	for _, n := range names {
		if !strings.Contains(rs.text(), n) {
			u.wrong("help", []string{"help"}, rs, "does not mention %s", n)
			return
		}
		x := u.wl.run(how{}, "dev", n, "help")
		if x.crashed() || !strings.Contains(x.text(), n) {
			u.wrong("help", []string{n, "help"}, x, "does not help")
			return
		}
		rep.Eval("help/" + n)
	}
}

// connectedProd makes sure that the main network's wallet asks nobody on the internet.
func connectedProd(u *user) bool {
	if f, why := readWallet(u.wl.path(false)); why == "" && f.absent {
		u.wl.put(u.wl.path(false), walletJSON(false, deadUrl, nil), 0600)
	}
	return true
}
