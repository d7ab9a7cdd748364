//go:build go1.22

package main

import (
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/levilutz/basiccoin/internal/rest/client"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/internal/verifx/vwire"
	"github.com/levilutz/basiccoin/pkg/core"
)

// program runs the real node program with its options: what it then does towards its peers, its directory and its HTTP port is compared with
// what the options say. The chains of the development and production networks it is given were mined once (ck_gen) and are kept in /verif/data.
func program() {
	var wg sync.WaitGroup
	side := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	side(func() {
		rep.Parallel("found-addr", vlib.N(3, 12), 1, func(i int, id string) { newPg(i, id).foundAddr() })
	})
	side(func() { rep.Parallel("solo", vlib.N(1, 5), 1, func(i int, id string) { newPg(i, id).solo() }) })
	side(func() { rep.Parallel("mine", vlib.N(2, 10), 2, func(i int, id string) { newPg(i, id).mine() }) })
	side(func() { rep.Parallel("options", vlib.N(1, 4), 1, func(i int, id string) { newPg(i, id).options() }) })
	side(func() { rep.Parallel("seeds", vlib.N(14, 120), 7, func(i int, id string) { newPg(i, id).seeds() }) })
	rep.Parallel("follow", vlib.N(24, 240), 6, func(i int, id string) { newPg(i, id).follow() })
	wg.Wait()
}

// slow is how long anything that takes a moment may take.
const slow = 60 * time.Second

type pg struct {
	i     int
	id    string
	r     *rand.Rand
	dev   bool
	p     core.Params
	w     *vmodel.World
	procs []*proc
	bad   atomic.Bool
}

func newPg(i int, id string) *pg {
	return &pg{i: i, id: id, r: vlib.Rng("program", id)}
}

func (g *pg) network(dev bool) {
	g.dev = dev
	name := "devnet.json"
	g.p = core.DevNetParams()
	if !dev {
		name, g.p = "prodnet.json", core.ProdNetParams()
	}
	w, err := vmodel.LoadFixture(name, g.p, g.r)
	if err != nil {
		panic(err)
	}
	for _, id := range w.Order {
		if e := w.Led[id].Err; e != "" {
			panic(e)
		}
	}
	g.w = w
}

func (g *pg) fail(key, f string, a ...any) {
	if g.bad.Swap(true) {
		return
	}
	d := map[string]any{}
	for i, p := range g.procs {
		d[fmt.Sprintf("program %d", i)] = strings.Join(p.args, " ")
		d[fmt.Sprintf("output %d", i)] = p.out.String()
	}
	rep.Violate(key, g.id, fmt.Sprintf(f, a...), d)
}

func (g *pg) end() {
	for _, p := range g.procs {
		p.kill()
	}
}

// proc is one run of the node program.
type proc struct {
	args []string
	cmd  *exec.Cmd
	out  tail
	gone atomic.Bool
	done chan struct{}
	url  string
	dev  bool
}

func (g *pg) launch(args ...string) *proc {
	p := &proc{args: args, done: make(chan struct{}), dev: g.dev}
	p.cmd = exec.Command(filepath.Join(os.Getenv("VX_BIN"), "bcnode"), args...)
	p.cmd.Dir = g.dir("cwd")
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	g.procs = append(g.procs, p)
	rep.Count("programs_started", 1)
	go func() { p.cmd.Wait(); p.gone.Store(true); close(p.done) }()
	for k, a := range args {
		if a == "--http" && k+1 < len(args) {
			p.url = "http://127.0.0.1:" + args[k+1]
		}
	}
	return p
}

func (p *proc) kill() { p.cmd.Process.Signal(syscall.SIGKILL); <-p.done }

func (g *pg) dir(name string) string {
	d := filepath.Join(os.Getenv("VX_WORK"), strings.ReplaceAll(g.id, ":", "-"), name)
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

func version(dev bool) string {
	if dev {
		return "v0.0.0-dev"
	}
	return "v0.0.0"
}

// up waits for the HTTP server and checks the version it claims.
func (g *pg) up(p *proc) *client.WalletClient {
	var got string
	if !vlib.Eventually(slow, func() bool {
		if p.gone.Load() {
			return true
		}
		rs, err := http.Get(p.url + "/version")
		if err != nil {
			return false
		}
		defer rs.Body.Close()
		b, err := io.ReadAll(rs.Body)
		got = string(b)
		return err == nil
	}) {
		g.fail("no-http", "with HTTP endpoints enabled nothing answers on the given port")
		return nil
	}
	if p.gone.Load() {
		g.fail("ended", "the program ended with legal options")
		return nil
	}
	if got != version(p.dev) {
		g.fail("version", "the program says its version is %q, development mode %v", got, p.dev)
		return nil
	}
	c, err := client.NewWalletClient(p.url, got)
	if err != nil {
		g.fail("client", "the client refuses the program: %v", err)
		return nil
	}
	return c
}

// shows waits until the program reports exactly the ledger at the head.
func (g *pg) shows(p *proc, c *client.WalletClient, v *vmodel.Inv, head H, when string) bool {
	led := v.LedgerAt(head)
	why := ""
	if !vlib.Eventually(slow, func() bool {
		why = differs(c, v, led, head)
		return why == "" || p.gone.Load()
	}) || p.gone.Load() {
		if p.gone.Load() {
			g.fail("ended", "the program ended %s", when)
		} else {
			g.fail("shows", "%s the program does not show the ledger of the chain of height %d: %s", when, v.Blocks[head].Height, why)
		}
		return false
	}
	rep.Eval(fmt.Sprintf("shows/%s/%v/%d", when, p.dev, v.Blocks[head].Height))
	return true
}

func differs(c *client.WalletClient, v *vmodel.Inv, led *vmodel.Ledger, head H) string {
	h, err := c.GetHeadHeight()
	if err != nil {
		return err.Error()
	}
	if h != v.Blocks[head].Height {
		return fmt.Sprintf("height %d, not %d", h, v.Blocks[head].Height)
	}
	bal := led.Balances()
	who := []H{core.NewHashTRand()}
	bal[who[0]] = new(big.Int)
	for k := range bal {
		if k != who[0] {
			who = append(who, k)
		}
	}
	got, err := c.GetManyBalances(who)
	if err != nil {
		return err.Error()
	}
	for _, k := range who {
		if x := new(big.Int).SetUint64(got[k]); x.Cmp(bal[k]) != 0 {
			return fmt.Sprintf("balance of %s is %s, not %s", k, x, bal[k])
		}
	}
	us, err := c.GetManyUtxos(who, false)
	if err != nil {
		return err.Error()
	}
	if len(us) != len(led.Utxos) {
		return fmt.Sprintf("%d unspent outputs, not %d", len(us), len(led.Utxos))
	}
	for u, o := range us {
		if w, ok := led.Utxos[u]; !ok || w != o {
			return fmt.Sprintf("unspent output %v of %s", u, o)
		}
	}
	var ids []H
	for t := range led.Incl {
		ids = append(ids, t)
	}
	if len(ids) > 0 {
		sort.Slice(ids, func(i, j int) bool { return ids[i].Lt(ids[j]) })
		in, err := c.GetTxIncludedBlock(ids[:min(len(ids), 20)])
		if err != nil {
			return err.Error()
		}
		for _, t := range ids[:min(len(ids), 20)] {
			if in[t] != led.Incl[t] {
				return fmt.Sprintf("transaction %s in block %s, not %s", t, in[t], led.Incl[t])
			}
		}
	}
	return ""
}

// seedSrv is a peer of the test that others may dial.
type seedSrv struct {
	addr  string
	p     core.Params
	mu    sync.Mutex
	l     net.Listener
	peers []*vwire.Peer
	from  []net.Addr // where the peers called from
	hits  int
	setup func(q *vwire.Peer)
	id    string
}

func (g *pg) seed() *seedSrv {
	return &seedSrv{addr: g.addr(), p: g.p, id: core.NewHashTRand().String()}
}

// hasV6 says whether this machine has the IPv6 loopback address.
var hasV6 = sync.OnceValue(func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
})

// addr is a free address, sometimes an IPv6 one.
func (g *pg) addr() string {
	if hasV6() && g.r.Intn(4) == 0 {
		rep.Count("v6_addresses", 1)
		return fmt.Sprintf("[::1]:%d", vnode.FreePort())
	}
	return vnode.FreshAddr()
}

func (s *seedSrv) open() *seedSrv {
	l, err := net.Listen("tcp", s.addr)
	if err != nil {
		panic(err)
	}
	s.mu.Lock()
	s.l = l
	s.mu.Unlock()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.hits++
			s.mu.Unlock()
			go func() {
				k := vwire.Wrap(c, slow)
				if v := k.Handshake(s.id); k.Err != nil || v != "continue" {
					c.Close()
					return
				}
				q := vwire.NewPeer(k, false, s.id, s.p)
				if s.setup != nil {
					s.setup(q)
				}
				s.mu.Lock()
				s.peers = append(s.peers, q)
				s.from = append(s.from, c.RemoteAddr())
				s.mu.Unlock()
				q.Start()
			}()
		}
	}()
	return s
}

func (s *seedSrv) close() {
	s.mu.Lock()
	l, ps := s.l, s.peers
	s.mu.Unlock()
	if l != nil {
		l.Close()
	}
	for _, q := range ps {
		q.Stop()
	}
}

func (s *seedSrv) live() []*vwire.Peer {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []*vwire.Peer
	for _, q := range s.peers {
		if !q.Done() && !q.Closed() {
			out = append(out, q)
		}
	}
	return out
}
func (s *seedSrv) knocks() int { s.mu.Lock(); defer s.mu.Unlock(); return s.hits }

// flag forms the flag package takes.
func (g *pg) opt(name, val string) []string {
	d := []string{"-", "--"}[g.r.Intn(2)]
	if g.r.Intn(2) == 0 || name == "http" {
		if name == "http" {
			d = "--"
		}
		return []string{d + name, val}
	}
	return []string{d + name + "=" + val}
}
func (g *pg) on(name string) string {
	return []string{"--" + name, "-" + name, "--" + name + "=true", "-" + name + "=1"}[g.r.Intn(4)]
}

func (g *pg) mode() []string {
	if g.dev {
		return []string{g.on("dev")}
	}
	if g.r.Intn(3) == 0 {
		return []string{"--dev=false"}
	}
	return nil
}

func (g *pg) shuffled(parts ...[]string) []string {
	g.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	var out []string
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// follow: a program is fed a chain of its network, stopped by force and started again.
func (g *pg) follow() {
	defer g.end()
	r := g.r
	g.network(g.i%3 != 2)
	w := g.w
	main := w.All.Path(w.Order[len(w.Order)-1]) // the winning branch is the last
	tip := main[len(main)-1]
	short := main[r.Intn(len(main)-2)]
	save := ""
	if g.i%4 != 1 {
		save = filepath.Join(g.dir("save"), []string{"x", "a/b/c", "with space", "x/", "."}[r.Intn(5)])
	}
	listens := g.i%2 == 0
	addr := g.addr()
	feeder := g.seed()
	// what the peer of this test knows and offers
	var gmu sync.Mutex
	given, quiet := short, r.Intn(2) == 0
	offer := func(q *vwire.Peer) {
		gmu.Lock()
		defer gmu.Unlock()
		if quiet {
			return
		}
		for _, id := range w.All.Path(given) {
			q.Give(w.BunBy[id])
		}
		q.SetHead(given)
		q.SyncNow()
	}
	feeder.setup = offer
	feeder.open()
	defer feeder.close()
	opts := func(seeded bool) []string {
		parts := [][]string{g.mode(), g.opt("http", fmt.Sprint(freePort())), {g.on("http-wallet")}}
		if r.Intn(2) == 0 {
			parts = append(parts, []string{g.on("http-admin")}, g.opt("admin-pw", "x"))
		}
		if save != "" {
			parts = append(parts, g.opt("save-dir", save))
		}
		if listens {
			parts = append(parts, []string{g.on("listen")}, g.opt("addr", addr))
		} else if r.Intn(2) == 0 {
			parts = append(parts, g.opt("addr", addr))
		}
		switch {
		case seeded && !listens:
			parts = append(parts, g.opt("seeds", feeder.addr))
		case !g.dev || r.Intn(2) == 0:
			parts = append(parts, []string{g.on("new-network")})
			if r.Intn(2) == 0 {
				parts = append(parts, g.opt("seeds", feeder.addr))
			}
		}
		return g.shuffled(parts...)
	}
	// feed makes sure a peer that knows the chain up to head is there and has offered it
	var cur *vwire.Peer
	feed := func(p *proc, head H) bool {
		gmu.Lock()
		given, quiet = head, false
		gmu.Unlock()
		if !listens {
			if !vlib.Eventually(slow, func() bool { return len(feeder.live()) > 0 || p.gone.Load() }) || p.gone.Load() {
				g.fail("no-seed", "the program does not connect to its seed")
				return false
			}
			for _, q := range feeder.live() {
				cur = q
				q.Do(func() { offer(q) })
			}
			return true
		}
		if cur != nil && !cur.Done() {
			q := cur
			q.Do(func() { offer(q) })
			return true
		}
		var err error
		if !vlib.Eventually(slow, func() bool {
			if p.gone.Load() {
				return true
			}
			var v string
			cur, v, err = vwire.DialPeer(addr, "", core.NewHashTRand().String(), g.p, 20*time.Second)
			return err == nil && v == "continue"
		}) || cur == nil || p.gone.Load() {
			g.fail("no-listen", "with --listen nobody can connect to the given address (program up %v): %v", !p.gone.Load(), err)
			return false
		}
		offer(cur)
		cur.Start()
		return true
	}
	p := g.launch(opts(true)...)
	c := g.up(p)
	if c == nil || !feed(p, short) || !g.shows(p, c, w.All, short, "after following a peer") {
		return
	}
	// the address to be announced
	if listens {
		if !vlib.Eventually(slow, func() bool { return cur.Count("announce-addr", H{}) > 0 }) {
			g.fail("no-announce", "a listening program does not announce its address")
			return
		}
	}
	for _, e := range cur.Log() {
		if e.Kind == "announce-addr" && (!listens || e.Addr != addr) {
			g.fail("announce", "the program announces the address %q, listening %v on %q", e.Addr, listens, addr)
			return
		}
	}
	// a chain of the other network
	if r.Intn(2) == 0 {
		if !g.foreign(p, listens, addr) {
			return
		}
	}
	// the rest of the branch that loses, then the one that wins
	var seq []H
	if r.Intn(2) == 0 {
		for _, id := range w.Order {
			if w.All.LCA(id, tip) != id {
				seq = []H{id} // the last of the losing branch
			}
		}
		if len(seq) > 0 && w.All.Blocks[seq[0]].Work.Cmp(w.All.Blocks[short].Work) <= 0 {
			seq = nil
		}
	}
	for _, h := range seq {
		if !feed(p, h) || !g.shows(p, c, w.All, h, "after the other branch") {
			return
		}
	}
	kills, connected := 0, true
	last := short
	if len(seq) > 0 {
		last = seq[0]
	}
	again := func() bool {
		kills++
		if cur != nil {
			cur.Stop()
			cur = nil
		}
		gmu.Lock()
		quiet = true
		gmu.Unlock()
		p.kill()
		again := r.Intn(2) == 0
		connected = listens || again
		p = g.launch(opts(again)...)
		if c = g.up(p); c == nil {
			return false
		}
		if save == "" {
			// kept nothing; whoever it is connected to only offers when told to
			return g.shows(p, c, w.All, H{}, "restarted without directory") && func() bool { last = H{}; return true }()
		}
		return g.shows(p, c, w.All, last, "restarted")
	}
	if r.Intn(2) == 0 && !again() {
		return
	}
	if connected {
		if !feed(p, tip) || !g.shows(p, c, w.All, tip, "after the winning branch") {
			return
		}
		last = tip
	}
	// somebody else gets it all from this one
	if listens {
		a2 := g.shuffled(g.mode(), g.opt("http", fmt.Sprint(freePort())), []string{g.on("http-wallet")}, g.opt("seeds", addr))
		p2 := g.launch(a2...)
		c2 := g.up(p2)
		if c2 == nil || !g.shows(p2, c2, w.All, last, "after following a program") {
			return
		}
		// a payment posted at the second is pending at the first
		if !g.pay(c2, c, last) {
			return
		}
		p2.kill()
	}
	if !again() {
		return
	}
	if save == "" {
		// nothing may have been written where it ran
		es, _ := os.ReadDir(g.dir("cwd"))
		if len(es) > 0 {
			g.fail("stray-files", "without a save directory the program wrote %s", es[0].Name())
			return
		}
	}
	rep.Count("restarts", int64(kills))
	rep.Sample(map[string]any{"case": g.id, "dev": g.dev, "listens": listens, "save": save != "", "heights": []uint64{w.All.Blocks[short].Height, w.All.Blocks[last].Height}, "kills": kills, "args": p.args})
}

// foreign offers the other network's chain; it is to be refused.
func (g *pg) foreign(p *proc, listens bool, addr string) bool {
	if !listens {
		return true
	}
	name, op := "devnet.json", core.DevNetParams()
	if g.dev {
		name, op = "prodnet.json", core.ProdNetParams()
	}
	o, err := vmodel.LoadFixture(name, op, g.r)
	if err != nil {
		panic(err)
	}
	q, v, err := vwire.DialPeer(addr, "", core.NewHashTRand().String(), op, slow)
	if err != nil || v != "continue" {
		rep.Inconclusive("%s: connecting: %v %q", g.id, err, v)
		return true
	}
	for _, id := range o.Order[:7] {
		q.Give(o.BunBy[id])
	}
	q.SetHead(o.Order[6])
	q.Start()
	q.SyncNow()
	vlib.Eventually(20*time.Second, func() bool { return q.Done() || q.Closed() || q.Count("sync", H{}) > 0 })
	time.Sleep(300 * time.Millisecond)
	// what it then says it follows, it says to another
	l, v, err := vwire.DialPeer(addr, "", core.NewHashTRand().String(), g.p, slow)
	if err != nil || v != "continue" {
		if p.gone.Load() {
			g.fail("ended", "the program ended when offered the other network's chain")
			return false
		}
		q.Stop()
		return true
	}
	l.Start()
	l.SyncNow()
	vlib.Eventually(slow, func() bool { return l.Count("sync", H{}) > 0 || l.Done() })
	for _, id := range o.Order {
		if l.HasBlock(id) {
			g.fail("wrong-network", "a program of one network (development %v) follows the other's chain", g.dev)
			return false
		}
	}
	l.Stop()
	q.Stop()
	rep.Eval(fmt.Sprintf("foreign/%v", g.dev))
	return true
}

// pay posts a payment at one program; the other must have it pending.
func (g *pg) pay(at, seen *client.WalletClient, head H) bool {
	led := g.w.All.LedgerAt(head)
	avail := map[core.Utxo]H{}
	for u, k := range led.Utxos {
		if vmodel.KeyOf(g.w.Keys, k) != nil && u.Value > 4 {
			avail[u] = k
		}
	}
	cs := vmodel.Coins(avail)
	if len(cs) == 0 {
		return true
	}
	c := cs[g.r.Intn(len(cs))]
	to := core.NewHashTRand()
	t := core.Tx{Inputs: []core.TxIn{{Utxo: c.U}}, Outputs: []core.TxOut{{Value: c.U.Value - 2, PublicKeyHash: to}}}
	vmodel.SignTx(&t, func(int) *vmodel.Key { return vmodel.KeyOf(g.w.Keys, c.Pkh) })
	id, err := at.PostTx(t)
	if err != nil || id != vmodel.TxID(t) {
		g.fail("pay", "a legal payment posted is answered %s %v", id, err)
		return false
	}
	ok := vlib.Eventually(slow, func() bool {
		us, err := seen.GetManyUtxos([]H{c.Pkh}, true)
		if err != nil {
			return false
		}
		_, there := us[c.U]
		return !there
	})
	if !ok {
		g.fail("pay-unseen", "a payment posted at one program never becomes pending at the program it is connected to")
		return false
	}
	rep.Eval(fmt.Sprintf("pay/%v", g.dev))
	return true
}

// seeds: whom the program connects to.
func (g *pg) seeds() {
	defer g.end()
	r := g.r
	g.network([]bool{true, true, false}[g.i%3])
	n := 1 + r.Intn(4)
	var ss []*seedSrv
	for k := 0; k < n; k++ {
		ss = append(ss, g.seed())
	}
	defer func() {
		for _, s := range ss {
			s.close()
		}
	}()
	stranger := g.seed().open()
	defer stranger.close()
	var addrs []string
	for _, s := range ss {
		addrs = append(addrs, s.addr)
	}
	list := strings.Join(addrs, ",")
	parts := [][]string{g.mode(), g.opt("seeds", list)}
	own := g.addr()
	if r.Intn(2) == 0 {
		parts = append(parts, []string{g.on("listen")}, g.opt("addr", own))
	}
	kind := []string{"plain", "new", "late", "lost", "none", "found", "plain"}[g.i%7]
	if kind == "none" && g.i >= 7 && vlib.N(1, 0) == 1 {
		kind = "lost"
	}
	all := func(within time.Duration) int {
		c := 0
		vlib.Eventually(within, func() bool {
			c = 0
			for _, s := range ss {
				if len(s.live()) > 0 {
					c++
				}
			}
			return c == n
		})
		return c
	}
	once := func() bool {
		for _, s := range ss {
			// a second attempt is told to go
			if !vlib.Eventually(slow, func() bool { return len(s.live()) <= 1 }) {
				g.fail("twice", "the program holds %d sessions with one seed", len(s.live()))
				return false
			}
		}
		if stranger.knocks() > 0 {
			g.fail("stranger", "the program connects to somebody who is not listed")
			return false
		}
		return true
	}
	switch kind {
	case "plain":
		for _, s := range ss {
			s.open()
		}
		p := g.launch(g.shuffled(parts...)...)
		if c := all(slow); c < n {
			g.fail("seed-unconnected", "%d of %d listed seeds are connected to (program up %v)", c, n, !p.gone.Load())
			return
		}
		time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
		if all(slow) < n || !once() {
			g.fail("seed-unconnected", "seeds are not kept")
			return
		}
	case "new":
		for _, s := range ss {
			s.open()
		}
		parts = append(parts, []string{g.on("new-network")})
		if r.Intn(2) == 0 {
			parts = append(parts, g.opt("payout", core.NewHashTRand().String()))
		}
		p := g.launch(g.shuffled(parts...)...)
		time.Sleep(4 * time.Second)
		if used := cpu(p); used > 1500*time.Millisecond {
			g.fail("mines", "a program that is to mine nothing and talk to nobody used %s of processor time in 4 s", used)
			return
		}
		if p.gone.Load() {
			g.fail("ended", "the program ended with legal options")
			return
		}
		for _, s := range ss {
			if s.knocks() > 0 {
				g.fail("new-network-dials", "with --new-network the program connects to a seed")
				return
			}
		}
	case "late":
		p := g.launch(g.shuffled(parts...)...)
		time.Sleep(time.Duration(500+r.Intn(4000)) * time.Millisecond)
		if p.gone.Load() {
			g.fail("gave-up", "the program gave up within seconds because no seed answered yet")
			return
		}
		ss[r.Intn(n)].open()
		if !vlib.Eventually(slow, func() bool {
			for _, s := range ss {
				if len(s.live()) > 0 {
					return true
				}
			}
			return false
		}) {
			g.fail("late-seed", "a seed that came up a little after the program is never connected to (program up %v)", !p.gone.Load())
			return
		}
		once()
	case "lost":
		for _, s := range ss {
			s.open()
		}
		g.launch(g.shuffled(parts...)...)
		if c := all(slow); c < n {
			g.fail("seed-unconnected", "%d of %d listed seeds are connected to", c, n)
			return
		}
		for _, s := range ss {
			for _, q := range s.live() {
				q.Stop()
			}
		}
		// with nobody left it turns to its seeds again
		if c := all(2 * slow); c < n {
			g.fail("seed-not-retried", "after every session ended, %d of %d seeds are connected to again", c, n)
			return
		}
		once()
	case "none":
		p := g.launch(g.shuffled(parts...)...)
		select {
		case <-p.done:
		case <-time.After(3 * slow):
			g.fail("none-reached", "the program runs on though none of its seeds could ever be reached")
			return
		}
		g.message(p, "no seed reachable")
	case "found":
		// a seed tells of another node
		for _, s := range ss {
			s.open()
		}
		other := g.seed().open()
		defer other.close()
		parts = append(parts, nil)
		g.launch(g.shuffled(parts...)...)
		if c := all(slow); c < n {
			g.fail("seed-unconnected", "%d of %d listed seeds are connected to", c, n)
			return
		}
		q := ss[r.Intn(n)].live()
		if len(q) == 0 {
			return
		}
		q[0].SendAddrs(map[string]string{other.id: other.addr})
		if !vlib.Eventually(slow, func() bool { return len(other.live()) > 0 }) {
			g.fail("told-unconnected", "a node a seed told of is not connected to")
			return
		}
		once()
	}
	if g.bad.Load() {
		return
	}
	rep.Eval(fmt.Sprintf("seeds/%s/%v/%d", kind, g.dev, n))
}

// message: an ending because of impossible options says something and is no success.
func (g *pg) message(p *proc, what string) bool {
	if p.cmd.ProcessState.ExitCode() == 0 {
		g.fail("silent-success:"+what, "with impossible options (%s) the program ends as if all were well", what)
		return false
	}
	if strings.TrimSpace(p.out.String()) == "" {
		g.fail("silent:"+what, "with impossible options (%s) the program ends without a word", what)
		return false
	}
	rep.Eval("refused/" + what)
	return true
}

// options that cannot be followed.
func (g *pg) options() {
	defer g.end()
	g.dev = true
	r := g.r
	file := filepath.Join(g.dir("opt"), "file")
	os.WriteFile(file, []byte("x"), 0644)
	taken, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer taken.Close()
	takenPort := fmt.Sprint(taken.Addr().(*net.TCPAddr).Port)
	allTaken, err := net.Listen("tcp", ":0")
	if err != nil {
		panic(err)
	}
	defer allTaken.Close()
	allPort := fmt.Sprint(allTaken.Addr().(*net.TCPAddr).Port)
	h := core.NewHashTRand().String()
	type bad struct {
		name string
		args []string
	}
	var bs []bad
	add := func(name string, args ...string) { bs = append(bs, bad{name, args}) }
	add("no payout", "--miners", "1")
	add("no payout", "--miners", "3", "--payout", "")
	for _, x := range []string{h[:63], h + "0", h + "00", h[:62], "zz" + h[2:], "0x" + h[2:], " " + h[1:], h[:1], "coin", strings.Repeat("g", 64)} {
		add("bad payout", "--miners", fmt.Sprint(1+r.Intn(2)), "--payout", x)
	}
	add("unusable save dir", "--save-dir", file)
	add("unusable save dir", "--save-dir", filepath.Join(file, "below"))
	add("bad number", "--miners", "many", "--payout", h)
	add("bad number", "--http", "eighty", "--http-wallet")
	add("unknown option", "--no-such-option")
	add("unknown option", "--http-walet")
	add("bad listen address", "--listen", "--addr", "127.0.0.1")
	add("bad listen address", "--listen", "--addr", "127.0.0.1:99999")
	add("bad listen address", "--listen", "--addr", "127.0.0.1:nothing")
	add("listen address in use", "--listen", "--addr", "127.0.0.1:"+takenPort)
	add("http port in use", "--http", allPort, "--http-wallet")
	add("http port in use", "--http", allPort, "--http-admin", "--admin-pw", "x")
	add("impossible http port", "--http", "70000", "--http-wallet")
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	var ps []*proc
	for _, b := range bs {
		args := b.args
		switch r.Intn(3) {
		case 0:
			args = append([]string{"--dev"}, args...)
		case 1:
			args = append([]string{"--dev", "--new-network"}, args...)
		default:
			args = append([]string{"--new-network"}, args...)
		}
		sem <- true
		p := g.launch(args...)
		ps = append(ps, p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			select {
			case <-p.done:
				g.message(p, b.name)
			case <-time.After(slow):
				g.fail("runs:"+b.name, "with impossible options (%s: %s) the program runs as if all were well", b.name, strings.Join(p.args, " "))
				p.kill()
			}
		}()
	}
	wg.Wait()
}

// mine: a small network of programs, one of them mining.
func (g *pg) mine() {
	defer g.end()
	g.dev = true
	g.p = core.DevNetParams()
	r := g.r
	keys := vmodel.Keys(3)
	pay := keys[r.Intn(3)]
	miners := 2 + (g.i+r.Intn(2))%2
	addrA, addrB := g.addr(), g.addr()
	save := filepath.Join(g.dir("save"), "a")
	optsA := func(from []string) []string {
		return g.shuffled(g.mode(), g.opt("http", fmt.Sprint(freePort())), []string{g.on("http-wallet")}, []string{g.on("listen")}, g.opt("addr", addrA), from,
			g.opt("miners", fmt.Sprint(miners)), g.opt("payout", pay.Pkh.String()), g.opt("save-dir", save))
	}
	began := time.Now()
	a := g.launch(optsA([]string{g.on("new-network")})...)
	ca := g.up(a)
	if ca == nil {
		return
	}
	b := g.launch(g.shuffled(g.mode(), g.opt("http", fmt.Sprint(freePort())), []string{g.on("http-wallet")}, []string{g.on("listen")}, g.opt("addr", addrB), g.opt("seeds", addrA))...)
	cb := g.up(b)
	if cb == nil {
		return
	}
	c := g.launch(g.shuffled(g.mode(), g.opt("http", fmt.Sprint(freePort())), []string{g.on("http-wallet")}, g.opt("seeds", addrA+","+addrB))...)
	cc := g.up(c)
	if cc == nil {
		return
	}
	height := func(x *client.WalletClient) uint64 { h, _ := x.GetHeadHeight(); return h }
	// reach waits for the miner; luck and slow machines are no violation
	rate := hashRate()
	reach := func(h uint64, what string) bool {
		t0 := time.Now()
		from := height(ca)
		ok := vlib.Eventually(170*time.Second, func() bool { return height(ca) >= h || a.gone.Load() })
		if a.gone.Load() {
			g.fail("ended", "the mining program ended (%s)", what)
			return false
		}
		if !ok {
			rate = min(rate, hashRate())
			want := rate * float64(miners) * time.Since(t0).Seconds() / 16777216 / 4
			if height(ca) == from && want > 30 {
				g.fail("no-blocks", "%s: no block was mined in %s, in which %.0f were to be expected", what, time.Since(t0), want)
			} else {
				rep.Inconclusive("%s: %s: height %d of %d after %s", g.id, what, height(ca), h, time.Since(t0))
			}
			return false
		}
		return true
	}
	if !reach(2, "a new network") {
		return
	}
	// a payment posted where nobody mines
	us, err := ca.GetManyUtxos([]H{pay.Pkh}, true)
	if err != nil || len(us) == 0 {
		g.fail("no-reward", "the miner's address owns nothing at height %d: %v", height(ca), err)
		return
	}
	var u core.Utxo
	for x := range us {
		u = x
	}
	to := core.NewHashTRand()
	t := core.Tx{Inputs: []core.TxIn{{Utxo: u}}, Outputs: []core.TxOut{{Value: 300, PublicKeyHash: to}, {Value: u.Value - 300 - 7, PublicKeyHash: keys[r.Intn(3)].Pkh}}}
	vmodel.SignTx(&t, func(int) *vmodel.Key { return pay })
	at := []*client.WalletClient{cb, cc, ca}[r.Intn(3)]
	// it may still be on its way to where it is posted
	var perr error
	if !vlib.Eventually(slow, func() bool { _, perr = at.PostTx(t); return perr == nil }) {
		g.fail("pay", "a payment of mined coins is refused: %v", perr)
		return
	}
	tid := vmodel.TxID(t)
	known := func(x *client.WalletClient) bool { m, err := x.GetTx([]H{tid}); return err == nil && len(m) == 1 }
	if !vlib.Eventually(slow, func() bool { return known(ca) }) {
		g.fail("pay-unseen", "a payment posted at one program never gets to the mining one")
		return
	}
	// by the second block from now it must be in
	if !reach(height(ca)+2, "with a payment pending") {
		return
	}
	for k, x := range []*client.WalletClient{ca, cb, cc} {
		var m map[H]uint64
		if !vlib.Eventually(slow, func() bool {
			var err error
			m, err = x.GetTxConfirms([]H{tid})
			return err == nil && m[tid] > 0
		}) {
			g.fail("pay-not-included", "a payment pending at the mining program is not included two blocks later (program %d, height %d)", k, height(x))
			return
		}
		if bal, err := x.GetBalance(to); err != nil || bal != 300 {
			g.fail("pay-balance", "the payment is confirmed but the payee has %d %v (program %d)", bal, err, k)
			return
		}
	}
	rep.Eval("mine/paid")
	// the miner dies and comes back
	seen := func(addr string) *vmodel.Inv {
		q, v, err := vwire.DialPeer(addr, "", core.NewHashTRand().String(), g.p, slow)
		if err != nil || v != "continue" {
			rep.Inconclusive("%s: observing: %v %q", g.id, err, v)
			return nil
		}
		q.Start()
		q.SyncNow()
		vlib.Eventually(slow, func() bool { return !q.Head().EqZero() || q.Done() })
		q.Stop()
		if q.Head().EqZero() {
			return nil
		}
		return q.Known()
	}
	before := seen(addrB)
	if before == nil {
		return
	}
	tipB := before.Order[len(before.Order)-1]
	hb := before.Blocks[tipB].Height
	time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
	a.kill()
	a = g.launch(optsA(g.opt("seeds", addrB))...)
	if ca = g.up(a); ca == nil {
		return
	}
	if !reach(hb+1, "after a restart") {
		return
	}
	// everything is judged by an observer of the whole chain
	after := seen(addrA)
	if after == nil {
		return
	}
	tip := after.Order[len(after.Order)-1]
	v := vmodel.NewInv(g.p)
	led := vmodel.NewLedger()
	now := uint64(time.Now().Unix()) + 5
	for _, id := range after.Path(tip) {
		bi := after.Blocks[id]
		for _, tx := range bi.TxIds {
			v.AddTx(after.Txs[tx])
		}
		var addM func(m H)
		addM = func(m H) {
			if x, ok := after.Merkles[m]; ok {
				addM(x.LChild)
				addM(x.RChild)
				v.AddMerkle(x)
			}
		}
		addM(bi.Block.MerkleRoot)
		if vd, why := v.CheckBlock(bi.Block, now); vd != vmodel.OK {
			g.fail("invalid-block", "block %d of the network is not valid: %s", bi.Height, why)
			return
		}
		v.AddBlock(bi.Block)
		if e := led.Apply(v, id); e != "" {
			g.fail("invalid-block", "block %d of the network is not valid: %s", bi.Height, e)
			return
		}
		fees := uint64(0)
		for _, tx := range bi.TxIds {
			if t := after.Txs[tx]; !t.IsCoinbase {
				fees += vmodel.Fee(t).Uint64()
			}
		}
		for _, o := range after.Txs[bi.TxIds[0]].Outputs {
			if o.PublicKeyHash != pay.Pkh || o.Value != g.p.BlockReward+fees {
				g.fail("payout", "block %d pays %d to %s, not %d to %s", bi.Height, o.Value, o.PublicKeyHash, g.p.BlockReward+fees, pay.Pkh)
				return
			}
		}
		if bi.Block.MinedTime+5 < uint64(began.Unix()) {
			g.fail("mined-time", "block %d is dated %d, before the network began at %d", bi.Height, bi.Block.MinedTime, began.Unix())
			return
		}
		rep.Count("blocks_judged", 1)
	}
	// what everybody had before the restart is still there (the last block may have been overtaken in the moment of dying)
	for _, id := range before.Path(tipB) {
		if after.Blocks[id] == nil && before.Blocks[id].Height < hb {
			g.fail("lost-chain", "block %d of the chain everybody had is not on the restarted program's chain", before.Blocks[id].Height)
			return
		}
	}
	// and all go on together
	if !vlib.Eventually(slow, func() bool { return height(cb) > hb && height(cc) > hb }) {
		g.fail("not-rejoined", "after the restart of the mining program the others stay at heights %d and %d (it is at %d)", height(cb), height(cc), height(ca))
		return
	}
	rep.Eval(fmt.Sprintf("mine/%d", miners))
	rep.Sample(map[string]any{"case": g.id, "height": after.Blocks[tip].Height, "miners": miners, "txs": len(led.Incl)})
}

// cpu is the processor time a running program has used.
func cpu(p *proc) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	var u, k int64
	fmt.Sscan(f[11], &u)
	fmt.Sscan(f[12], &k)
	return time.Duration(u+k) * 10 * time.Millisecond
}

// solo: one thread mines alone.
func (g *pg) solo() {
	defer g.end()
	g.dev = true
	g.p = core.DevNetParams()
	pay := core.NewHashTRand()
	t0 := time.Now()
	p := g.launch(g.shuffled(g.mode(), g.opt("http", fmt.Sprint(freePort())), []string{g.on("http-wallet")}, []string{g.on("new-network")},
		g.opt("miners", "1"), g.opt("payout", pay.String()))...)
	c := g.up(p)
	if c == nil {
		return
	}
	rate := hashRate()
	var h uint64
	if !vlib.Eventually(240*time.Second, func() bool { h, _ = c.GetHeadHeight(); return h > 0 || p.gone.Load() }) {
		rate = min(rate, hashRate())
		if want := rate * time.Since(t0).Seconds() / 16777216 / 4; want > 15 {
			g.fail("no-blocks", "one mining thread found no block in %s, in which %.0f were to be expected", time.Since(t0), want)
		} else {
			rep.Inconclusive("%s: no block in %s", g.id, time.Since(t0))
		}
		return
	}
	if p.gone.Load() {
		g.fail("ended", "the mining program ended")
		return
	}
	// the height may move while asking
	if !vlib.Eventually(slow, func() bool {
		h, _ = c.GetHeadHeight()
		b, err := c.GetBalance(pay)
		h2, _ := c.GetHeadHeight()
		return err == nil && h == h2 && b == h*g.p.BlockReward
	}) {
		b, err := c.GetBalance(pay)
		g.fail("payout", "at height %d the given address owns %d (%v)", h, b, err)
		return
	}
	rep.Eval("solo")
	rep.Sample(map[string]any{"case": g.id, "height": h, "seconds": time.Since(t0).Seconds()})
}

// foundAddr: told to listen but not where, the program learns its address from its first peer.
func (g *pg) foundAddr() {
	defer g.end()
	r := g.r
	g.network(g.i%3 != 2)
	six := hasV6() && g.i%2 == 1
	ip := "127.0.0.1"
	if six {
		ip = "::1"
	}
	expect := net.JoinHostPort(ip, "21720")
	if c, err := net.DialTimeout("tcp", expect, time.Second); err == nil {
		c.Close()
		rep.Inconclusive("%s: something else listens on %s", g.id, expect)
		return
	}
	var ss []*seedSrv
	var addrs []string
	for k := 0; k < 1+r.Intn(3); k++ {
		s := g.seed()
		s.addr = vnode.FreshAddr()
		if six {
			s.addr = net.JoinHostPort(ip, fmt.Sprint(vnode.FreePort()))
		}
		ss = append(ss, s.open())
		addrs = append(addrs, s.addr)
		defer s.close()
	}
	p := g.launch(g.shuffled(g.mode(), []string{g.on("listen")}, g.opt("seeds", strings.Join(addrs, ",")))...)
	for _, s := range ss {
		var said string
		if !vlib.Eventually(slow, func() bool {
			for _, q := range s.live() {
				for _, e := range q.Log() {
					if e.Kind == "announce-addr" {
						said = e.Addr
					}
				}
			}
			return said != "" || p.gone.Load()
		}) || p.gone.Load() {
			g.fail("found-unannounced", "told to listen but not where, the program announces no address after connecting (program up %v)", !p.gone.Load())
			return
		}
		s.mu.Lock()
		from := s.from[0].(*net.TCPAddr).IP.String()
		s.mu.Unlock()
		if said != net.JoinHostPort(from, "21720") || from != ip {
			g.fail("found-wrong", "told to listen but not where, the program announces %q; it connected from %s", said, from)
			return
		}
	}
	// and it is there
	me := core.NewHashTRand().String()
	var q *vwire.Peer
	if !vlib.Eventually(slow, func() bool {
		var v string
		var err error
		q, v, err = vwire.DialPeer(expect, "", me, g.p, 20*time.Second)
		return err == nil && v == "continue"
	}) {
		g.fail("found-unreachable", "nobody can connect to the address the program announces (program up %v)", !p.gone.Load())
		return
	}
	q.Start()
	if !vlib.Eventually(slow, func() bool { return q.Count("announce-addr", H{}) > 0 || q.Done() }) || q.Done() {
		g.fail("found-unannounced", "the address is not announced to who connects to it")
		return
	}
	for _, e := range q.Log() {
		if e.Kind == "announce-addr" && e.Addr != expect {
			g.fail("found-wrong", "the program announces %q, listening on %s", e.Addr, expect)
			return
		}
	}
	q.Stop()
	rep.Eval(fmt.Sprintf("found-addr/%v/%v/%d", g.dev, six, len(ss)))
}

// hashRate is how many block ids one thread computes per second here and now.
func hashRate() float64 {
	t0 := time.Now()
	var b core.Block
	n := 0
	for time.Since(t0) < 300*time.Millisecond {
		for k := 0; k < 1000; k++ {
			b.Nonce++
			vmodel.BlockID(b)
			n++
		}
	}
	return float64(n) / time.Since(t0).Seconds()
}
