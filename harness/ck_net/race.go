//go:build go1.22

package main

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/chain"
	"github.com/levilutz/basiccoin/internal/inv"
	"github.com/levilutz/basiccoin/internal/miner"
	"github.com/levilutz/basiccoin/internal/peerfactory"
	"github.com/levilutz/basiccoin/internal/rest"
	"github.com/levilutz/basiccoin/internal/rest/client"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/internal/verifx/vwire"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/topic"
)

// races runs everything a node does under the race detector, which is the judge. Other monitors' verdicts are not this
// property's business, so they are only counted.
func races() {
	rep.Mute = true
	done := make(chan bool)
	go func() { realNodes(); done <- true }()
	go func() {
		rep.Parallel("whole", vlib.N(2, 12), 2, func(i int, id string) { newNW(id).whole() })
		done <- true
	}()
	const w = 6
	rep.Parallel("questions", vlib.N(6, 60), 3, func(i int, id string) { questions(id) })
	rep.Parallel("pair", vlib.N(10, 100), w, func(i int, id string) { newNW(id).pair(); rep.Eval("pair") })
	rep.Parallel("mesh", vlib.N(3, 30), 3, func(i int, id string) { newNW(id).mesh(); rep.Eval("mesh") })
	rep.Parallel("flow", vlib.N(8, 80), w, func(i int, id string) { newNW(id).flow(); rep.Eval("flow") })
	rep.Parallel("talk", vlib.N(10, 100), w, func(i int, id string) { newNW(id).talk(i%2 == 0); rep.Eval("talk") })
	rep.Parallel("storm", vlib.N(3, 20), 3, func(i int, id string) { newNW(id).storm(); rep.Eval("storm") })
	rep.Parallel("set", vlib.N(6, 60), w, func(i int, id string) { newNW(id).set(); rep.Eval("set") })
	rep.Parallel("dial", vlib.N(4, 40), 4, func(i int, id string) { newNW(id).dial(); rep.Eval("dial") })
	rep.Parallel("lies", vlib.N(8, 60), 8, func(i int, id string) { newNW(id).lies(i); rep.Eval("lies") })
	rep.Parallel("fuzz", vlib.N(4, 60), 4, func(i int, id string) { newNW(id).fuzz(); rep.Eval("fuzz") })
	<-done
	<-done
}

// full is a node with every component, built and started in the program's order.
type full struct {
	bus  *bus.Bus
	inv  *inv.Inv
	addr string
	url  string
	head topic.Sub[bus.ValidatedHeadEvent]
	txs  topic.Sub[bus.ValidatedTxEvent]
}

func newFull(p core.Params, seeds []string, miners int, payout H, maxPeers int, httpPort int, save *string) *full {
	b := bus.NewBus()
	f := &full{bus: b, addr: vnode.FreshAddr(), head: b.ValidatedHead.Sub(), txs: b.ValidatedTx.Sub()}
	f.inv = inv.NewInv(p, save)
	c := chain.NewChain(b, f.inv, miners > 0, save)
	pf := peerfactory.NewPeerFactory(peerfactory.Params{Listen: true, LocalAddr: f.addr, MinPeers: 1, MaxPeers: maxPeers,
		RuntimeId: core.NewHashTRand().String(), SeekNewPeersFreq: 300 * time.Millisecond}, b, f.inv)
	ms := make([]*miner.Miner, miners)
	for i := range ms {
		ms[i] = miner.NewMiner(miner.NewParams(payout), b, f.inv)
	}
	var rs *rest.Server
	if httpPort > 0 {
		rs = rest.NewServer(rest.NewParams(httpPort, true, true, "pw", true), b, f.inv)
		f.url = fmt.Sprintf("http://127.0.0.1:%d", httpPort)
	}
	if len(seeds) > 0 {
		pf.SetSeeds(seeds)
	}
	guard := func(fn func()) {
		defer func() { recover() }()
		fn()
	}
	for _, m := range ms {
		go guard(m.Loop)
	}
	time.Sleep(50 * time.Millisecond)
	go guard(c.Loop)
	time.Sleep(50 * time.Millisecond)
	go guard(pf.Loop)
	if rs != nil {
		go guard(rs.Start)
	}
	return f
}

func freePort() int { return vnode.FreePort() }

var httpOnce sync.Mutex

// whole: mining, talking, serving nodes with all sorts of visitors.
func (c *nw) whole() {
	r := c.r
	p := core.Params{BlockReward: 1 << 30, DifficultyPeriod: 5, BlockTargetTime: 1, MaxBlockVSize: 8000, MaxTxVSize: 3000}
	t := make([]byte, 32)
	for i := range t {
		t[i] = 0xff
	}
	t[0], t[1], t[2] = 0, 0, 0x3f
	p.MaxTarget, p.OriginalTarget = core.NewHashTFromBytes(t), core.NewHashTFromBytes(t)
	var keys []*ecdsa.PrivateKey
	var pkhs []H
	for i := 0; i < 3; i++ {
		k, err := core.NewEcdsa()
		if err != nil {
			panic(err)
		}
		pub, _ := core.MarshalEcdsaPublic(k)
		keys = append(keys, k)
		pkhs = append(pkhs, core.DHashBytes(pub))
	}
	port := 0
	if httpOnce.TryLock() { // handlers are registered once per process
		port = freePort()
	}
	dir := filepath.Join(os.Getenv("VX_WORK"), fmt.Sprintf("whole-%d", r.Int63()))
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	a := newFull(p, nil, 1, pkhs[0], 4, port, &dir)
	link := vnode.NewRelay(a.addr, rand.New(rand.NewSource(r.Int63())))
	b := newFull(p, []string{link.Addr}, 1, pkhs[1], 3, 0, nil)
	d := newFull(p, []string{b.addr}, 0, pkhs[2], 1, 0, nil)
	e := newFull(p, []string{a.addr, b.addr}, 0, pkhs[2], 5, 0, nil)
	nodes := []*full{a, b, d, e}
	stop := make(chan bool)
	var wg sync.WaitGroup
	loop := func(every time.Duration, f func(r *rand.Rand)) {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(every/2 + time.Duration(rr.Int63n(int64(every)))):
					f(rr)
				}
			}
		}()
	}
	var mu sync.Mutex
	heads := map[H]int{}
	var last []H
	seen := func(h H) { mu.Lock(); heads[h]++; last = append(last, h); mu.Unlock() }
	anyHead := func(r *rand.Rand) H {
		mu.Lock()
		defer mu.Unlock()
		if len(last) == 0 {
			return H{}
		}
		return last[r.Intn(len(last))]
	}
	loop(20*time.Millisecond, func(*rand.Rand) {
		for _, n := range nodes {
			for ev, ok := n.head.Pop(); ok; ev, ok = n.head.Pop() {
				seen(ev.Head)
			}
			for ev, ok := n.txs.Pop(); ok; ev, ok = n.txs.Pop() {
				seen(ev.TxId)
				rep.Count("txs_validated", 1)
			}
		}
	})
	loop(150*time.Millisecond, func(r *rand.Rand) {
		nodes[r.Intn(len(nodes))].bus.PrintUpdate.Pub(bus.PrintUpdateEvent{Peer: true, PeerFactory: true})
	})
	if port > 0 {
		var wc *client.WalletClient
		vlib.Eventually(20*time.Second, func() bool {
			x, err := client.NewWalletClient(a.url, "v0.0.0-dev")
			if err == nil {
				wc = x
			}
			return err == nil
		})
		if wc != nil {
			for k := 0; k < 3; k++ {
				loop(30*time.Millisecond, func(r *rand.Rand) {
					rep.Count("http_requests", 1)
					switch r.Intn(9) {
					case 0:
						wc.GetHeadHeight()
					case 1:
						wc.GetManyBalances(pkhs)
					case 2:
						wc.GetManyUtxos(pkhs, r.Intn(2) == 0)
					case 3:
						wc.GetRichList(uint64(r.Intn(5)))
					case 4:
						wc.GetTxConfirms([]H{anyHead(r)})
					case 5:
						wc.GetTxIncludedBlock([]H{anyHead(r)})
					case 6:
						h := anyHead(r)
						wc.GetBlock([]H{h})
						wc.GetTx([]H{h})
						wc.GetMerkle([]H{h})
					default:
						u, err := wc.GetManyUtxos(pkhs[:2], true)
						if err != nil || len(u) == 0 {
							return
						}
						hh, _ := wc.GetHeadHeight()
						tx, err := core.MakeOutboundTx(p, keys, u, map[H]uint64{pkhs[2]: uint64(1 + r.Intn(1<<20)), pkhs[r.Intn(2)]: uint64(1 + r.Intn(1<<20))}, 1, hh)
						if err != nil {
							return
						}
						if _, err := wc.PostTx(*tx); err == nil {
							rep.Count("http_txs_accepted", 1)
						}
					}
				})
			}
			loop(200*time.Millisecond, func(r *rand.Rand) {
				q := []string{"/wallet/balance", "/wallet/utxos?publicKeyHash=zz", "/admin/terminate", "/version", "/wallet/tx", "/nope"}[r.Intn(6)]
				m := []string{"GET", "POST", "PUT"}[r.Intn(3)]
				rq, _ := http.NewRequest(m, a.url+q, bytes.NewReader([]byte("{}")))
				if rs, err := http.DefaultClient.Do(rq); err == nil {
					io.Copy(io.Discard, rs.Body)
					rs.Body.Close()
				}
			})
		}
	}
	// visitors: good, rude, silent, twice the same, ourselves
	loop(60*time.Millisecond, func(r *rand.Rand) {
		n := nodes[r.Intn(len(nodes))]
		id := fmt.Sprintf("v%d", r.Intn(12))
		rep.Count("visitors", 1)
		switch r.Intn(6) {
		case 0: // not the protocol at all
			if k, err := net.Dial("tcp", n.addr); err == nil {
				k.Write([]byte("GET / HTTP/1.0\r\n\r\n"))
				time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
				k.Close()
			}
		case 1: // leaves in the middle of the handshake
			if k, err := vwire.Dial(n.addr, 3*time.Second); err == nil {
				k.W(vwire.Str("levilutz/basiccoin"))
				k.Close()
			}
		default:
			q, v, err := vwire.DialPeer(n.addr, "", id, p, 5*time.Second)
			if err != nil || v != "continue" {
				return
			}
			rep.Count("visits", 1)
			q.Start()
			bad := []string{}
			// somebody listens there, but does not speak like a peer
			if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
				bad = append(bad, l.Addr().String())
				mode := r.Intn(4)
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer l.Close()
					l.(*net.TCPListener).SetDeadline(time.Now().Add(2 * time.Second))
					k, err := l.Accept()
					if err != nil {
						return
					}
					rep.Count("bad_answers", 1)
					cn := vwire.Wrap(k, 2*time.Second)
					switch mode {
					case 0:
						k.Close()
					case 1:
						cn.W(vwire.Str("something"), vwire.Str("else"), vwire.Str("x"))
						time.Sleep(50 * time.Millisecond)
						k.Close()
					case 2:
						cn.W(vwire.Str("levilutz/basiccoin"), vwire.Str("v9.9.9"))
						time.Sleep(50 * time.Millisecond)
						k.Close()
					default:
						cn.W(vwire.Str("levilutz/basiccoin"), vwire.Str("v0.0.0"), vwire.Str("zz"), vwire.Str("cancel"))
						time.Sleep(50 * time.Millisecond)
						k.Close()
					}
				}()
			}
			q.Announce(nodes[r.Intn(len(nodes))].addr)
			q.RequestAddrs()
			m := map[string]string{"x1": "127.0.0.1:1", "x2": n.addr, "x3": "nonsense"}
			for i, x := range bad {
				m[fmt.Sprint("b", i)] = x
			}
			q.SendAddrs(m)
			q.SyncNow()
			q.AnnounceTx(core.NewHashTRand())
			q.Ping(time.Second)
			time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			if r.Intn(2) == 0 {
				q.CloseCmd()
				time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
			}
			q.Stop()
		}
	})
	loop(900*time.Millisecond, func(r *rand.Rand) {
		link.Cut()
		time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
		link.Heal()
	})
	time.Sleep(time.Duration(vlib.N(25, 60)) * time.Second)
	// a latecomer that has everything to catch up with, and a node restarted from the directory
	newFull(p, []string{b.addr, a.addr}, 1, pkhs[2], 2, 0, nil)
	time.Sleep(time.Duration(vlib.N(3, 15)) * time.Second)
	close(stop)
	wg.Wait()
	mu.Lock()
	rep.Count("heads_and_txs_announced", int64(len(heads)))
	n := len(heads)
	mu.Unlock()
	if n > 3 {
		rep.Eval("whole")
	}
	snap := filepath.Join(os.Getenv("VX_WORK"), fmt.Sprintf("whole-re-%d", r.Int63()))
	if exec.Command("cp", "-a", dir, snap).Run() == nil {
		newFull(p, []string{e.addr}, 1, pkhs[0], 2, 0, &snap)
		time.Sleep(2 * time.Second)
		rep.Eval("restart")
	}
}

// realNodes runs the real program, built with the race detector, from its first instruction to its end.
func realNodes() {
	bin := filepath.Join(os.Getenv("VX_BIN"), "bcnode")
	type nd struct {
		cmd  *exec.Cmd
		url  string
		addr string
	}
	k, err := core.NewEcdsa()
	if err != nil {
		panic(err)
	}
	pub, _ := core.MarshalEcdsaPublic(k)
	pkh := core.DHashBytes(pub)
	var all []*nd
	start := func(i int, args ...string) *nd {
		n := &nd{addr: vnode.FreshAddr()}
		port := freePort()
		n.url = fmt.Sprintf("http://127.0.0.1:%d", port)
		args = append([]string{"--dev", "--addr", n.addr, "--http", fmt.Sprint(port), "--http-admin", "--http-wallet", "--admin-pw", "pw"}, args...)
		n.cmd = exec.Command(bin, args...)
		n.cmd.Dir = os.Getenv("VX_WORK")
		if os.Getenv("VX_LOG") != "" {
			n.cmd.Stdout, n.cmd.Stderr = os.Stdout, os.Stderr
		}
		if err := n.cmd.Start(); err != nil {
			rep.Errorf("starting bcnode: %v", err)
			return nil
		}
		all = append(all, n)
		return n
	}
	defer func() {
		for _, n := range all {
			n.cmd.Process.Kill()
			n.cmd.Wait()
		}
	}()
	get := func(n *nd, path string) string {
		rs, err := http.Get(n.url + path)
		if err != nil {
			return ""
		}
		defer rs.Body.Close()
		x, _ := io.ReadAll(rs.Body)
		return string(x)
	}
	save := filepath.Join(os.Getenv("VX_WORK"), "real-save")
	a := start(0, "--listen", "--new-network", "--miners", "2", "--payout", pkh.String(), "--save-dir", save)
	if a == nil {
		return
	}
	up := func(n *nd) bool {
		return vlib.Eventually(40*time.Second, func() bool { return get(n, "/version") != "" })
	}
	if !up(a) {
		rep.Inconclusive("the program did not come up")
		return
	}
	b := start(1, "--listen", "--seeds", a.addr)
	if b == nil || !up(b) {
		rep.Inconclusive("the second program did not come up")
		return
	}
	c := start(2, "--seeds", a.addr+","+b.addr)
	end := time.Now().Add(time.Duration(vlib.N(35, 180)) * time.Second)
	r := vlib.Rng("real")
	p := core.DevNetParams()
	height := ""
	for time.Now().Before(end) {
		for _, n := range []*nd{a, b, c} {
			if h := get(n, "/wallet/head/height"); h != "" && h > height {
				height = h
			}
			get(n, "/wallet/balance?publicKeyHash="+pkh.String())
			get(n, "/wallet/richlist")
			get(n, "/wallet/utxos?publicKeyHash="+pkh.String())
			rep.Count("real_requests", 4)
		}
		q, v, err := vwire.DialPeer([]string{a.addr, b.addr}[r.Intn(2)], "", fmt.Sprintf("r%d", r.Intn(5)), p, 5*time.Second)
		if err == nil && v == "continue" {
			q.Start()
			q.RequestAddrs()
			q.SyncNow()
			q.SendAddrs(map[string]string{"q": "127.0.0.1:1", "w": a.addr})
			time.Sleep(time.Duration(r.Intn(400)) * time.Millisecond)
			q.Stop()
			rep.Count("real_visits", 1)
		}
		// pay somebody
		wc, err := client.NewWalletClient(a.url, "v0.0.0-dev")
		if err == nil {
			if u, err := wc.GetManyUtxos([]H{pkh}, true); err == nil && len(u) > 0 {
				hh, _ := wc.GetHeadHeight()
				if tx, err := core.MakeOutboundTx(p, []*ecdsa.PrivateKey{k}, u, map[H]uint64{core.NewHashTRand(): 1 + uint64(r.Intn(100))}, 1, hh); err == nil {
					if _, err := wc.PostTx(*tx); err == nil {
						rep.Count("real_txs", 1)
					}
				}
			}
		}
		time.Sleep(300 * time.Millisecond)
	}
	rep.Seen("real_height", height)
	rep.Eval("real " + fmt.Sprint(height > "0"))
	for _, n := range all {
		rq, _ := http.NewRequest("POST", n.url+"/admin/terminate", nil)
		rq.Header.Set("Pw", "pw")
		if rs, err := http.DefaultClient.Do(rq); err == nil {
			rs.Body.Close()
		}
	}
	time.Sleep(300 * time.Millisecond)
}
