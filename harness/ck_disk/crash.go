//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/internal/verifx/vnode"
	"github.com/levilutz/basiccoin/internal/verifx/vwire"
	"github.com/levilutz/basiccoin/pkg/core"
)

// ---- the victim: a real node on a save directory, told what to do over a socket, noting announcements in a file ----

func sendEvent(c *vwire.Conn, ev bus.CandidateHeadEvent) {
	c.W(vwire.Str("event"), vwire.Hash(ev.Head), vwire.U64(uint64(len(ev.Txs))), vwire.U64(uint64(len(ev.Merkles))), vwire.U64(uint64(len(ev.Blocks))))
	for _, t := range ev.Txs {
		c.W(vwire.Tx(t))
	}
	for _, m := range ev.Merkles {
		c.W(vwire.Merkle(m))
	}
	for _, b := range ev.Blocks {
		c.W(vwire.Block(b))
	}
}

func victim(dir, markPath, addr string) {
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	c, err := vwire.Dial(addr, 120*time.Second)
	if err != nil {
		os.Exit(9)
	}
	mark, err := os.OpenFile(markPath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		os.Exit(9)
	}
	var p core.Params
	p.BlockReward, p.DifficultyPeriod, p.BlockTargetTime = c.RU64(), c.RU64(), c.RU64()
	p.MaxBlockVSize, p.MaxTxVSize = c.RU64(), c.RU64()
	p.OriginalTarget, p.MaxTarget = c.RHash(), c.RHash()
	var mu sync.Mutex
	note := func(s string) { // one write call per line
		mu.Lock()
		mark.Write([]byte(s + "\n"))
		mu.Unlock()
	}
	var node *vnode.Node
	var noted *atomic.Int64
	// caughtUp returns once all that the node announced so far is noted.
	caughtUp := func() {
		for node.DrainHeads(); noted.Load() < int64(len(node.Heads)); {
			runtime.Gosched()
		}
	}
	start := func() {
		b := bus.NewBus()
		sub := b.ValidatedHead.Sub()
		cnt := &atomic.Int64{}
		noted = cnt
		go func() { // spins, so that an announcement is noted at once
			for {
				if e, ok := sub.Pop(); ok {
					note("ann " + e.Head.String())
					cnt.Add(1)
				}
			}
		}()
		node = vnode.NewOn(b, p, false, &dir)
		if node.Barrier() != nil {
			c, _ := node.Crashed()
			note("failed " + strings.ReplaceAll(vlib.Trunc(c, 400), "\n", " | "))
		}
		caughtUp()
	}
	start()
	note("up")
	c.W(vwire.Str("ok"))
	for k := 0; ; k++ {
		cmd := c.RStr()
		if c.Err != nil {
			os.Exit(0)
		}
		switch cmd {
		case "event":
			ev := bus.CandidateHeadEvent{Head: c.RHash(), Blocks: []core.Block{}, Merkles: []core.MerkleNode{}, Txs: []core.Tx{}}
			nt, nm, nb := c.RU64(), c.RU64(), c.RU64()
			for ; nt > 0; nt-- {
				ev.Txs = append(ev.Txs, c.RTx())
			}
			for ; nm > 0; nm-- {
				ev.Merkles = append(ev.Merkles, c.RMerkle())
			}
			for ; nb > 0; nb-- {
				ev.Blocks = append(ev.Blocks, c.RBlock())
			}
			node.Offer(ev)
		case "tx":
			node.Submit(c.RTx())
		case "restart":
			start()
		case "quit":
			os.Exit(0)
		}
		caughtUp()
		note(fmt.Sprintf("done %d", k))
		c.W(vwire.Str("ok"))
	}
}

type crashScript struct {
	*script
	id    string
	dir   string
	mark  string
	steps []step
	heads []H // head that should be followed after each step
	final H
}

// runVictim feeds the script to a victim started by cmd; killAfter >= 0 kills it a while after that step was sent.
func (cs *crashScript) runVictim(argv []string, killAt int, killDelay time.Duration) (err error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	defer l.Close()
	cmd := exec.Command(argv[0], append(argv[1:], os.Args[0], vlib.Prop, "victim", cs.dir, cs.mark, l.Addr().String())...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return err
	}
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	defer syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	type acc struct {
		c   net.Conn
		err error
	}
	ch := make(chan acc, 1)
	go func() { c, e := l.Accept(); ch <- acc{c, e} }()
	var raw net.Conn
	select {
	case a := <-ch:
		if a.err != nil {
			return a.err
		}
		raw = a.c
	case e := <-exited:
		return fmt.Errorf("victim did not start: %v %s", e, vlib.Trunc(eb.String(), 2000))
	case <-time.After(60 * time.Second):
		return fmt.Errorf("victim did not connect: %s", vlib.Trunc(eb.String(), 2000))
	}
	c := vwire.Wrap(raw, 120*time.Second)
	defer c.Close()
	p := cs.w.P
	c.W(vwire.U64(p.BlockReward), vwire.U64(p.DifficultyPeriod), vwire.U64(p.BlockTargetTime), vwire.U64(p.MaxBlockVSize), vwire.U64(p.MaxTxVSize),
		vwire.Hash(p.OriginalTarget), vwire.Hash(p.MaxTarget))
	c.RStr()
	for k, st := range cs.steps {
		switch st.kind {
		case "event":
			sendEvent(c, st.ev)
		case "tx":
			c.W(vwire.Str("tx"), vwire.Tx(st.tx))
		case "restart":
			c.W(vwire.Str("restart"))
		}
		if k == killAt {
			time.Sleep(killDelay)
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-exited
			return nil
		}
		if c.RStr(); c.Err != nil {
			return fmt.Errorf("step %d (%s): %v %s", k, st.note, c.Err, vlib.Trunc(eb.String(), 3000))
		}
	}
	c.W(vwire.Str("quit"))
	select {
	case <-exited:
	case <-time.After(60 * time.Second):
		return fmt.Errorf("victim did not end")
	}
	return nil
}

func makeScript(id string, steps int) *crashScript {
	cs := &crashScript{script: newScript(id), id: id}
	base := filepath.Join(vlib.Work, strings.ReplaceAll(id, ":", "_"))
	os.MkdirAll(base, 0755)
	cs.dir, cs.mark = filepath.Join(base, "save"), filepath.Join(base, "marks")
	for k := 0; k < steps; k++ {
		st := cs.next()
		if k > 2 && (cs.w.R.Intn(7) == 0 || (len(cs.steps) > 0 && cs.steps[len(cs.steps)-1].bad && cs.w.R.Intn(2) == 0)) {
			st2 := step{kind: "restart", note: "restart"}
			cs.steps = append(cs.steps, st2)
		}
		cs.steps = append(cs.steps, st)
	}
	cs.final = cs.tip
	return cs
}

// ---- the recorded file operations ----

type fop struct {
	kind string // mkdir, creat (open with O_CREAT/O_TRUNC), write, rename, unlink, mark
	path string
	to   string
	data []byte
	off  int64
	trun bool
}

var reLine = regexp.MustCompile(`^(\d+) +(.*)$`)
var reCall = regexp.MustCompile(`^(\w+)\((.*)\)\s+= (-?\d+|\?)(.*)$`)
var reUnf = regexp.MustCompile(`^(\w+)\((.*) <unfinished \.\.\.>$`)
var reRes = regexp.MustCompile(`^<\.\.\. (\w+) resumed>(.*)$`)

// unq decodes an strace -xx string.
func unq(s string) ([]byte, bool) {
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '"' {
		return nil, false
	}
	e := strings.IndexByte(s[1:], '"')
	if e < 0 || strings.HasPrefix(s[e+2:], "...") {
		return nil, false
	}
	b, err := hex.DecodeString(strings.ReplaceAll(s[1:1+e], `\x`, ""))
	return b, err == nil
}

// args splits a call's arguments (strings are hex only, so commas are safe).
func splitArgs(s string) []string {
	parts := strings.Split(s, ", ")
	for i := range parts {
		parts[i] = strings.TrimSpace(parts[i])
	}
	return parts
}

func parseTrace(path, dir, mark string) ([]fop, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	type fd struct {
		path string
		off  int64
		app  bool
	}
	fds := map[string]*fd{}
	out := []fop{}
	pend := map[string]string{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	under := func(p string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }
	for sc.Scan() {
		m := reLine.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		pid, rest := m[1], m[2]
		if u := reUnf.FindStringSubmatch(rest); u != nil {
			pend[pid] = u[1] + "(" + u[2]
			continue
		}
		if u := reRes.FindStringSubmatch(rest); u != nil {
			rest = pend[pid] + u[2]
			delete(pend, pid)
		}
		c := reCall.FindStringSubmatch(rest)
		if c == nil || strings.HasPrefix(c[3], "-") || c[3] == "?" {
			continue
		}
		call, a, ret := c[1], splitArgs(c[2]), c[3]
		bad := func() error { return fmt.Errorf("cannot interpret traced call: %s", vlib.Trunc(rest, 300)) }
		str := func(i int) string {
			if i >= len(a) {
				return ""
			}
			b, ok := unq(a[i])
			if !ok {
				return ""
			}
			return string(b)
		}
		switch call {
		case "open", "openat", "creat":
			i := 0
			if call == "openat" {
				i = 1
			}
			p := filepath.Clean(str(i))
			flags := ""
			if i+1 < len(a) {
				flags = a[i+1]
			}
			if call == "creat" {
				flags = "O_CREAT|O_TRUNC"
			}
			delete(fds, ret)
			if p == mark {
				fds[ret] = &fd{path: p}
			} else if under(p) {
				fds[ret] = &fd{path: p, app: strings.Contains(flags, "O_APPEND")}
				if strings.Contains(flags, "O_CREAT") || strings.Contains(flags, "O_TRUNC") {
					out = append(out, fop{kind: "creat", path: p, trun: strings.Contains(flags, "O_TRUNC")})
				}
			}
		case "close":
			delete(fds, a[0])
		case "write", "pwrite64":
			d := fds[a[0]]
			if d == nil {
				continue
			}
			b, ok := unq(a[1])
			n, _ := strconv.Atoi(ret)
			if !ok || n > len(b) {
				return nil, bad()
			}
			if d.path == mark {
				out = append(out, fop{kind: "mark", data: b[:n]})
				continue
			}
			off := d.off
			if call == "pwrite64" {
				fmt.Sscan(a[3], &off)
			} else {
				if d.app {
					off = -1
				}
				d.off += int64(n)
			}
			out = append(out, fop{kind: "write", path: d.path, data: b[:n], off: off})
		case "lseek":
			if d := fds[a[0]]; d != nil {
				d.off, _ = strconv.ParseInt(ret, 10, 64)
			}
		case "mkdir", "mkdirat":
			i := 0
			if call == "mkdirat" {
				i = 1
			}
			if p := filepath.Clean(str(i)); under(p) {
				out = append(out, fop{kind: "mkdir", path: p})
			}
		case "rename", "renameat", "renameat2", "link", "linkat":
			i, j := 0, 1
			if len(a) >= 4 {
				i, j = 1, 3
			}
			p, q := filepath.Clean(str(i)), filepath.Clean(str(j))
			if under(p) || under(q) {
				if !under(p) || !under(q) || strings.HasPrefix(call, "link") {
					return nil, bad()
				}
				out = append(out, fop{kind: "rename", path: p, to: q})
			}
		case "unlink", "unlinkat", "rmdir":
			i := 0
			if call == "unlinkat" {
				i = 1
			}
			if p := filepath.Clean(str(i)); under(p) {
				out = append(out, fop{kind: "unlink", path: p})
			}
		case "ftruncate", "truncate":
			p := str(0)
			if d := fds[a[0]]; call == "ftruncate" && d != nil {
				p = d.path
			}
			if under(p) {
				out = append(out, fop{kind: "trunc", path: p, off: func() int64 { v, _ := strconv.ParseInt(a[1], 10, 64); return v }()})
			}
		case "dup", "dup2", "dup3", "writev", "pwritev", "sendfile", "copy_file_range", "fallocate", "symlink", "symlinkat":
			for _, x := range a {
				if d := fds[x]; d != nil && d.path != mark {
					return nil, bad()
				}
			}
		}
	}
	return out, sc.Err()
}

// fsState is a directory tree being rebuilt operation by operation.
type fsState struct {
	dirs  map[string]bool
	files map[string][]byte
}

func (s *fsState) apply(o fop, partial int) {
	switch o.kind {
	case "mkdir":
		s.dirs[o.path] = true
	case "creat":
		if _, ok := s.files[o.path]; !ok || o.trun {
			s.files[o.path] = []byte{}
		}
	case "write":
		d := o.data
		if partial >= 0 {
			d = d[:partial]
		}
		old := s.files[o.path]
		off := int(o.off)
		if off < 0 {
			off = len(old)
		}
		n := append([]byte{}, old...)
		for len(n) < off+len(d) {
			n = append(n, 0)
		}
		copy(n[off:], d)
		s.files[o.path] = n
	case "rename":
		if d, ok := s.files[o.path]; ok {
			delete(s.files, o.path)
			s.files[o.to] = d
		}
	case "unlink":
		delete(s.files, o.path)
		delete(s.dirs, o.path)
	case "trunc":
		old := s.files[o.path]
		n := make([]byte, o.off)
		copy(n, old)
		s.files[o.path] = n
	}
}

func (s *fsState) copy() *fsState {
	n := &fsState{dirs: map[string]bool{}, files: map[string][]byte{}}
	for k := range s.dirs {
		n.dirs[k] = true
	}
	for k, v := range s.files {
		n.files[k] = v
	}
	return n
}

func (s *fsState) write(from, to string) error {
	ds := []string{}
	for d := range s.dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		if err := os.MkdirAll(to+strings.TrimPrefix(d, from), 0750); err != nil {
			return err
		}
	}
	for f, b := range s.files {
		if err := os.WriteFile(to+strings.TrimPrefix(f, from), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

// ---- judging one crash ----

// judge restarts a real node on dir. allowed are the heads it may come up with.
func (cs *crashScript) judge(id, what, dir string, allowed []H, full bool) bool {
	n := vnode.New(cs.w.P, false, &dir)
	fail := func(key, f string, a ...any) bool {
		ops := []string{}
		for _, s := range cs.steps {
			ops = append(ops, s.note)
		}
		rep.Violate(key, id, what+": "+fmt.Sprintf(f, a...), map[string]any{"steps": ops, "params": cs.w.P})
		return false
	}
	if err := n.Barrier(); err != nil {
		if c, ok := n.Crashed(); ok {
			return fail("restart-fails", "the restarted node fails: %s", c)
		}
		rep.Inconclusive("%s %s: %v", id, what, err)
		return false
	}
	n.DrainHeads()
	ok := false
	for _, h := range allowed {
		ok = ok || h == n.Head
	}
	if !ok {
		return fail("wrong-head", "the restarted node is at height %d (%s) instead of %s", cs.w.All.Blocks[n.Head].Height, n.Head, names(cs.w, allowed))
	}
	if d := cs.cmpLedger(n, n.Head); d != "" {
		if strings.HasPrefix(d, "stuck") {
			rep.Inconclusive("%s %s: %s", id, what, d)
			return false
		}
		return fail("wrong-ledger", "the restarted node is at height %d but %s", cs.w.All.Blocks[n.Head].Height, d)
	}
	seen, bad := cs.cmpRecords(n.Inv, func(H) bool { return false })
	rep.Count("records_compared", int64(seen))
	if bad != "" {
		return fail("bad-record", "%s", bad)
	}
	for _, t := range cs.pool {
		if tid := vmodel.TxID(t); n.Inv.HasTx(tid) && (!vmodel.SameTx(n.Inv.GetTx(tid), t) || n.Inv.GetTxVSize(tid) != vmodel.TxVSize(t)) {
			return fail("bad-record", "pending transaction %s reads back altered", tid)
		}
	}
	// bring it to the final chain, as a peer's sync would
	var bs []*vmodel.Bundle
	for _, b := range cs.w.All.Path(cs.final) {
		bs = append(bs, cs.w.BunBy[b])
	}
	ev := vnode.Event(cs.final, bs...)
	if !full {
		ev = thin(ev, invKnown(n.Inv))
	}
	if cs.better(cs.final, n.Head) {
		if _, err := n.Offer(ev); err != nil {
			if c, ok := n.Crashed(); ok {
				return fail("sync-fails", "following the chain fails: %s", c)
			}
			rep.Inconclusive("%s %s: %v", id, what, err)
			return false
		}
		n.DrainHeads()
		if n.Head != cs.final {
			return fail("cannot-follow", "the restarted node cannot be brought from height %d to its old chain at height %d", cs.w.All.Blocks[n.Head].Height, cs.w.All.Blocks[cs.final].Height)
		}
		if d := cs.cmpLedger(n, n.Head); d != "" && !strings.HasPrefix(d, "stuck") {
			return fail("wrong-ledger", "after following the old chain: %s", d)
		}
	}
	return true
}

func names(w *vmodel.World, hs []H) string {
	p := []string{}
	for _, h := range hs {
		p = append(p, fmt.Sprintf("height %d (%s)", w.All.Blocks[h].Height, h))
	}
	return strings.Join(p, " or ")
}

// allowedAt: the last head announced before each operation, and those announced before the next step ended.
func allowedAt(ops []fop, k int) []H {
	out := []H{{}}
	for _, o := range ops[:k] {
		if o.kind == "mark" && bytes.HasPrefix(o.data, []byte("ann ")) {
			h, _ := core.NewHashTFromString(strings.TrimSpace(string(o.data[4:])))
			out[0] = h
		}
	}
	for _, o := range ops[k:] {
		if o.kind != "mark" {
			continue
		}
		if bytes.HasPrefix(o.data, []byte("ann ")) {
			h, _ := core.NewHashTFromString(strings.TrimSpace(string(o.data[4:])))
			out = append(out, h)
		} else {
			break
		}
	}
	return out
}

func crashes() {
	if _, err := exec.LookPath("strace"); err != nil {
		rep.Errorf("strace is not there: %v", err)
		return
	}
	n := vlib.N(10, 60)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("crash:%d", i)
		if vlib.OnlyCase != "" && vlib.OnlyCase != id {
			continue
		}
		cs := makeScript(id, vlib.N(9, 22))
		trace := filepath.Join(filepath.Dir(cs.dir), "trace")
		err := cs.runVictim([]string{"strace", "-f", "-qq", "-xx", "-s", "1000000", "-o", trace, "-e",
			"trace=open,openat,creat,close,write,pwrite64,lseek,mkdir,mkdirat,rename,renameat,renameat2,link,linkat,unlink,unlinkat,rmdir,ftruncate,truncate,dup,dup2,dup3,writev,pwritev,sendfile,copy_file_range,fallocate,symlink,symlinkat"}, -1, 0)
		if err != nil {
			rep.Errorf("%s: recording failed: %v", id, err)
			continue
		}
		ops, err := parseTrace(trace, cs.dir, cs.mark)
		if err != nil {
			rep.Errorf("%s: %v", id, err)
			continue
		}
		// the rebuilt end state must be the real one, or the recording means nothing
		st := &fsState{dirs: map[string]bool{}, files: map[string][]byte{}}
		nops := 0
		for _, o := range ops {
			if o.kind != "mark" {
				nops++
			}
			if o.kind == "mark" && bytes.HasPrefix(o.data, []byte("failed")) {
				rep.Violate("restart-fails", id, "a restarted node "+string(o.data), nil)
			}
			st.apply(o, -1)
		}
		real := 0
		filepath.Walk(cs.dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				real++
				b, _ := os.ReadFile(p)
				if w, ok := st.files[p]; !ok || !bytes.Equal(b, w) {
					rep.Errorf("%s: the recording does not reproduce %s", id, p)
				}
			}
			return nil
		})
		if real != len(st.files) || nops == 0 {
			rep.Errorf("%s: the recording ends with %d files instead of %d", id, len(st.files), real)
			continue
		}
		rep.Count("file_operations", int64(nops))
		// every crash point, and partial writes
		type point struct {
			k, part int
			st      *fsState
		}
		cur := &fsState{dirs: map[string]bool{}, files: map[string][]byte{}}
		points := []point{{0, -1, cur.copy()}}
		for k, o := range ops {
			if o.kind == "mark" {
				continue
			}
			if o.kind == "write" && len(o.data) > 1 {
				l := len(o.data)
				parts := map[int]bool{1: true, l / 2: true, l - 1: true, 1 + cs.w.R.Intn(l-1): true}
				if i := bytes.LastIndexByte(o.data, '\n'); i > 0 {
					parts[i] = true
					if i+2 < l {
						parts[i+2] = true
					}
				}
				ps := []int{}
				for x := range parts {
					ps = append(ps, x)
				}
				sort.Ints(ps)
				if !vlib.Thorough && len(ps) > 2 { // two of them in the quick tier
					a := cs.w.R.Intn(len(ps))
					ps = []int{ps[a], ps[(a+1+cs.w.R.Intn(len(ps)-1))%len(ps)]}
				}
				for _, x := range ps {
					s := cur.copy()
					s.apply(o, x)
					points = append(points, point{k, x, s})
				}
			}
			cur.apply(o, -1)
			points = append(points, point{k + 1, -1, cur.copy()})
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan bool, 40)
		for j, p := range points {
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				rep.Guard(id, func() {
					d := filepath.Join(filepath.Dir(cs.dir), fmt.Sprintf("r%d", j))
					defer os.RemoveAll(d)
					if err := p.st.write(cs.dir, d); err != nil {
						rep.Errorf("%s: %v", id, err)
						return
					}
					what := fmt.Sprintf("death after %d file operations", p.k)
					kind := "start"
					if p.k > 0 && p.part < 0 {
						kind = "after " + ops[p.k-1].kind + " " + area(cs.dir, ops[p.k-1])
						what += " (the last: " + ops[p.k-1].kind + " " + strings.TrimPrefix(ops[p.k-1].path, cs.dir) + ")"
					}
					if p.part >= 0 {
						kind = "inside " + area(cs.dir, ops[p.k])
						what = fmt.Sprintf("death %d bytes into operation %d (%s %s of %d bytes)", p.part, p.k+1, ops[p.k].kind, strings.TrimPrefix(ops[p.k].path, cs.dir), len(ops[p.k].data))
						rep.Count("partial_writes", 1)
					}
					cs.judge(id, what, d, allowedAt(ops, p.k), j%2 == 0)
					rep.Count("crash_points", 1)
					rep.Eval(fmt.Sprint(i, kind, len(allowedAt(ops, p.k)), p.k*20/len(ops)))
					mu.Lock()
					defer mu.Unlock()
				})
			}()
		}
		wg.Wait()
		if i == 0 {
			ex := []string{}
			for _, o := range ops[:min(len(ops), 12)] {
				ex = append(ex, o.kind+" "+strings.TrimPrefix(o.path, cs.dir)+vlib.Trunc(string(o.data), 30))
			}
			rep.Sample(map[string]any{"case": id, "first_operations": ex, "steps": len(cs.steps)})
		}
		os.RemoveAll(filepath.Dir(cs.dir))
	}
}

func area(dir string, o fop) string {
	p := strings.TrimPrefix(strings.TrimPrefix(o.path, dir), "/")
	if i := strings.IndexByte(p, '/'); i > 0 {
		return p[:i]
	}
	return p
}

// kills really kills running nodes and restarts them on what they left.
func kills() {
	rep.Parallel("kill", vlib.N(48, 300), 8, func(i int, id string) {
		cs := makeScript(id, 12)
		defer os.RemoveAll(filepath.Dir(cs.dir))
		r := cs.w.R
		at := r.Intn(len(cs.steps))
		delay := time.Duration(r.Intn(60000)) * time.Microsecond
		if err := cs.runVictim([]string{"env"}, at, delay); err != nil {
			rep.Errorf("%s: %v", id, err)
			return
		}
		raw, _ := os.ReadFile(cs.mark)
		allowed := []H{{}}
		for _, l := range strings.Split(string(raw), "\n") {
			if strings.HasPrefix(l, "ann ") {
				h, e := core.NewHashTFromString(l[4:])
				if e == nil {
					allowed[0] = h
				}
			}
		}
		// what the interrupted step could still lead to
		if st := cs.steps[at]; st.kind == "event" && !st.bad && cs.better(st.ev.Head, allowed[0]) {
			allowed = append(allowed, st.ev.Head)
		}
		cs.judge(id, fmt.Sprintf("killed %s after step %d was sent", delay, at), cs.dir, allowed, i%2 == 0)
		rep.Count("real_kills", 1)
		rep.Eval(fmt.Sprint("kill", at, len(allowed)))
	})
}
