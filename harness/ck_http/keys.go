//go:build go1.22

package main

import (
	"bytes"
	"crypto/elliptic"
	"fmt"
	"io/fs"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
)

func keys() {
	scratch()
	fakeNodes()
	fillPool()
	rep.Parallel("history", vlib.N(80, 800), 8, func(i int, id string) { keyHistory(i, id) })
	rep.Parallel("limit", vlib.N(250, 2500), 8, func(i int, id string) { keyLimit(i, id) })
	rep.Parallel("place", vlib.N(70, 700), 8, func(i int, id string) { keyPlace(i, id) })
	keyFaults()
}

func fillPool() {
	for k := 0; k < 300; k++ {
		c := elliptic.P256()
		if k%10 == 9 {
			c = []elliptic.Curve{elliptic.P224(), elliptic.P384(), elliptic.P521()}[k/10%3]
		}
		pool = append(pool, keyJSON(vmodel.NewKey(c)))
	}
}

var pool []wkey
var fakeUrl = map[bool]string{} // dev -> a node that only knows its version
var deadUrl string

func fakeNodes() {
	for _, dev := range []bool{true, false} {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		ver := "v0.0.0"
		if dev {
			ver += "-dev"
		}
		m := http.NewServeMux()
		m.HandleFunc("/version", func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, ver) })
		go http.Serve(l, m)
		fakeUrl[dev] = "http://" + l.Addr().String()
	}
	l, _ := net.Listen("tcp", "127.0.0.1:0")
	deadUrl = "http://" + l.Addr().String()
	l.Close()
}

// owner is what a user knows: which addresses were reported, and what the keys were when first seen.
type owner struct {
	id   string
	r    *rand.Rand
	w    *wal
	keys map[bool]map[string][]byte
	node map[bool]string
	had  map[bool]bool // there was a wallet file
	log  []string
}

func newOwner(id string, r *rand.Rand) *owner {
	return &owner{id: id, r: r, w: newWal(id), keys: map[bool]map[string][]byte{true: {}, false: {}}, node: map[bool]string{}, had: map[bool]bool{}}
}

// start gives the user wallets with some keys.
func (o *owner) start(dev bool, n int, node string) {
	ks := []wkey{}
	at := o.r.Intn(len(pool))
	for k := 0; k < n; k++ {
		ks = append(ks, pool[(at+k)%len(pool)])
	}
	o.w.put(o.w.path(dev), walletJSON(dev, node, ks), 0600)
	for _, k := range ks {
		o.keys[dev][k.addr] = k.der
	}
	o.node[dev] = node
	o.had[dev] = true
}

func (o *owner) fail(key, f string, a ...any) {
	rep.Violate(key, o.id, fmt.Sprintf(f, a...), map[string]any{"log": o.log})
}

var addrLine = regexp.MustCompile(`(?m)^[0-9a-f]{64}$`)

// after judges the files after a command; imported is what the command was asked to import; healthy says nothing was made to fail.
func (o *owner) after(dev bool, r res, cmd []string, imported []wkey, newNode string, healthy bool) bool {
	what := strings.Join(cmd, " ")
	o.log = append(o.log, vlib.Trunc("bcwallet "+what, 200)+" -> "+vlib.Trunc(r.String(), 400))
	if r.late && healthy {
		o.fail("does-not-end", "bcwallet %s does not end", what)
		return false
	}
	if r.late {
		rep.Inconclusive("%s: %s did not end", o.id, what)
		return false
	}
	reported := map[string]bool{}
	verb := ""
	if len(cmd) > 0 {
		verb = cmd[0]
	}
	if verb == "generate" {
		for _, a := range addrLine.FindAllString(r.text(), -1) {
			reported[a] = true
		}
	}
	if verb == "import" && r.success() {
		for _, k := range imported {
			reported[k.addr] = true
		}
	}
	for _, d := range []bool{true, false} {
		f, why := readWallet(o.w.path(d))
		if why != "" {
			o.fail("unreadable:"+verb, "after %q (%s) the wallet file is damaged: %s", what, r, why)
			return false
		}
		if f.absent {
			if o.had[d] {
				o.fail("gone:"+verb, "after %q (%s) the wallet file is gone", what, r)
				return false
			}
			if d == dev && len(reported) > 0 {
				o.fail("reported-not-saved:"+verb, "%q (%s) reported an address, but there is no wallet file", what, r)
				return false
			}
			continue
		}
		o.had[d] = true
		for a, der := range o.keys[d] {
			if !bytes.Equal(f.keys[a], der) {
				o.fail("key-lost:"+verb, "after %q (%s) the private key of %s is gone or altered", what, r, a)
				return false
			}
		}
		if d == dev {
			for a := range reported {
				if f.keys[a] == nil {
					o.fail("reported-not-saved:"+verb, "%q (%s) reported %s, but its private key is not in the wallet file", what, r, a)
					return false
				}
			}
			for _, k := range imported {
				if reported[k.addr] && !bytes.Equal(f.keys[k.addr], k.der) {
					o.fail("import-altered", "the imported key of %s was altered", k.addr)
					return false
				}
			}
			if healthy && verb == "generate" && r.success() {
				if len(reported) != 1 {
					o.fail("generate-report", "%q (%s) did not report one address", what, r)
					return false
				}
				if len(f.keys) != len(o.keys[d])+1 {
					o.fail("generate-count", "%q (%s): the wallet had %d keys and now has %d", what, r, len(o.keys[d]), len(f.keys))
					return false
				}
			}
		} else if len(f.keys) != len(o.keys[d]) {
			o.fail("other-wallet", "%q changed the other network's wallet", what)
			return false
		}
		if f.dev != d {
			o.fail("dev-setting", "after %q the wallet's network setting is wrong", what)
			return false
		}
		want := o.node[d]
		if d == dev && newNode != "" {
			if r.success() && f.node != newNode {
				o.fail("node-setting", "after %q (%s) the node address is %q, not %q", what, r, f.node, newNode)
				return false
			}
			if f.node == newNode {
				want = newNode
			}
		}
		if want != "" && f.node != want {
			o.fail("node-setting", "after %q (%s) the node address is %q, it was %q", what, r, f.node, want)
			return false
		}
		o.node[d] = f.node
		for a, der := range f.keys {
			o.keys[d][a] = der
		}
	}
	// nobody else may read a private key, wherever it lies
	bad := ""
	filepath.WalkDir(o.w.dir(), func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		st, err := d.Info()
		if err == nil && st.Mode().IsRegular() && st.Mode().Perm()&0077 != 0 {
			bad = fmt.Sprintf("%s has mode %v", p, st.Mode())
		}
		return nil
	})
	if bad != "" {
		o.fail("not-private", "after %q: %s", what, bad)
		return false
	}
	return true
}

func net2(dev bool, cmd []string) []string {
	if dev {
		return append([]string{"dev"}, cmd...)
	}
	return cmd
}

// importFile writes something to import; good keys are those it lists if it is a proper wallet file.
func (o *owner) importFile(k int) (path string, good []wkey, kind string) {
	r := o.r
	path = filepath.Join(o.w.home, fmt.Sprintf("imp%d.json", k))
	some := func(n int) (ks []wkey) {
		for j := 0; j < n; j++ {
			ks = append(ks, pool[r.Intn(len(pool))])
		}
		return
	}
	switch r.Intn(10) {
	case 0:
		return filepath.Join(o.w.home, "missing.json"), nil, "missing"
	case 1:
		full := walletJSON(true, "x", some(3))
		o.w.put(path, full[:r.Intn(len(full))], 0600)
		return path, nil, "cut"
	case 2:
		ks := some(2)
		ks[0].addr, ks[1].addr = ks[1].addr, ks[0].addr
		if ks[0].addr == ks[1].addr {
			return path, nil, "missing"
		}
		o.w.put(path, walletJSON(false, "x", ks), 0600)
		return path, nil, "swapped"
	case 3:
		ks := some(2)
		der := append([]byte{}, ks[0].der...)
		der[len(der)/2] ^= 1 << r.Intn(8)
		ks[0].der = der
		o.w.put(path, walletJSON(false, "x", ks), 0600)
		return path, nil, "altered"
	case 4:
		o.w.put(path, []byte([]string{"", "null", "[]", "5", "{\"keys\":[null]}", "{\"keys\":{}}", "{\"keys\":[{}]}", "\x00\x01"}[r.Intn(8)]), 0600)
		return path, nil, "odd"
	case 5:
		return o.w.home, nil, "directory"
	default:
		ks := some(r.Intn(12))
		for a, der := range o.keys[r.Intn(2) == 0] { // also keys it has
			if r.Intn(3) == 0 {
				ks = append(ks, wkey{a, der})
			}
		}
		o.w.put(path, walletJSON(r.Intn(2) == 0, "http://elsewhere", ks), 0644)
		return path, ks, "good"
	}
}

// keyHistory: any sequence of commands, nothing failing from outside.
func keyHistory(i int, id string) {
	r := vlib.Rng("keys", id)
	o := newOwner(id, r)
	defer o.w.drop()
	for _, dev := range []bool{true, false} {
		switch {
		case !dev || r.Intn(3) > 0: // the other network's default node would have to be looked for on the internet
			o.start(dev, []int{0, 1, 2, 7, 60, 250}[r.Intn(6)], []string{fakeUrl[dev], fakeUrl[!dev], deadUrl, "", "http://x y<>&\"'\\é☃ ", "nonsense://"}[r.Intn(6)])
		}
	}
	um := []string{"022", "000", "077", "002"}[r.Intn(4)]
	for k := 0; k < vlib.N(14, 40); k++ {
		dev := r.Intn(3) > 0
		var cmd []string
		var good []wkey
		newNode := ""
		mustWork := false
		switch r.Intn(12) {
		case 0, 1, 2:
			cmd = []string{"generate"}
			mustWork = true
		case 3:
			cmd = []string{"generate", []string{"0", "a", "f", "7", ""}[r.Intn(5)]}
			mustWork = true
		case 4, 5, 6:
			var p, kind string
			p, good, kind = o.importFile(k)
			cmd = []string{"import", p}
			mustWork = kind == "good"
			rep.Seen("imports", kind)
		case 7:
			newNode = fakeUrl[dev] + []string{"", "/"}[r.Intn(2)]
			cmd = []string{"connect", newNode}
			mustWork = true
		case 8:
			newNode = []string{fakeUrl[!dev], deadUrl, "x", "http://", ":", "http://127.0.0.1:1/ y"}[r.Intn(6)]
			cmd = []string{"connect", newNode}
		case 9:
			cmd = []string{[]string{"version", "get-config-path", "help", "balance", "utxos", "rich-list", "consolidate"}[r.Intn(7)]}
		case 10:
			cmd = []string{[]string{"nonsense", "generate", "import", "connect", ""}[r.Intn(5)], "help"}
		default:
			cmd = []string{[]string{"import", "connect", "send", "tx-block"}[r.Intn(4)]}
		}
		rs := o.w.run(how{umask: um}, net2(dev, cmd)...)
		if !o.after(dev, rs, cmd, good, newNode, len(cmd) < 2 || cmd[1] != "help") {
			return
		}
		if mustWork && !rs.success() {
			o.fail("refused:"+cmd[0], "%q did not succeed though nothing is wrong: %s", cmd, rs)
			return
		}
		if len(cmd) > 1 && cmd[0] == "generate" && cmd[1] != "help" {
			if a := addrLine.FindString(rs.text()); !strings.HasPrefix(a, cmd[1]) {
				o.fail("prefix", "%q gave %s", cmd, a)
				return
			}
		}
		rep.Eval(fmt.Sprintf("history/%s/%v/%v", cmd[0], rs.success(), dev))
		rep.Count("commands", 1)
	}
	rep.Count("histories", 1)
}

// saving commands for the fault runs: what to run, and what it would add.
type saving struct {
	name  string
	first int // keys before; -1: no wallet yet
	other bool
}

var savings = []saving{{"generate", -1, false}, {"generate", 0, false}, {"generate", 3, true}, {"generate", 60, false}, {"import", 3, false}, {"import", 0, true}, {"connect", 5, false}, {"version", -1, false}, {"generate", 3, false}}

func (o *owner) prepare(s saving, dev bool) (cmd []string, good []wkey, node string) {
	if s.first >= 0 {
		o.start(dev, s.first, fakeUrl[dev])
	}
	if s.other {
		o.start(!dev, 4, fakeUrl[!dev])
	}
	switch s.name {
	case "import":
		p := filepath.Join(o.w.home, "imp.json")
		at := o.r.Intn(len(pool) - 40)
		good = pool[at : at+1+o.r.Intn(30)]
		o.w.put(p, walletJSON(dev, "http://elsewhere", good), 0600)
		return []string{"import", p}, good, ""
	case "connect":
		return []string{"connect", fakeUrl[dev] + "/"}, nil, fakeUrl[dev] + "/"
	}
	return []string{s.name}, nil, ""
}

// again: after whatever happened the wallet works on, with everything it had.
func (o *owner) again(dev bool) bool {
	rs := o.w.run(how{}, net2(dev, []string{"generate"})...)
	if !o.after(dev, rs, []string{"generate"}, nil, "", true) {
		return false
	}
	if !rs.success() {
		o.fail("stuck", "after the fault the wallet does not work any more: %s", rs)
		return false
	}
	return true
}

// keyLimit: the disk takes only so many bytes of a file.
func keyLimit(i int, id string) {
	r := vlib.Rng("limit", id)
	s := savings[i%len(savings)]
	o := newOwner(id, r)
	defer o.w.drop()
	dev := s.first < 0 || r.Intn(2) == 0
	cmd, good, node := o.prepare(s, dev)
	size := 80 + 260*(max(s.first, 0)+len(good)+1)
	lim := []int{0, 1, r.Intn(size), r.Intn(size), r.Intn(size), size - r.Intn(300)}[r.Intn(6)]
	rs := o.w.run(how{prefix: []string{"prlimit", fmt.Sprintf("--fsize=%d", max(lim, 0))}}, net2(dev, cmd)...)
	if !o.after(dev, rs, cmd, good, node, false) || !o.again(dev) {
		return
	}
	rep.Eval(fmt.Sprintf("limit/%s/%d/%v/%d", s.name, s.first, rs.success(), lim*4/size))
	rep.Count("limits", 1)
}

// keyPlace: the place the wallet lies in is out of order.
func keyPlace(i int, id string) {
	r := vlib.Rng("place", id)
	s := savings[[]int{1, 2, 3, 4, 6, 8}[r.Intn(6)]]
	o := newOwner(id, r)
	defer func() { os.Chmod(o.w.dir(), 0700); o.w.drop() }()
	dev := r.Intn(2) == 0
	cmd, good, node := o.prepare(s, dev)
	w := o.w
	undo := func() {}
	kind := []string{"dir-readonly", "file-readonly", "tmp-is-dir", "dir-open", "old-temp", "linked", "damaged"}[i%7]
	switch kind {
	case "dir-readonly":
		os.Chmod(w.dir(), 0500)
		undo = func() { os.Chmod(w.dir(), 0700) }
	case "file-readonly":
		os.Chmod(w.path(dev), 0400)
		undo = func() { os.Chmod(w.path(dev), 0600) }
	case "tmp-is-dir":
		os.Mkdir(w.path(dev)+".tmp", 0700)
		os.Mkdir(w.path(dev)+".tmp/x", 0700)
		w.own()
		undo = func() { os.RemoveAll(w.path(dev) + ".tmp") }
	case "dir-open":
		os.Chmod(w.dir(), 0777)
		os.Chmod(filepath.Dir(w.dir()), 0777)
	case "old-temp": // what an earlier death may have left behind
		full, _ := os.ReadFile(w.path(dev))
		w.put(w.path(dev)+".tmp", full[:r.Intn(len(full)+1)], 0600)
	case "linked":
		real := filepath.Join(w.home, "real.json")
		os.Rename(w.path(dev), real)
		os.Symlink(real, w.path(dev))
		w.own()
	}
	var damaged []byte
	if kind == "damaged" { // by hand: whatever is in there must stay
		full, _ := os.ReadFile(w.path(dev))
		damaged = [][]byte{full[:len(full)-1-r.Intn(20)], append([]byte("x"), full...), append(append([]byte{}, full...), "}"...), bytes.Replace(full, []byte("\"keys\""), []byte("\"keys\":"), 1),
			bytes.Replace(full, []byte("\"keys\": ["), []byte("\"keys\": [null,"), 1), bytes.Replace(full, []byte("\"dev\": "), []byte("\"dev\": 7"), 1)}[r.Intn(6)]
		if len(o.keys[dev]) == 0 {
			return
		}
		w.put(w.path(dev), damaged, 0600)
		undo = func() {
			now, err := os.ReadFile(w.path(dev))
			for a := range o.keys[dev] {
				if err != nil || !bytes.Contains(now, []byte(a)) {
					o.fail("damaged-overwritten", "a wallet file damaged by hand was overwritten: the key of %s is gone", a)
					return
				}
			}
			if f, why := readWallet(w.path(dev)); why != "" || len(f.keys) == 0 {
				w.put(w.path(dev), full, 0600)
				good, node = nil, ""
			}
		}
	}
	rs := w.run(how{umask: []string{"022", "000"}[r.Intn(2)]}, net2(dev, cmd)...)
	undo()
	if !o.after(dev, rs, cmd, good, node, false) || !o.again(dev) {
		return
	}
	rep.Eval(fmt.Sprintf("place/%s/%s/%v", kind, s.name, rs.success()))
	rep.Count("places", 1)
}

const calls = "openat,read,write,pwrite64,rename,renameat,renameat2,unlink,unlinkat,mkdir,mkdirat,fsync,fdatasync,ftruncate,chmod,fchmod,fchmodat,close,link,linkat,newfstatat,copy_file_range,sendfile"

var callRe = regexp.MustCompile(`^\d+ +(\w+)\(`)

// keyFaults: the process dies at, or is refused, each of its system calls in turn.
func keyFaults() {
	type job struct {
		s    saving
		dev  bool
		sys  string
		n    int
		fate string
	}
	var mu sync.Mutex
	var jobs []job
	rep.Parallel("record", len(savings), 8, func(i int, id string) {
		s := savings[i]
		r := vlib.Rng("record", id)
		o := newOwner(id, r)
		defer o.w.drop()
		dev := s.first < 0 || i%2 == 0
		cmd, good, node := o.prepare(s, dev)
		tr := filepath.Join(o.w.home, "trace")
		rs := o.w.run(how{one: true, prefix: []string{"strace", "-f", "-qq", "-o", tr, "-e", "trace=" + calls}}, net2(dev, cmd)...)
		if !o.after(dev, rs, cmd, good, node, true) {
			return
		}
		raw, err := os.ReadFile(tr)
		if err != nil || !rs.success() {
			rep.Errorf("%s: recording with strace: %v %s", id, err, rs)
			return
		}
		count := map[string]int{}
		for _, l := range strings.Split(string(raw), "\n") {
			if m := callRe.FindStringSubmatch(l); m != nil {
				count[m[1]]++
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for sys, c := range count {
			for n := 1; n <= c; n++ {
				jobs = append(jobs, job{s, dev, sys, n, "signal=KILL"})
				if sys != "close" {
					for _, e := range []string{"ENOSPC", "EIO", "EACCES"} {
						jobs = append(jobs, job{s, dev, sys, n, "error=" + e})
					}
				}
			}
		}
	})
	if rep.Violated() {
		return
	}
	rep.Count("fault_points", int64(len(jobs)))
	rep.Parallel("fault", len(jobs), 8, func(i int, id string) {
		j := jobs[i]
		r := vlib.Rng("fault", id)
		o := newOwner(id, r)
		defer o.w.drop()
		cmd, good, node := o.prepare(j.s, j.dev)
		tr := filepath.Join(o.w.home, "trace")
		rs := o.w.run(how{one: true, prefix: []string{"strace", "-f", "-qq", "-o", tr, "-e", "trace=" + j.sys, "-e", fmt.Sprintf("inject=%s:%s:when=%d", j.sys, j.fate, j.n)}}, net2(j.dev, cmd)...)
		raw, _ := os.ReadFile(tr)
		os.Remove(tr)
		o.log = append(o.log, fmt.Sprintf("%s call %d of %s", j.fate, j.n, j.sys))
		if !o.after(j.dev, rs, cmd, good, node, false) {
			return
		}
		where := ""
		for _, l := range strings.Split(string(raw), "\n") {
			m := callRe.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			if strings.Contains(l, "(INJECTED)") || rs.killed {
				switch {
				case strings.Contains(l, ".json.tmp"):
					where = "temp"
				case strings.Contains(l, ".json"):
					where = "wallet"
				case strings.Contains(l, "basiccoin") || strings.Contains(l, ".config"):
					where = "dir"
				case strings.Contains(l, "write(1,"):
					where = "output"
				default:
					where = "other"
				}
			}
		}
		if where == "" {
			rep.Count("faults_not_reached", 1)
			return
		}
		if !o.again(j.dev) {
			return
		}
		rep.Count("faults", 1)
		rep.Seen("fault_places", fmt.Sprintf("%s/%s/%s/%s", j.s.name, j.sys, j.fate, where))
		rep.Eval(fmt.Sprintf("fault/%s/%d/%s/%s/%s/%v", j.s.name, j.s.first, j.sys, j.fate, where, rs.success()))
	})
}
