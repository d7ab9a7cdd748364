//go:build go1.22

package main

import (
	"bytes"
	"context"
	"crypto/x509"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
)

// The wallet runs as an account of its own that owns nothing but a scratch home.
const walUid = 54321

var scratchRoot struct {
	once sync.Once
	dir  string
	bin  string
}

// scratch makes (once) a directory the wallet's account may use, with the wallet program in it.
func scratch() (dir, bin string) {
	s := &scratchRoot
	s.once.Do(func() {
		// the check's own directory, which is removed with all else at the end
		work := os.Getenv("VX_WORK")
		os.Chmod(work, 0711)
		os.Chmod(filepath.Dir(work), 0711)
		d, err := os.MkdirTemp(work, "wal")
		if err != nil {
			panic(err)
		}
		s.dir = d
		os.Chmod(d, 0755)
		s.bin = filepath.Join(d, "bcwallet")
		raw, err := os.ReadFile(filepath.Join(os.Getenv("VX_BIN"), "bcwallet"))
		if err == nil {
			err = os.WriteFile(s.bin, raw, 0755)
		}
		if err != nil {
			panic(err)
		}
		os.Chmod(s.bin, 0755)
	})
	return s.dir, s.bin
}

// wal is one user's home with the wallet program.
type wal struct{ home string }

func newWal(name string) *wal {
	d, _ := scratch()
	w := &wal{home: filepath.Join(d, strings.NewReplacer(":", "-", "/", "-").Replace(name))}
	if err := os.Mkdir(w.home, 0700); err != nil {
		panic(err)
	}
	os.Chown(w.home, walUid, walUid)
	return w
}
func (w *wal) drop()       { os.RemoveAll(w.home) }
func (w *wal) dir() string { return filepath.Join(w.home, ".config", "basiccoin") }
func (w *wal) path(dev bool) string {
	if dev {
		return filepath.Join(w.dir(), "wallet-dev.json")
	}
	return filepath.Join(w.dir(), "wallet.json")
}

// put writes a file of the user's.
func (w *wal) put(path string, data []byte, perm os.FileMode) {
	for d := filepath.Dir(path); ; d = filepath.Dir(d) {
		if _, err := os.Stat(d); err == nil {
			break
		}
		os.MkdirAll(d, 0700)
	}
	if err := os.WriteFile(path, data, perm); err != nil {
		panic(err)
	}
	os.Chmod(path, perm)
	w.own()
}

// own gives everything below the home to the user.
func (w *wal) own() {
	filepath.WalkDir(w.home, func(p string, d fs.DirEntry, err error) error {
		if err == nil {
			os.Lchown(p, walUid, walUid)
		}
		return nil
	})
}

type res struct {
	out, errs string
	code      int
	killed    bool
	late      bool // did not end in time
}

var ansi = regexp.MustCompile("\x1b\\[[0-9]+m")

func (r res) text() string    { return ansi.ReplaceAllString(r.out, "") }
func (r res) lines() []string { return strings.Split(strings.TrimRight(r.text(), "\n"), "\n") }
func (r res) success() bool {
	l := r.lines()
	return r.code == 0 && !r.killed && l[len(l)-1] == "success"
}
func (r res) crashed() bool {
	return strings.Contains(r.errs, "goroutine ") || strings.Contains(r.errs, "panic:") || r.code == 2
}
func (r res) String() string {
	return fmt.Sprintf("exit %d killed=%v late=%v\n%s\n%s", r.code, r.killed, r.late, vlib.Trunc(r.text(), 1500), vlib.Trunc(r.errs, 1500))
}

type how struct {
	prefix []string // a program to run it under
	umask  string
	stdin  io.Reader
	one    bool // a single processor
	limit  time.Duration
	watch  func(out string, in io.WriteCloser) // called with everything printed so far whenever something is printed
}

func (w *wal) run(h how, args ...string) res {
	_, bin := scratch()
	if h.umask == "" {
		h.umask = "022"
	}
	if h.limit == 0 {
		h.limit = 100 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), h.limit)
	defer cancel()
	full := append([]string{"-c", "umask $0; exec \"$@\"", h.umask}, h.prefix...)
	full = append(append(full, bin), args...)
	cmd := exec.CommandContext(ctx, "/bin/sh", full...)
	cmd.Dir = w.home
	cmd.Env = []string{"HOME=" + w.home, "USER=vx", "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	if h.one {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: walUid, Gid: walUid, NoSetGroups: false}, Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 10 * time.Second
	var o, e bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = h.stdin, &o, &e
	if h.watch != nil {
		in, err := cmd.StdinPipe()
		if err != nil {
			return res{code: -2, errs: "(harness) " + err.Error()}
		}
		cmd.Stdout = &watcher{b: &o, f: func(out string) { h.watch(out, in) }}
	}
	err := cmd.Run()
	r := res{out: o.String(), errs: e.String()}
	var x *exec.ExitError
	switch {
	case ctx.Err() != nil:
		r.late = true
	case errors.As(err, &x):
		r.code = x.ExitCode()
		r.killed = !x.Exited() || r.code == 137
	case err != nil:
		r.code = -2
		r.errs += "\n(harness) " + err.Error()
	}
	return r
}

// ---- the wallet file, read independently ----

type wfile struct {
	dev    bool
	node   string
	keys   map[string][]byte // address -> DER
	order  []string
	raw    []byte
	absent bool
}

// readWallet parses a wallet file; why is what is wrong with it.
func readWallet(path string) (f wfile, why string) {
	raw, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return wfile{absent: true, keys: map[string][]byte{}}, ""
	}
	if err != nil {
		return f, err.Error()
	}
	var v struct {
		Dev      *bool   `json:"dev"`
		NodeAddr *string `json:"nodeAddr"`
		Keys     []struct {
			PublicKeyHash string `json:"publicKeyHash"`
			PrivateKey    []byte `json:"privateKey"`
		} `json:"keys"`
	}
	if err := json.Unmarshal(raw, &v); err != nil {
		return f, fmt.Sprintf("not complete JSON: %v (%d bytes)", err, len(raw))
	}
	if v.Dev == nil || v.NodeAddr == nil {
		return f, "settings missing"
	}
	f = wfile{dev: *v.Dev, node: *v.NodeAddr, keys: map[string][]byte{}, raw: raw}
	for _, k := range v.Keys {
		p, err := x509.ParseECPrivateKey(k.PrivateKey)
		if err != nil {
			return f, "unreadable private key: " + err.Error()
		}
		pub, err := x509.MarshalPKIXPublicKey(p.Public())
		if err != nil {
			return f, err.Error()
		}
		if h := vmodel.HBytes(pub).String(); h != strings.ToLower(k.PublicKeyHash) {
			return f, fmt.Sprintf("the key filed under %s belongs to %s", k.PublicKeyHash, h)
		}
		a := strings.ToLower(k.PublicKeyHash)
		f.keys[a] = k.PrivateKey
		f.order = append(f.order, a)
	}
	return f, ""
}

type wkey struct {
	addr string
	der  []byte
}

func keyJSON(k *vmodel.Key) wkey {
	der, err := x509.MarshalECPrivateKey(k.Priv)
	if err != nil {
		panic(err)
	}
	return wkey{k.Pkh.String(), der}
}

func walletJSON(dev bool, node string, keys []wkey) []byte {
	ks := []any{}
	for _, k := range keys {
		ks = append(ks, map[string]any{"publicKeyHash": k.addr, "privateKey": k.der})
	}
	b, err := json.MarshalIndent(map[string]any{"dev": dev, "nodeAddr": node, "keys": ks}, "", "    ")
	if err != nil {
		panic(err)
	}
	return b
}

type watcher struct {
	b *bytes.Buffer
	f func(string)
}

func (w *watcher) Write(p []byte) (int, error) {
	n, err := w.b.Write(p)
	w.f(w.b.String())
	return n, err
}
