//go:build go1.22

// Package vlib holds what every monitor shares: the report, case scheduling and PRNG derivation.
package vlib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Violation struct {
	Key    string `json:"key"`
	Msg    string `json:"msg"`
	Case   string `json:"case,omitempty"`
	Detail any    `json:"detail,omitempty"`
}

type Report struct {
	mu           sync.Mutex
	violations   []Violation
	nViol        map[string]int
	errors       []string
	inconclusive []string
	undecided    bool
	counters     map[string]int64
	distinct     map[uint64]struct{}
	dnamed       map[string]map[uint64]struct{}
	samples      []any
	kinds        []string // some of the distinct evaluations, spread over the run
	out          string
	finished     bool
	StopAfter    int  // Parallel starts no further case after this many violations (0 = never)
	Mute         bool // verdicts are only counted
}

var Prop = os.Getenv("VX_PROP")
var Work = os.Getenv("VX_WORK")
var Bin = os.Getenv("VX_BIN")
var Verif = os.Getenv("VX_VERIF")
var Thorough = os.Getenv("VX_TIER") == "thorough"
var Seed = func() int64 {
	v, _ := strconv.ParseInt(os.Getenv("VX_SEED"), 10, 64)
	return v
}()
var OnlyCase = os.Getenv("VX_CASE")

// N picks the number of cases for the tier.
func N(quick, thorough int) int {
	if Thorough {
		return thorough
	}
	return quick
}

func NewReport() *Report {
	return &Report{
		nViol: map[string]int{}, counters: map[string]int64{}, distinct: map[uint64]struct{}{},
		dnamed: map[string]map[uint64]struct{}{}, out: os.Getenv("VX_OUT"),
	}
}

// Rng derives an independent generator for a named case.
func Rng(parts ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, Seed, "/", Prop, "/")
	for _, p := range parts {
		fmt.Fprint(h, p, "/")
	}
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (r *Report) Violate(key, caseId, msg string, detail any) {
	if r.Mute {
		r.Count("verdicts_of_other_monitors", 1)
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nViol[key]++
	if r.nViol[key] > 3 || len(r.violations) > 40 {
		return
	}
	r.violations = append(r.violations, Violation{Key: key, Msg: msg, Case: caseId, Detail: enc(detail)})
	if !r.finished {
		r.write(false) // so that it counts even if the rest of the run never ends
	}
}

// enc fixes a value as it is now, in a form that can be written whatever it is.
func enc(v any) any {
	if v == nil {
		return nil
	}
	if raw, err := json.Marshal(v); err == nil {
		return json.RawMessage(raw)
	}
	s := fmt.Sprintf("%+v", v)
	if len(s) > 1<<16 {
		s = s[:1<<16]
	}
	return s
}

func (r *Report) nViolations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, v := range r.nViol {
		n += v
	}
	return n
}

func (r *Report) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) > 0
}

// Errorf: the harness itself is broken or met something it cannot judge: the check ends without a verdict.
func (r *Report) Errorf(f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.errors) < 20 {
		r.errors = append(r.errors, fmt.Sprintf(f, a...))
	}
}

// Inconclusive: one case could not be decided (a watchdog fired and so on).
func (r *Report) Inconclusive(f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counters["inconclusive_cases"]++
	if len(r.inconclusive) < 20 {
		r.inconclusive = append(r.inconclusive, fmt.Sprintf(f, a...))
	}
}

// Undecided marks the whole run as inconclusive (exit 2).
func (r *Report) Undecided() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.undecided = true
}

func (r *Report) Count(name string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counters[name] += n
}

// Max keeps the largest value seen.
func (r *Report) Max(name string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if n > r.counters[name] {
		r.counters[name] = n
	}
}

func (r *Report) Get(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Eval counts one evaluation; sig identifies it for the distinct count ("" = trivial).
func (r *Report) Eval(sig string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counters["evaluations"]++
	if sig != "" {
		h := fnv.New64a()
		h.Write([]byte(sig))
		n := len(r.distinct)
		r.distinct[h.Sum64()] = struct{}{}
		if n < len(r.distinct) && len(r.kinds) < 40 && n&(n-1) == 0 {
			r.kinds = append(r.kinds, sig)
		}
	}
}

// Seen counts distinct values under a name.
func (r *Report) Seen(name, sig string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	m, ok := r.dnamed[name]
	if !ok {
		m = map[uint64]struct{}{}
		r.dnamed[name] = m
	}
	h := fnv.New64a()
	h.Write([]byte(sig))
	m[h.Sum64()] = struct{}{}
}

func (r *Report) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 4 {
		r.samples = append(r.samples, enc(v))
	}
}

func (r *Report) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.finished {
		return
	}
	r.finished = true
	r.write(true)
}

func (r *Report) write(done bool) {
	cov := map[string]any{}
	for k, v := range r.counters {
		cov[k] = v
	}
	for k, v := range r.dnamed {
		cov["distinct_"+k] = len(v)
	}
	cov["evaluations"] = r.counters["evaluations"]
	cov["distinct_nontrivial"] = len(r.distinct)
	if r.samples == nil {
		r.samples = []any{}
	}
	if len(r.kinds) > 0 {
		r.samples = append(r.samples, map[string]any{"distinct_evaluations": r.kinds})
	}
	cov["samples"] = r.samples
	if len(r.nViol) > 0 {
		cov["violation_counts"] = r.nViol
	}
	doc := map[string]any{
		"done": done, "violations": r.violations, "errors": r.errors,
		"inconclusive": r.inconclusive, "undecided": r.undecided, "coverage": cov,
	}
	raw, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(r.out+".tmp", raw, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(r.out+".tmp", r.out); err != nil {
		panic(err)
	}
}

// Parallel runs cases 0..n-1 on w workers. A panic in a case is classified: repository frame first => violation.
func (r *Report) Parallel(label string, n, w int, f func(i int, id string)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				id := fmt.Sprintf("%s:%d", label, i)
				if OnlyCase != "" && OnlyCase != id {
					continue
				}
				if r.StopAfter > 0 && r.nViolations() >= r.StopAfter {
					r.Count("cases_skipped_after_violations", 1)
					continue
				}
				r.Guard(id, func() { f(i, id) })
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Guard runs f; a panic whose innermost module frame is repository code is a violation, any other a harness error.
func (r *Report) Guard(id string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			if fn := RepoFrame(st); fn != "" {
				r.Violate("panic", id, fmt.Sprintf("the code under test panicked: %v in %s", x, fn), st)
			} else {
				r.Errorf("case %s: harness panic: %v\n%s", id, x, st)
			}
		}
	}()
	f()
}

// RepoFrame returns the innermost module frame of a panic stack if it is repository code.
func RepoFrame(stack string) string {
	// skip everything up to and including the panic call
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
	}
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "\t") || strings.HasPrefix(line, " ") {
			continue
		}
		if strings.HasPrefix(line, "main.") || strings.Contains(line, "/internal/verifx/") {
			return ""
		}
		if strings.HasPrefix(line, "github.com/levilutz/basiccoin/") {
			if i := strings.Index(line, "("); i > 0 && !strings.HasPrefix(line[i:], "(*") {
				return line[len("github.com/levilutz/basiccoin/"):i]
			}
			return line[len("github.com/levilutz/basiccoin/"):]
		}
	}
	return ""
}

// Eventually polls cond until true or the (generous) limit; reports whether it became true.
func Eventually(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(limit)
	d := 200 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(d)
		if d < 10*time.Millisecond {
			d += d / 4
		}
	}
}

func SortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func Trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
