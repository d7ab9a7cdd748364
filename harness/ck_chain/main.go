//go:build go1.22

// ck_chain: monitors of the ledger rules and of the chain component (C01-C03, C05-C11, C15).
package main

import (
	"fmt"
	"os"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
)

var rep = vlib.NewReport()

// Which refusal reasons belong to which property.
var reasons = map[string]map[string]bool{
	"C01": set("no-surplus", "reward-mismatch", "wrong-amount", "coinbase-below-reward"),
	"C03": set("bad-signature", "unknown-output", "wrong-key", "wrong-amount"),
	"C05": set("no-proof-of-work", "first-target", "target-too-hard", "target-too-easy", "target-changed"),
	"C06": set("time-below-median", "time-not-after-period-first", "time-in-future"),
	"C07": set("unknown-root", "no-txs", "tx-twice", "first-not-coinbase", "coinbase-height", "second-coinbase", "block-too-big", "tx-too-big",
		"coinbase-with-inputs", "coinbase-outputs", "unknown-child", "overlapping-children", "tree-too-big", "unknown-parent"),
}

func set(xs ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

var classOf = map[string][]string{
	"C01": {"amount"}, "C02": {"double"}, "C05": {"pow"}, "C06": {"time"}, "C07": {"structure"},
}

func main() {
	// the code under test prints to stdout; keep it quiet
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VX_LOG") == "" {
		os.Stdout = null
	}
	switch vlib.Prop {
	case "C01", "C05", "C06", "C07":
		accept(vlib.N(600, 6000))
		if is("C05", "C06") {
			periods(vlib.N(28, 300))
		}
		sims(vlib.N(160, 1500), vlib.N(40, 60))
	case "C03":
		admit(vlib.N(2400, 20000))
	case "C02":
		sims(vlib.N(330, 4000), vlib.N(45, 70))
	case "C08", "C09", "C10", "C11":
		sims(vlib.N(330, 4000), vlib.N(50, 80))
		if vlib.Prop == "C10" {
			takeUp(vlib.N(48, 400))
		}
		if vlib.Prop == "C11" {
			fit(vlib.N(400, 4000))
		}
	case "C15":
		index(vlib.N(200, 2000))
		sims(vlib.N(100, 1000), vlib.N(40, 60))
	default:
		rep.Errorf("unknown property %q", vlib.Prop)
	}
	if !rep.Violated() {
		if !is("C03", "C05", "C06") {
			long(vlib.N(3, 24), vlib.N(1050, 2500), 10)
		}
		if !is("C03", "C05", "C06", "C15") {
			wide(vlib.N(2, 16), vlib.N(5600, 9000))
		}
	}
	rep.Finish()
	if n := rep.Get("inconclusive_cases"); n > 0 {
		fmt.Fprintln(os.Stderr, "inconclusive cases:", n)
	}
}
