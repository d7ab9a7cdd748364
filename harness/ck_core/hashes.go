//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/internal/verifx/vmodel"
	"github.com/levilutz/basiccoin/pkg/core"
)

func must(err error, key, id, msg string, d any) bool {
	if err != nil {
		rep.Violate(key, id, fmt.Sprintf("%s: %v", msg, err), d)
		return false
	}
	return true
}

// malformed lists texts that are not the 64 hexadecimal digits of a hash.
func malformed(r *rand.Rand, good string) map[string]string {
	b := []byte(good)
	i := r.Intn(64)
	out := map[string]string{"empty": "", "short": good[:63], "long": good + "0", "half": good[:32], "pair-short": good[:62], "pair-long": good + "00",
		"prefixed": "0x" + good[:62], "space-in": good[:i] + " " + good[min(i+1, 63):][:0] + good[i+1:], "newline-end": good[:63] + "\n"}
	for _, c := range []byte{'g', 'G', 'z', '-', '+', ' ', 0, '/', ':', '@', '`', 0x80, 0xff} {
		x := append([]byte{}, b...)
		x[i] = c
		out[fmt.Sprintf("char-%02x", c)] = string(x)
	}
	x := append([]byte{}, b...)
	copy(x[min(i, 62):], "é")
	out["utf8"] = string(x)
	return out
}

func hashes() {
	n := vlib.N(300000, 2000000)
	params := core.ProdNetParams()
	rep.Parallel("hash", 8, 8, func(w int, id string) {
		r := vlib.Rng(id)
		for k := 0; k < n/8; k++ {
			h := rh(r)
			d := h.Data()
			b := vmodel.Big(h)
			s := h.String()
			if want := fmt.Sprintf("%064x", b); s != want {
				rep.Violate("string", id, fmt.Sprintf("String()=%s want %s", s, want), nil)
			}
			back, err := core.NewHashTFromString(s)
			if must(err, "parse", id, "own text refused", s) && back != h {
				rep.Violate("parse", id, "text round trip changed "+s, back)
			}
			if core.NewHashTFromBytes(d[:]) != h || core.NewHashTFromBigInt(b) != h || h.BigInt().Cmp(b) != 0 {
				rep.Violate("convert", id, "bytes or big integer round trip changed "+s, nil)
			}
			raw, err := json.Marshal(h)
			if must(err, "json", id, "JSON", s) {
				var j H
				if err := json.Unmarshal(raw, &j); err != nil || j != h || string(raw) != `"`+s+`"` {
					rep.Violate("json", id, fmt.Sprintf("JSON round trip of %s: %s %v", s, raw, err), nil)
				}
			}
			rep.Eval("roundtrip")
			if k%8 == 0 {
				for name, m := range malformed(r, s) {
					rep.Eval("malformed/" + name)
					if _, err := core.NewHashTFromString(m); err == nil {
						rep.Violate("parsed-malformed", id, fmt.Sprintf("malformed text (%s) %q accepted as a hash", name, m), nil)
					}
					q, _ := json.Marshal(m)
					keep := h
					if err := json.Unmarshal(q, &keep); err == nil {
						rep.Violate("parsed-malformed-json", id, fmt.Sprintf("malformed JSON text (%s) %q accepted as a hash", name, m), nil)
					}
					if _, err := core.UnmarshalHashTSlice([]string{s, m}); err == nil {
						rep.Violate("parsed-malformed-slice", id, fmt.Sprintf("malformed list entry %q accepted", m), nil)
					}
					if _, err := core.UnmarshalHashTMap(map[string]int{s: 1, m: 2}); err == nil {
						rep.Violate("parsed-malformed-map", id, fmt.Sprintf("malformed map key %q accepted", m), nil)
					}
				}
				for _, q := range []string{"null", "1", "true", "{}", "[]", `["` + s + `"]`, s} {
					var j H
					if err := json.Unmarshal([]byte(q), &j); err == nil {
						rep.Violate("parsed-json-type", id, "JSON "+vlib.Trunc(q, 20)+" accepted as a hash", nil)
					}
					rep.Eval("json-type/" + vlib.Trunc(q, 5))
				}
				hs := []H{h, rh(r), rh(r), h}
				bs, err := core.UnmarshalHashTSlice(core.MarshalHashTSlice(hs))
				if err != nil || fmt.Sprint(bs) != fmt.Sprint(hs) {
					rep.Violate("slice", id, "list round trip changed", nil)
				}
				mp := map[H]uint64{h: ru(r), rh(r): ru(r)}
				mb, err := core.UnmarshalHashTMap(core.MarshalHashTMap(mp))
				if err != nil || fmt.Sprint(mb) != fmt.Sprint(mp) {
					rep.Violate("map", id, "map round trip changed", nil)
				}
				up, err := core.NewHashTFromString(strings.ToUpper(s))
				if err == nil && up != h {
					rep.Violate("upper", id, "upper-case text parsed to another value", s)
				}
			}
			// order
			o := rh(r)
			switch r.Intn(4) {
			case 0:
				o = flip(r, h)
			case 1:
				o = h
			case 2:
				x := new(big.Int).Add(b, big.NewInt(int64(r.Intn(3)-1)))
				if x.Sign() >= 0 && x.BitLen() <= 256 {
					o = vmodel.FromBig(x)
				}
			}
			c := b.Cmp(vmodel.Big(o))
			if h.Lt(o) != (c < 0) || o.Lt(h) != (c > 0) || h.Eq(o) != (c == 0) || h.EqZero() != (b.Sign() == 0) {
				rep.Violate("order", id, fmt.Sprintf("ordering of %s and %s disagrees with the integers", h, o), nil)
			}
			rep.Eval(fmt.Sprintf("order/%d", c))
			// arithmetic
			if b.Sign() > 0 {
				want := vmodel.Work(h)
				if got := h.TargetToWork(); got.Cmp(want) != 0 {
					rep.Violate("work", id, fmt.Sprintf("work of %s is %s, want %s", h, got, want), nil)
				}
				if vmodel.Big(h).Cmp(b) != 0 || h.Data() != d {
					rep.Violate("mutated", id, "the value was changed by an operation", nil)
				}
				sum := new(big.Int).Add(vmodel.Big(o), want)
				if sum.BitLen() <= 256 {
					if got := o.WorkAppendTarget(h); vmodel.Big(got).Cmp(sum) != 0 {
						rep.Violate("work-append", id, fmt.Sprintf("work %s plus target %s gives %s, want %s", o, h, got, vmodel.FromBig(sum)), nil)
					}
				}
				rep.Eval(fmt.Sprintf("work/%d", b.BitLen()))
				p := params
				p.MaxTarget = vmodel.Hex(vmodel.MaxT)
				if r.Intn(2) == 0 {
					m := new(big.Int).Rsh(vmodel.Big(rh(r)), uint(2+r.Intn(200)))
					if r.Intn(3) == 0 {
						m = new(big.Int).Lsh(b, 2)
						m.Add(m, big.NewInt(int64(r.Intn(5)-2)))
					}
					if m.Sign() > 0 && m.Cmp(vmodel.Big(p.MaxTarget)) <= 0 {
						p.MaxTarget = vmodel.FromBig(m)
					}
				}
				lo, hi := vmodel.TargetBounds(p, h)
				if got := h.MinNextTarget(); vmodel.Big(got).Cmp(lo) != 0 {
					rep.Violate("min-next", id, fmt.Sprintf("hardest next target after %s is %s, want %s", h, got, vmodel.FromBig(lo)), nil)
				}
				if got := h.MaxNextTarget(p); vmodel.Big(got).Cmp(hi) != 0 {
					rep.Violate("max-next", id, fmt.Sprintf("easiest next target after %s (max %s) is %s, want %s", h, p.MaxTarget, got, vmodel.FromBig(hi)), nil)
				}
				if k%8 == 0 {
					ts := []H{}
					tot := new(big.Int)
					for i := r.Intn(5); i >= 0; i-- {
						t := rh(r)
						if !t.EqZero() {
							ts = append(ts, t)
							tot.Add(tot, vmodel.Work(t))
						}
					}
					if got := core.TargetsToTotalWork(ts); got.Cmp(tot) != 0 {
						rep.Violate("total-work", id, fmt.Sprintf("total work of %v is %s, want %s", ts, got, tot), nil)
					}
				}
			}
			if w == 0 && k < 2 {
				rep.Sample(map[string]any{"hash": s, "compared_with": o, "order": c})
			}
		}
		// random hashes are values too, and distinct
		seen := map[H]bool{}
		for i := 0; i < 200; i++ {
			x := core.NewHashTRand()
			if seen[x] || x.EqZero() {
				rep.Violate("random", id, "random hash repeated", x)
			}
			seen[x] = true
		}
	})
}
