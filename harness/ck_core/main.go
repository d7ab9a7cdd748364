//go:build go1.22

// ck_core: monitors of the core library (C04, C13, C14, C29, C31).
package main

import (
	"os"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/pkg/core"
)

type H = core.HashT

var rep = vlib.NewReport()

func main() {
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VX_LOG") == "" {
		os.Stdout = null
	}
	switch vlib.Prop {
	case "C04":
		ids()
	case "C13":
		retarget()
	case "C14":
		merkle()
	case "C29":
		factory()
	case "C31":
		hashes()
	default:
		rep.Errorf("unknown property %q", vlib.Prop)
	}
	rep.Finish()
}
