//go:build go1.22

// ck_http drives the real HTTP API over TCP and compares every answer with the model (C27), and the admin password of the real program (C28).
package main

import (
	"os"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
	"github.com/levilutz/basiccoin/pkg/core"
)

type H = core.HashT

var rep = vlib.NewReport()

func main() {
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VX_LOG") == "" {
		os.Stdout = null
	}
	rep.StopAfter = 4
	switch vlib.Prop {
	case "C27":
		api()
	case "C18":
		keys()
	case "C30":
		cli()
	case "C28":
		admin()
	case "C32":
		program()
	default:
		rep.Errorf("unknown property %q", vlib.Prop)
	}
	rep.Finish()
}
