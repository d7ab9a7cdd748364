//go:build go1.22

// ck_bus checks topic delivery (C24) and the containers (C25).
package main

import (
	"os"

	"github.com/levilutz/basiccoin/internal/verifx/vlib"
)

var rep = vlib.NewReport()

func main() {
	defer rep.Finish()
	switch os.Args[1] {
	case "C24":
		topics()
	case "C25":
		containers()
	}
}
