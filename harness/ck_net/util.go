//go:build go1.22

package main

import (
	"github.com/levilutz/basiccoin/internal/bus"
	"github.com/levilutz/basiccoin/pkg/core"
)

type coreTx = core.Tx

func candTx(t core.Tx, ret chan error) bus.CandidateTxEvent {
	return bus.CandidateTxEvent{Tx: t, Ret: ret}
}
