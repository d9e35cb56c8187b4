//go:build xtsched

package main

import "github.com/renthraysk/xtorm/netx/xtyield"

func init() {
	xtyield.Yield = yield
	slowIdentity = xtyield.Spawns
}
