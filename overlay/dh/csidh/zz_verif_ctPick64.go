package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.ctPick64", func(w, a, b uint64) uint64 { return ctPick64(w, a, b) })
}
