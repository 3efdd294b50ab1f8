package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.ctIsNonZero64", func(w uint64) int { return ctIsNonZero64(w) })
}
