package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.isNonQuadRes", func(x *[8]uint64) int { return (*fp)(x).isNonQuadRes() })
}
