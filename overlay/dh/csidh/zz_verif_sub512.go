package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.sub512", func(r, x, y *[8]uint64) uint64 { return sub512((*fp)(r), (*fp)(x), (*fp)(y)) })
}
