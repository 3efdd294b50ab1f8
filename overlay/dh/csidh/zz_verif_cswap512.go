package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.cswap512", func(x, y *[8]uint64, c uint8) { cswap512((*fp)(x), (*fp)(y), c) })
}
