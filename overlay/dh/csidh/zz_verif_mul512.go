package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.mul512", func(r, x *[8]uint64, y uint64) { mul512((*fp)(r), (*fp)(x), y) })
}
