package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.mul576", func(r *[9]uint64, x *[8]uint64, y uint64) { mul576(r, (*fp)(x), y) })
}
