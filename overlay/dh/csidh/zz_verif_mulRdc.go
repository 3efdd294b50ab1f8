package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.mulRdc", func(r, x, y *[8]uint64) { mulRdc((*fp)(r), (*fp)(x), (*fp)(y)) })
}
