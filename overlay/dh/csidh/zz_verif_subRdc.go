package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.subRdc", func(r, x, y *[8]uint64) { subRdc((*fp)(r), (*fp)(x), (*fp)(y)) })
}
