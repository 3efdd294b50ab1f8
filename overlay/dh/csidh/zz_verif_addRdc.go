package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.addRdc", func(r, x, y *[8]uint64) { addRdc((*fp)(r), (*fp)(x), (*fp)(y)) })
}
