package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.mulGeneric", func(r, x, y *[8]uint64) { mulGeneric((*fp)(r), (*fp)(x), (*fp)(y)) })
}
