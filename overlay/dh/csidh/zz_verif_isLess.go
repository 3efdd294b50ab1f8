package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.isLess", func(x, y *[8]uint64) bool { return isLess((*fp)(x), (*fp)(y)) })
}
