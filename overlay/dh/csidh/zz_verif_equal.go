package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.equal", func(x, y *[8]uint64) bool { return (*fp)(x).equal((*fp)(y)) })
}
