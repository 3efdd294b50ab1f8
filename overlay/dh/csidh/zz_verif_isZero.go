package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.isZero", func(x *[8]uint64) bool { return (*fp)(x).isZero() })
}
