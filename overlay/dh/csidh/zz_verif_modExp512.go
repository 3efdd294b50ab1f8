package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.modExp512", func(r, b, e *[8]uint64) { modExpRdc512((*fp)(r), (*fp)(b), (*fp)(e)) })
}
