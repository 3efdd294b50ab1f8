package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.montEval", func(r, A, x *[8]uint64) { montEval((*fp)(r), (*fp)(A), (*fp)(x)) })
}
