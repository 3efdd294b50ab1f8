package sha3

import "vharness/probe"

func init() {
	probe.Register("sha3.keccak", func(a *[25]uint64) { keccakF1600(a) })
}
