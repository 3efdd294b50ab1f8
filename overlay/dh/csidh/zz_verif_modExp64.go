package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.modExp64", func(r, b *[8]uint64, e uint64) { modExpRdc64((*fp)(r), (*fp)(b), e) })
}
