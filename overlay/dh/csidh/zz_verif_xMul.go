package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.xMul", func(r, p, co *[2][8]uint64, k *[8]uint64) {
		var o point
		xMul(&o, &point{x: fp(p[0]), z: fp(p[1])}, &coeff{a: co[0], c: co[1]}, (*fp)(k))
		r[0], r[1] = o.x, o.z
	})
}
