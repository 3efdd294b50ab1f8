package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.xDbl", func(r, p, co *[2][8]uint64) {
		var o point
		xDbl(&o, &point{x: fp(p[0]), z: fp(p[1])}, &point{x: fp(co[0]), z: fp(co[1])})
		r[0], r[1] = o.x, o.z
	})
}
