package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.xAdd", func(r, p, q, d *[2][8]uint64) {
		var o point
		xAdd(&o, &point{x: fp(p[0]), z: fp(p[1])}, &point{x: fp(q[0]), z: fp(q[1])}, &point{x: fp(d[0]), z: fp(d[1])})
		r[0], r[1] = o.x, o.z
	})
}
