package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.xDblAdd", func(r, s, p, q, d, co *[2][8]uint64) {
		var o, u point
		xDblAdd(&o, &u, &point{x: fp(p[0]), z: fp(p[1])}, &point{x: fp(q[0]), z: fp(q[1])}, &point{x: fp(d[0]), z: fp(d[1])}, &coeff{a: co[0], c: co[1]})
		r[0], r[1] = o.x, o.z
		s[0], s[1] = u.x, u.z
	})
}
