package csidh

import "vharness/probe"

func init() {
	probe.Register("csidh.xIso", func(img, co, kern *[2][8]uint64, order uint64) {
		i, e := point{x: fp(img[0]), z: fp(img[1])}, coeff{a: co[0], c: co[1]}
		xIso(&i, &e, &point{x: fp(kern[0]), z: fp(kern[1])}, order)
		img[0], img[1], co[0], co[1] = i.x, i.z, e.a, e.c
	})
}
