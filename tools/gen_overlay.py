#!/usr/bin/env python3
"""Writes the overlay probe files of the field arithmetic (one small file per function, so
that a refactoring which renames one function costs only that probe)."""
import os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "overlay")


def put(rel, text):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)


for n in ("434", "503", "751"):
    pk = "p" + n
    d = "dh/sidh/internal/" + pk + "/"
    P = "P" + n
    C = "common."
    def f(name, sig, call, imp=True):
        put(d + "zz_verif_%s.go" % name, 'package %s\n\nimport (\n\t"github.com/henrydcase/nobs/dh/sidh/common"\n\t"vharness/probe"\n)\n\nfunc init() {\n\tprobe.Register("%s.%s", func(%s) { %s })\n}\n' % (pk, pk, name, sig, call))
    for o in ("add", "sub"):
        f("fp_" + o, "z, x, y *common.Fp", "%s%s(z, x, y)" % (o, P))
    for o in ("adl", "sul"):
        f("fp_" + o, "z, x, y *common.FpX2", "%s%s(z, x, y)" % (o, P))
    f("fp_mod", "x *common.Fp", "mod%s(x)" % P)
    f("fp_mul", "z *common.FpX2, x, y *common.Fp", "mul%s(z, x, y)" % P)
    f("fp_rdc", "z *common.Fp, x *common.FpX2", "rdc%s(z, x)" % P)
    f("fp_cswap", "x, y *common.Fp, c uint8", "cswap%s(x, y, c)" % P)
    f("fp_mulP", "z, x, y *common.Fp", "mulP(z, x, y)")
    f("fp_p34", "z, x *common.Fp", "p34(z, x)")
    for o in ("add", "sub", "mul"):
        f("fp2_" + o, "z, x, y *common.Fp2", "%s(z, x, y)" % o)
    for o in ("sqr", "inv", "ToMontgomery", "FromMontgomery"):
        f("fp2_" + o, "z, x *common.Fp2", "%s(z, x)" % o)
    f("fp2_cswap", "a, b, c, d *common.Fp2, ch uint8", "cswap(a, b, c, d, ch)")
    for fl in ("HasADXandBMI2", "HasBMI2"):
        if fl == "HasBMI2" and n == "434":
            continue
        put(d + "zz_verif_flag_%s.go" % fl, 'package %s\n\nimport "vharness/probe"\n\nfunc init() { probe.Register("%s.%s", &%s) }\n' % (pk, pk, fl, fl))

d = "dh/csidh/"
def c(name, sig, call, pre="", ret=""):
    put(d + "zz_verif_%s.go" % name, 'package csidh\n\nimport "vharness/probe"\n\nfunc init() {\n\tprobe.Register("csidh.%s", func(%s) %s { %s })\n}\n' % (name, sig, ret, call))
V = "*[8]uint64"
def a(v): return "(*fp)(%s)" % v
for o in ("addRdc", "subRdc", "mulRdc", "mulGeneric"):
    c(o, "r, x, y " + V, "%s((*fp)(r), (*fp)(x), (*fp)(y))" % o)
c("sub512", "r, x, y " + V, "return sub512((*fp)(r), (*fp)(x), (*fp)(y))", ret="uint64")
c("mul512", "r, x %s, y uint64" % V, "mul512((*fp)(r), (*fp)(x), y)")
c("mul576", "r *[9]uint64, x %s, y uint64" % V, "mul576(r, (*fp)(x), y)")
c("cswap512", "x, y %s, c uint8" % V, "cswap512((*fp)(x), (*fp)(y), c)")
c("modExp512", "r, b, e " + V, "modExpRdc512((*fp)(r), (*fp)(b), (*fp)(e))")
c("modExp64", "r, b %s, e uint64" % V, "modExpRdc64((*fp)(r), (*fp)(b), e)")
c("isLess", "x, y " + V, "return isLess((*fp)(x), (*fp)(y))", ret="bool")
c("isNonQuadRes", "x " + V, "return (*fp)(x).isNonQuadRes()", ret="int")
c("isZero", "x " + V, "return (*fp)(x).isZero()", ret="bool")
c("equal", "x, y " + V, "return (*fp)(x).equal((*fp)(y))", ret="bool")
c("montEval", "r, A, x " + V, "montEval((*fp)(r), (*fp)(A), (*fp)(x))")
T = "*[2][8]uint64"
def pt(v): return "&point{x: fp(%s[0]), z: fp(%s[1])}" % (v, v)
c("xAdd", "r, p, q, d " + T, "var o point; xAdd(&o, %s, %s, %s); r[0], r[1] = o.x, o.z" % (pt("p"), pt("q"), pt("d")))
c("xDbl", "r, p, co " + T, "var o point; xDbl(&o, %s, %s); r[0], r[1] = o.x, o.z" % (pt("p"), pt("co")))
c("xDblAdd", "r, s, p, q, d, co " + T, "var o, u point; xDblAdd(&o, &u, %s, %s, %s, &coeff{a: co[0], c: co[1]}); r[0], r[1] = o.x, o.z; s[0], s[1] = u.x, u.z" % (pt("p"), pt("q"), pt("d")))
c("xMul", "r, p, co %s, k %s" % (T, V), "var o point; xMul(&o, %s, &coeff{a: co[0], c: co[1]}, (*fp)(k)); r[0], r[1] = o.x, o.z" % pt("p"))
c("xIso", "img, co, kern %s, order uint64" % T, "i, e := point{x: fp(img[0]), z: fp(img[1])}, coeff{a: co[0], c: co[1]}; xIso(&i, &e, %s, order); img[0], img[1], co[0], co[1] = i.x, i.z, e.a, e.c" % pt("kern"))
c("ctPick64", "w, a, b uint64", "return ctPick64(w, a, b)", ret="uint64")
c("ctIsNonZero64", "w uint64", "return ctIsNonZero64(w)", ret="int")
for fl in ("hasADXandBMI2", "hasBMI2"):
    put(d + "zz_verif_flag_%s.go" % fl, 'package csidh\n\nimport "vharness/probe"\n\nfunc init() { probe.Register("csidh.%s", &%s) }\n' % (fl, fl))
