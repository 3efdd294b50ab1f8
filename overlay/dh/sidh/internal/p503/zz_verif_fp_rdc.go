package p503

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p503.fp_rdc", func(z *common.Fp, x *common.FpX2) { rdcP503(z, x) })
}
