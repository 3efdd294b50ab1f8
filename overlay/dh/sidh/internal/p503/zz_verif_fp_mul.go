package p503

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p503.fp_mul", func(z *common.FpX2, x, y *common.Fp) { mulP503(z, x, y) })
}
