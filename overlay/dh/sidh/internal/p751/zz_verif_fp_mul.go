package p751

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p751.fp_mul", func(z *common.FpX2, x, y *common.Fp) { mulP751(z, x, y) })
}
