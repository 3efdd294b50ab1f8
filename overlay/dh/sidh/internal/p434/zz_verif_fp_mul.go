package p434

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p434.fp_mul", func(z *common.FpX2, x, y *common.Fp) { mulP434(z, x, y) })
}
