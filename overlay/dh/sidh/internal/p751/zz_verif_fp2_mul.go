package p751

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p751.fp2_mul", func(z, x, y *common.Fp2) { mul(z, x, y) })
}
