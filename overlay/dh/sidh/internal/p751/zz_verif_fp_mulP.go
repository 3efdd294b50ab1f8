package p751

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p751.fp_mulP", func(z, x, y *common.Fp) { mulP(z, x, y) })
}
