package p751

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p751.fp2_sqr", func(z, x *common.Fp2) { sqr(z, x) })
}
