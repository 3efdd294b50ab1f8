package p434

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p434.fp2_FromMontgomery", func(z, x *common.Fp2) { FromMontgomery(z, x) })
}
