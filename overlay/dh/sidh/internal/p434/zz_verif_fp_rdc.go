package p434

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p434.fp_rdc", func(z *common.Fp, x *common.FpX2) { rdcP434(z, x) })
}
