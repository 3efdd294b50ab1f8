package p751

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p751.fp_rdc", func(z *common.Fp, x *common.FpX2) { rdcP751(z, x) })
}
