package p751

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p751.fp_adl", func(z, x, y *common.FpX2) { adlP751(z, x, y) })
}
