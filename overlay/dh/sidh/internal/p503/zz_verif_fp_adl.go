package p503

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p503.fp_adl", func(z, x, y *common.FpX2) { adlP503(z, x, y) })
}
