package p434

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p434.fp_adl", func(z, x, y *common.FpX2) { adlP434(z, x, y) })
}
