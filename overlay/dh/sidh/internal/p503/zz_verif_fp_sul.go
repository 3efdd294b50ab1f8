package p503

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p503.fp_sul", func(z, x, y *common.FpX2) { sulP503(z, x, y) })
}
