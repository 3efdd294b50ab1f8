package p503

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p503.fp_sub", func(z, x, y *common.Fp) { subP503(z, x, y) })
}
