package p503

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p503.fp_add", func(z, x, y *common.Fp) { addP503(z, x, y) })
}
