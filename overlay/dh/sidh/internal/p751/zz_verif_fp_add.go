package p751

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p751.fp_add", func(z, x, y *common.Fp) { addP751(z, x, y) })
}
