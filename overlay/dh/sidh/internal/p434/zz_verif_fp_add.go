package p434

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p434.fp_add", func(z, x, y *common.Fp) { addP434(z, x, y) })
}
