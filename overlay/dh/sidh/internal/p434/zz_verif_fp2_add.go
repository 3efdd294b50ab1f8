package p434

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p434.fp2_add", func(z, x, y *common.Fp2) { add(z, x, y) })
}
