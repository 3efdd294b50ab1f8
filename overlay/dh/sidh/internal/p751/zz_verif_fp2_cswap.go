package p751

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p751.fp2_cswap", func(a, b, c, d *common.Fp2, ch uint8) { cswap(a, b, c, d, ch) })
}
