package p751

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p751.fp_cswap", func(x, y *common.Fp, c uint8) { cswapP751(x, y, c) })
}
