package p434

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p434.fp_cswap", func(x, y *common.Fp, c uint8) { cswapP434(x, y, c) })
}
