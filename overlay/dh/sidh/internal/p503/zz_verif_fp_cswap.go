package p503

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"vharness/probe"
)

func init() {
	probe.Register("p503.fp_cswap", func(x, y *common.Fp, c uint8) { cswapP503(x, y, c) })
}
