//go:build (amd64 || arm64) && !noasm && !appengine

package aes

import "vharness/probe"

func init() {
	probe.Register("aes.asmfuncs", []interface{}{
		(func(nr int, xk *uint32, dst, src *byte))(encryptBlockAsm),
		(func(nr int, xk *uint32, dst, src *byte))(decryptBlockAsm),
		(func(nr int, key *byte, enc, dec *uint32))(expandKeyAsm),
	})
}
