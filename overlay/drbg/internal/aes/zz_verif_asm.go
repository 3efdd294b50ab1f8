//go:build (amd64 || arm64) && !noasm && !appengine

package aes

import "vharness/probe"

func init() {
	probe.Register("aes.asm", func() interface{} { return &AESAsm{} })
}
