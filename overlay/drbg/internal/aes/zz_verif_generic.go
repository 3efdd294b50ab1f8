//go:build !appengine

package aes

import "vharness/probe"

func init() {
	probe.Register("aes.generic", func() interface{} { return &AES{} })
}
