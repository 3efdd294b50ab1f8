package sm3

import (
	"hash"
	"vharness/probe"
)

func init() {
	probe.Register("sm3.len", func(h hash.Hash) *uint64 {
		if d, ok := h.(*digest); ok {
			return &d.len
		}
		return nil
	})
}
