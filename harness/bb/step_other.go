//go:build !linux || !amd64

package bb

import "errors"

var stAll uintptr

func stepReady() error { return errors.New("instructions cannot be traced on this platform") }

func stepTrace(f func(), mode, part int) ([]uint32, error) { return nil, stepReady() }

func pcName(off uint32) string { return "" }
