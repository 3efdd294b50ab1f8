//go:build !(linux && amd64)

package bb

import "errors"

var poisoned int

func poison(string) error            { return errors.New("not on this platform") }
func traceSelf(string, []string) int { println("VERIF_UNRUNNABLE: not on this platform"); return 3 }
