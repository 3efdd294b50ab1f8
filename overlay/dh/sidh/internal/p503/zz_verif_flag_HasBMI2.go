package p503

import "vharness/probe"

func init() { probe.Register("p503.HasBMI2", &HasBMI2) }
