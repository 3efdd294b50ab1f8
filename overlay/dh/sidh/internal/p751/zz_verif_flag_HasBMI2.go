package p751

import "vharness/probe"

func init() { probe.Register("p751.HasBMI2", &HasBMI2) }
