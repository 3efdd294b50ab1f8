package p751

import "vharness/probe"

func init() { probe.Register("p751.HasADXandBMI2", &HasADXandBMI2) }
