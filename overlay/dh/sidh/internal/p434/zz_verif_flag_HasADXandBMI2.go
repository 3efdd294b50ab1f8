package p434

import "vharness/probe"

func init() { probe.Register("p434.HasADXandBMI2", &HasADXandBMI2) }
