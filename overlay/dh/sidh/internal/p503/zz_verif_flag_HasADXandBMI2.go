package p503

import "vharness/probe"

func init() { probe.Register("p503.HasADXandBMI2", &HasADXandBMI2) }
