package csidh

import "vharness/probe"

func init() { probe.Register("csidh.hasADXandBMI2", &hasADXandBMI2) }
