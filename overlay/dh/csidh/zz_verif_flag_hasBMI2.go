package csidh

import "vharness/probe"

func init() { probe.Register("csidh.hasBMI2", &hasBMI2) }
