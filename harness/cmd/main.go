// Command cmd runs the monitors (see package bb); it is a package of its own because the
// statement counters of the cover builds need an instrumented main package.
package main

import "vharness/bb"

func main() { bb.Main() }
