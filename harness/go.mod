module vharness

go 1.27
