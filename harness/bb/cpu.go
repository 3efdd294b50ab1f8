package bb

import (
	"os"
	"strings"
)

// cpuHasAES tells whether the kernel lists AES for this processor.
func cpuHasAES() bool { return cpuinfo("aes") }

var cpuFlags map[string]bool

func cpuinfo(flag string) bool {
	if cpuFlags == nil {
		cpuFlags = map[string]bool{}
		b, _ := os.ReadFile("/proc/cpuinfo")
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "flags") {
				for _, f := range strings.Fields(l) {
					cpuFlags[f] = true
				}
				break
			}
		}
	}
	return cpuFlags[flag]
}

var firstUseHook func(seed uint64)
