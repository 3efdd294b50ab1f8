// Package probe is the registry through which optional in-package overlay files
// (zz_verif_*.go) hand unexported functions to the monitors.  A monitor whose probe
// is absent (because a refactoring renamed the function, say) skips that part and
// the run reports it; it never fails because of it.
package probe

import "sync"

var (
	mu sync.Mutex
	m  = map[string]interface{}{}
)

// Register stores a probe under a name.
func Register(name string, v interface{}) {
	mu.Lock()
	defer mu.Unlock()
	m[name] = v
}

// Get returns a probe or nil.
func Get(name string) interface{} {
	mu.Lock()
	defer mu.Unlock()
	return m[name]
}

// Names lists what is registered.
func Names() []string {
	mu.Lock()
	defer mu.Unlock()
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return r
}
