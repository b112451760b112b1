package lib

import (
	"github.com/indigo-web/indigo/router"
	"pgregory.net/rapid"
)

// Initialize makes a router of the fabric. Sometimes it isn't the only one made of it, as when the
// fabric is shared among virtual hosts or applications: that must not make a difference.
func Initialize(t *rapid.T, f router.Fabric) router.Router {
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "initializations")
	all := make([]router.Router, n)
	for i := range all {
		all[i] = f.Initialize()
	}
	return all[rapid.IntRange(0, n-1).Draw(t, "initialization")]
}
