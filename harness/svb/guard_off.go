//go:build !svbinstr

package svb

// GuardAlloc places the writers' result buffers next to guard pages when the
// writer package was built with its allocations instrumented (tag svbinstr).
type GuardAlloc struct{}

const Instrumented = false

func newGuardAlloc(int) *GuardAlloc   { return &GuardAlloc{} }
func (g *GuardAlloc) arm()            {}
func (g *GuardAlloc) disarm(*Outcome) {}
func (g *GuardAlloc) Set(bool)        {}
func (g *GuardAlloc) Used() uint64    { return 0 }

func (g *GuardAlloc) own() bool { return false }
