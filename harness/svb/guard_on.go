//go:build svbinstr

package svb

import "github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"

const Instrumented = true

// GuardAlloc places the writers' result buffers next to guard pages.  The
// build overlay replaces make([]byte, n) in the writer package by a call of
// writer.VerifAlloc when that is set.
type GuardAlloc struct {
	lo, hi *Arena
	size   int
	on     bool
	first  bool
	turn   int
	used   uint64
	regs   []Region
	pats   []byte
}

func newGuardAlloc(size int) *GuardAlloc {
	return &GuardAlloc{size: size}
}

// Set turns guarded allocation on for the following calls.
func (g *GuardAlloc) Set(on bool) { g.on = on }

func (g *GuardAlloc) Used() uint64 { return g.used }

const guardPat = 0xd6

func (g *GuardAlloc) arm() {
	g.regs = g.regs[:0]
	if !g.on {
		return
	}
	if g.turn%8 == 7 { // plain allocation now and then
		g.turn++
		return
	}
	if g.lo == nil {
		g.lo, g.hi = NewArena(g.size), NewArena(g.size)
	}
	g.turn++
	g.first = true
	writer.VerifAlloc = func(n int) []byte {
		if !g.first || n > g.size-4*slack || n == 0 {
			return make([]byte, n) // only the first allocation of a call is guarded
		}
		g.first = false
		g.used++
		a, where := g.hi, Hi
		if g.turn%4 == 0 {
			a, where = g.lo, Lo
		}
		r := a.Place(n, where, 0, 1)
		r.FillAround(guardPat)
		b := r.Bytes(0)
		for i := range b {
			b[i] = 0
		}
		g.regs = append(g.regs, r)
		return b
	}
}

func (g *GuardAlloc) disarm(o *Outcome) {
	if !g.on {
		return
	}
	writer.VerifAlloc = nil
	for _, r := range g.regs {
		for _, d := range r.AroundChanged(guardPat, nil) {
			if len(o.Chg) < 64 {
				o.Chg = append(o.Chg, Chg{"around", d})
			}
		}
	}
}

// own tells whether the call's result was placed here.
func (g *GuardAlloc) own() bool { return len(g.regs) > 0 }
