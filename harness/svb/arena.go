package svb

import (
	"syscall"
	"unsafe"
)

const page = 4096

// Arena is a run of accessible pages between two inaccessible ones.
type Arena struct {
	all  []byte
	mem  []byte
	base uintptr
	ro   bool
}

func NewArena(size int) *Arena {
	size = (size + page - 1) &^ (page - 1)
	all, err := syscall.Mmap(-1, 0, size+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("driver: mmap: " + err.Error())
	}
	must(syscall.Mprotect(all[:page], syscall.PROT_NONE))
	must(syscall.Mprotect(all[page+size:], syscall.PROT_NONE))
	a := &Arena{all: all, mem: all[page : page+size : page+size]}
	a.base = uintptr(unsafe.Pointer(&a.mem[0]))
	return a
}

func (a *Arena) Free() { must(syscall.Munmap(a.all)) }

func (a *Arena) ReadOnly(on bool) {
	if a.ro == on {
		return
	}
	a.ro = on
	p := syscall.PROT_READ
	if !on {
		p |= syscall.PROT_WRITE
	}
	must(syscall.Mprotect(a.mem, p))
}

func must(err error) {
	if err != nil {
		panic("driver: " + err.Error())
	}
}

// Placement of a slice in its arena.
const (
	Hi  = iota // ends where accessible memory ends
	Lo         // starts where accessible memory starts
	Mid        // slack on both sides
)

// Paged is added to the skew of a slice that is to start so many bytes (or
// twice as many words) before a page boundary.
const Paged = 1000

const slack = 128 // bytes around a slice that are filled and compared

// Region is a placed slice with the filled memory around it.
type Region struct {
	a      *Arena
	off, n int // slice
	lo, hi int // filled range [lo,hi) including the slice
	align  int
}

func (a *Arena) Place(n, where, skew, align int) Region {
	r := Region{a: a, n: n}
	switch where {
	case Hi:
		r.off = len(a.mem) - n
	case Lo:
		r.off = 0
	default:
		r.off = 2*slack + skew
		if skew >= Paged { // start just before a page boundary
			r.off = page - (skew - Paged)
			if align > 1 {
				r.off = page - align*((skew-Paged)/2)
			}
		}
		if r.off+n+slack > len(a.mem) {
			r.off = (len(a.mem) - n) / 2
		}
		r.off -= r.off % align
	}
	if r.off < 0 || r.off+n > len(a.mem) {
		panic("driver: arena too small")
	}
	r.lo, r.hi = r.off-slack, r.off+n+slack
	if r.lo < 0 {
		r.lo = 0
	}
	if r.hi > len(a.mem) {
		r.hi = len(a.mem)
	}
	return r
}

// Bytes returns the placed slice with capacity n+extra.
func (r Region) Bytes(extra int) []byte {
	return r.a.all[page+r.off : page+r.off+r.n : page+r.off+r.n+extra]
}

// Words returns the placed slice as uint32s, with extra words of capacity.
func (r Region) Words(extra int) []uint32 {
	if r.n+extra == 0 {
		return []uint32{}
	}
	p := unsafe.Add(unsafe.Pointer(&r.a.all[0]), page+r.off)
	return unsafe.Slice((*uint32)(p), r.n/4+extra)[: r.n/4 : r.n/4+extra]
}

// Fill fills the slice and the memory around it with a pattern.
func (r Region) Fill(pat byte) {
	m := r.a.mem[r.lo:r.hi]
	for i := range m {
		m[i] = pat
	}
}

// FillAround fills only the memory around the slice.
func (r Region) FillAround(pat byte) {
	m := r.a.mem
	for i := r.lo; i < r.off; i++ {
		m[i] = pat
	}
	for i := r.off + r.n; i < r.hi; i++ {
		m[i] = pat
	}
}

// AroundChanged appends the offsets (relative to the slice) around it that
// differ from the pattern.
func (r Region) AroundChanged(pat byte, dst []int) []int {
	m := r.a.mem
	for i := r.lo; i < r.off; i++ {
		if m[i] != pat {
			dst = append(dst, i-r.off)
		}
	}
	for i := r.off + r.n; i < r.hi; i++ {
		if m[i] != pat {
			dst = append(dst, i-r.off)
		}
	}
	return dst
}
