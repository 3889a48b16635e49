package svb

import (
	"slices"
	"strconv"
)

// Rng is splitmix64: every call of a family is determined by (seed, family,
// index) alone, so it can be repeated on its own.
type Rng struct{ s uint64 }

func NewRng(seed uint64, fam string, i int) *Rng {
	h := seed*0x9e3779b97f4a7c15 + 0x1234567
	for _, b := range []byte(fam) {
		h = (h ^ uint64(b)) * 0x100000001b3
	}
	r := &Rng{h + uint64(i)*0xd1342543de82ef95}
	r.U64()
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *Rng) U32() uint32            { return uint32(r.U64() >> 32) }
func (r *Rng) N(n int) int            { return int(r.U64() >> 1 % uint64(n)) }
func (r *Rng) Chance(n int) bool      { return r.N(n) == 0 }
func (r *Rng) Pick(v []uint32) uint32 { return v[r.N(len(v))] }

// class returns a value of exactly l bytes.
func (r *Rng) class(l int) uint32 {
	switch l {
	case 1:
		return r.U32() & 0xff
	case 2:
		return 1<<8 + r.U32()%(1<<16-1<<8)
	case 3:
		return 1<<16 + r.U32()%(1<<24-1<<16)
	}
	return 1<<24 + r.U32()%(1<<32-1<<24)
}

var boundary []uint32

func init() {
	set := map[uint32]bool{}
	add := func(v uint32) {
		if !set[v] {
			set[v] = true
			boundary = append(boundary, v)
		}
	}
	for _, v := range []uint32{0, 1, 2, 0x7f, 0x80, 0xff} {
		add(v)
	}
	for _, k := range []uint{7, 8, 15, 16, 23, 24, 31} {
		for d := -2; d <= 2; d++ {
			add(uint32(1<<k + d))
		}
	}
	for _, v := range []uint32{0xffffffff, 0xfffffffe, 0xffffff00, 0xffff0000, 0xff000000, 0x00ff00ff, 0xff00ff00, 0x01010101, 0x80808080, 0x7f7f7f7f, 0x00010001, 0x01000001, 0x010000, 0x01000100, 0x7fff7fff, 0x80008000, 0x8000, 0x7f00, 0xff00, 0xff0000, 0x800000ff, 0x00800000, 0x00800001} {
		add(v)
	}
}

var five = [5]byte{0, 1, 0x7f, 0x80, 0xff}

func fiveWord(k int) uint32 {
	var v uint32
	for b := 0; b < 4; b++ {
		v |= uint32(five[k%5]) << uint(8*b)
		k /= 5
	}
	return v
}

const NStyles = 32

// Values fills v in one of NStyles ways.
func (r *Rng) Values(v []uint32, style int) {
	switch style {
	case 0:
		for i := range v {
			v[i] = r.class(1 + r.N(4))
		}
	case 1:
		for i := range v {
			v[i] = r.U32()
		}
	case 2:
		for i := range v {
			v[i] = r.Pick(boundary)
		}
	case 3:
		for i := range v {
			v[i] = fiveWord(r.N(625))
		}
	case 4:
		for i := range v {
			b := uint32(1) << uint(r.N(32))
			switch r.N(3) {
			case 1:
				b--
			case 2:
				b = ^b
			}
			v[i] = b
		}
	case 5, 6, 7, 8:
		for i := range v {
			v[i] = r.class(style - 4)
		}
	case 9:
		for i := range v {
			v[i] = 0
		}
	case 10:
		for i := range v {
			v[i] = 0xffffffff
		}
	case 11: // ascending with mixed step sizes, wrapping
		a := r.class(1 + r.N(4))
		for i := range v {
			v[i] = a
			a += r.class(1 + r.N(2+r.N(3)))
		}
	case 12: // descending
		a := r.U32()
		for i := range v {
			v[i] = a
			a -= r.class(1 + r.N(4))
		}
	case 13: // a walk whose steps are boundary values
		a := r.U32()
		for i := range v {
			a += r.Pick(boundary)
			v[i] = a
		}
	case 14: // runs of one length
		l := 1 + r.N(4)
		for i := range v {
			if r.Chance(7) {
				l = 1 + r.N(4)
			}
			v[i] = r.class(l)
		}
	case 15: // small with rare exceptions
		for i := range v {
			v[i] = r.class(1)
			if r.Chance(16) {
				v[i] = r.class(2 + r.N(3))
			}
		}
	case 16: // large with rare exceptions
		for i := range v {
			v[i] = r.class(4)
			if r.Chance(16) {
				v[i] = r.class(1 + r.N(3))
			}
		}
	case 17: // zero interior bytes
		for i := range v {
			v[i] = r.U32() & [4]uint32{0xff0000ff, 0xff00ff00, 0x00ff00ff, 0xffff0000}[r.N(4)]
		}
	case 18: // one special value
		b := r.class(1 + r.N(4))
		for i := range v {
			v[i] = b
		}
		if len(v) > 0 {
			v[r.Spot(len(v))] = r.Pick(boundary)
		}
	case 19: // repeated values
		b := r.class(1 + r.N(4))
		for i := range v {
			if r.Chance(3) {
				b = r.class(1 + r.N(4))
			}
			v[i] = b
		}
	case 20: // periodic
		p := 1 + r.N(9)
		for i := range v {
			if i < p {
				v[i] = r.Pick(boundary)
			} else {
				v[i] = v[i-p]
			}
		}
	case 22: // an arithmetic progression, here and there disturbed
		r.progression(v)
		for k := 1 + len(v)/(2+r.N(60)); k > 0 && len(v) > 0; k-- {
			i := r.N(len(v))
			switch r.N(4) {
			case 0:
				v[i]++
			case 1:
				v[i]--
			case 2:
				v[i] += r.class(1 + r.N(4))
			default:
				v[i] = r.Pick(boundary)
			}
		}
	case 23: // there and back
		r.Values(v, r.N(22))
		for i := len(v) / 2; i < len(v); i++ {
			v[i] = v[len(v)-1-i]
		}
	case 24: // progressions of several steps
		for len(v) > 0 {
			n := min(len(v), 1+r.N(40))
			r.progression(v[:n])
			v = v[n:]
		}
	case 25: // a progression with exchanged values
		r.progression(v)
		for k := len(v) / (2 + r.N(20)); k > 0; k-- {
			i, j := r.N(len(v)), r.N(len(v))
			if r.Chance(2) {
				j = min(len(v)-1, i+1)
			}
			v[i], v[j] = v[j], v[i]
		}
	case 26: // sorted
		r.Values(v, r.N(22))
		slices.Sort(v)
	case 27: // below some power of two, the largest always there
		m := uint32(1)<<uint(1+r.N(31)) - 1
		for i := range v {
			v[i] = r.U32() & m
		}
		if len(v) > 0 {
			v[r.N(len(v))] = m
		}
	case 28: // one block again and again, one value of it replaced
		b := make([]uint32, 4+4*r.N(2))
		r.Values(b, r.N(22))
		for i := range v {
			v[i] = b[i%len(b)]
		}
		for k := 1 + len(v)/64; k > 0 && len(v) > 0; k-- {
			v[r.N(len(v))] = r.Pick(boundary)
		}
	case 29: // each second value the complement or the negative of the one before
		r.Values(v, r.N(22))
		for i := 1; i < len(v); i += 2 {
			v[i] = ^v[i-1]
			if r.Chance(2) {
				v[i]++
			}
		}
	case 30: // a different kind of values from some point on
		for len(v) > 0 {
			n := min(len(v), [2]int{1 + r.N(len(v)), r.Round(2 * len(v))}[r.N(2)])
			r.Values(v[:n], r.N(22))
			v = v[n:]
		}
	case 31: // below a boundary, some just above it
		top := uint32(1) << uint([...]int{7, 8, 8, 15, 16, 16, 23, 24, 24, 31}[r.N(10)])
		rare := 2 + r.N(40)
		for i := range v {
			v[i] = r.U32() & (top - 1)
			if r.Chance(rare) {
				v[i] = top | r.U32()&(top-1)
			}
		}
	default: // position-stamped: every value says where it stands
		for i := range v {
			v[i] = uint32(i)*0x01010101 + uint32(i>>8)
			if s := r.N(5); s > 0 {
				v[i] >>= uint(8 * (s - 1))
			}
		}
	}
}

func (r *Rng) progression(v []uint32) {
	a, d := r.class(1+r.N(4)), r.class(1+r.N(4))
	switch r.N(6) {
	case 0:
		d = r.Pick(boundary)
	case 1:
		d = -d
	case 2:
		d = 1
	}
	for i := range v {
		v[i] = a
		a += d
	}
}

// Sum turns differences into values.
func Sum(v []uint32, base uint32) {
	for i := range v {
		v[i] += base
		base = v[i]
	}
}

// Base picks a base for differential coding.
func (r *Rng) Base(first uint32) uint32 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 0xffffffff
	case 3:
		return 1 << 31
	case 4:
		return first
	case 5:
		return first + r.Pick(boundary)
	case 6:
		return r.class(1 + r.N(4))
	}
	return r.U32()
}

// Count picks the number of words of the i-th call of a family: first all
// small counts in turn, then sizes of all magnitudes up to 2^maxLog.
func (r *Rng) Count(i, all, maxLog int) int {
	if i < all {
		return i
	}
	if r.N(3) > 0 {
		return r.N(all)
	}
	b := uint(5 + r.N(maxLog-4))
	if r.Chance(4) {
		return r.Round(1 << b)
	}
	return 1<<(b-1) + r.N(1<<(b-1)) + r.N(5)
}

// Round picks a number up to about max next to a multiple of one that a
// programmer would choose for the size of a chunk.
func (r *Rng) Round(max int) int {
	base := 1 << uint(4+r.N(14))
	if r.Chance(2) {
		base = [...]int{10, 50, 100, 250, 500, 1000, 2500, 5000, 10000, 50000, 100000, 3 << 8, 3 << 10, 3 << 12, 3 << 16}[r.N(15)]
	}
	if base > max {
		base = 100
	}
	n := base*(1+r.N(max/base+1)) + r.N(9) - 4
	if n > max+4 {
		n = base
	}
	return n
}

// Over picks a count argument above 4: just above, around every power of two
// an int can hold, multiples of them, any.
func (r *Rng) Over() int {
	bits := strconv.IntSize - 1
	switch r.N(4) {
	case 0:
		return 5 + r.N(300)
	case 1:
		return int(^uint(0)>>1) - r.N(5)
	case 2:
		return 5 + int(r.U64()>>uint(64-bits+r.N(bits)))&int(^uint(0)>>2)
	}
	b := uint(3 + r.N(bits-3))
	n := (1 + r.N(3)) << b
	if n>>b < 1 || n < 8 {
		n = 1 << b
	}
	return n + r.N(10) - 3
}

// Huge picks a number of words that no counter narrower than an int can hold
// by accident.
func (r *Rng) Long() int {
	max := 1 << uint(11+r.N(6))
	if r.Chance(2) {
		return r.Round(max)
	}
	return max + r.N(67)
}

// Medium is next to a multiple of a chunk.
func (r *Rng) Medium() int { return r.Round(1 << uint(9+r.N(8))) }

func (r *Rng) Huge() int {
	switch r.N(4) {
	case 0:
		return 1<<16 + r.N(1<<18)
	case 1:
		return r.Round(1 << 20)
	}
	return 1<<uint(17+r.N(6)) + r.N(131)
}

// Spot is a position below n: one that looking at a few would see or miss, or any.
func (r *Rng) Spot(n int) int {
	if r.Chance(2) {
		return r.N(n)
	}
	d := 1 + r.N(8)
	p := n*r.N(d+1)/d + r.N(3) - 1
	return min(max(p, 0), n-1)
}

// Stream returns a well-formed stream of n words without trailing bytes.
func (r *Rng) Stream(n int, delta bool, prev uint32) []byte {
	k := ctrlLen(n)
	style := r.N(12)
	if style < 3 { // what a writer would produce
		v := make([]uint32, n)
		r.Values(v, r.N(NStyles))
		return MEncodeStream(v, false, 0)
	}
	ctrl := make([]byte, k, k+4*n)
	fixed := [6]byte{0x00, 0xff, 0x55, 0xaa, 0x1b, 0xe4}[r.N(6)]
	for g := range ctrl {
		switch style {
		case 3, 10, 11:
			ctrl[g] = fixed
		case 4:
			ctrl[g] = byte(g + n)
		case 5:
			ctrl[g] = 0
			if r.Chance(5) {
				ctrl[g] = byte(r.U32())
			}
		case 6:
			ctrl[g] = 0xff
			if r.Chance(5) {
				ctrl[g] = byte(r.U32())
			}
		default:
			ctrl[g] = byte(r.U32())
		}
	}
	if style >= 10 && k > 0 { // few exceptions
		for j := r.N(3); j >= 0; j-- {
			ctrl[r.Spot(k)] = byte(r.U32())
		}
	}
	// the last groups decide what follows the bulk loops' loads
	if k > 0 && r.Chance(3) {
		for g := max(0, k-1-r.N(6)); g < k; g++ {
			ctrl[g] = 0
		}
	}
	if n%4 != 0 { // absent codes: usually zero, often not
		m := byte(1)<<uint(2*(n%4)) - 1
		switch r.N(3) {
		case 0:
			ctrl[k-1] &= m
		case 1:
			ctrl[k-1] |= ^m
		}
	}
	need := mNeed(n, ctrl)
	s := ctrl
	if cap(s) < k+need {
		s = append(make([]byte, 0, k+need), ctrl...)
	}
	ds := r.N(6)
	for i := 0; i < need; i++ {
		var b byte
		switch ds {
		case 0:
			b = five[r.N(5)]
		case 1:
			if r.Chance(4) {
				b = byte(r.U32())
			}
		case 2:
			b = byte(i)
		case 3:
			b = 0xff
		default:
			b = byte(r.U32())
		}
		s = append(s, b)
	}
	return s
}

// Place picks placements and pattern.
func (r *Rng) Place(c *Call, tight bool) {
	c.Pat = byte(0x11 + r.N(0xdd))
	c.Skew = r.N(16)
	c.RO = false
	c.Extra = 0
	if r.Chance(3) { // spare capacity behind the slices, perhaps not accessible
		c.Extra = 4 * (1 + r.N(24))
	}
	if !tight {
		c.PlIn, c.PlOut = Mid, Mid
		if r.Chance(6) {
			c.Skew = Paged + r.N(40)
		}
		return
	}
	c.PlIn, c.PlOut = r.N(3), r.N(3)
	if (c.PlIn == Mid || c.PlOut == Mid) && r.Chance(3) {
		c.Skew = Paged + r.N(40)
	}
	if r.Chance(2) {
		c.PlIn = Hi
	}
	if r.Chance(2) {
		c.PlOut = Hi
	}
	c.RO = r.Chance(12)
}
