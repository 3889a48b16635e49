// Command mips runs a Linux program for 32-bit MIPS (either byte order,
// GOMIPS=softfloat): the processor's integer instructions, a memory with page
// protection, threads taken in turn, and the system calls and signals Go
// programs use.  It is the machine on which C13 runs the library big-endian.
package main

import (
	"fmt"
	"math/bits"
	"os"
	"unsafe"
)

const pageBits = 12

const (
	pRead  = 1
	pWrite = 2
	pExec  = 4
	pUsed  = 8 // mapped, maybe inaccessible
)

type machine struct {
	big    bool
	mem    []byte // 2 GB
	base   unsafe.Pointer
	perm   []byte
	brk    uint32
	next   uint32 // where mmap looks for room
	thr    []*thread
	cur    *thread
	ticks  uint64 // instructions so far, 10 ns each
	skip   uint64 // time spent waiting, ns
	sig    [129]sigaction
	files  map[uint32]uint64
	share  []shared
	tid    uint32
	trace  bool
	evfd   uint32
	evcnt  uint64
	evdata uint64
}

type sigaction struct {
	flags, handler uint32
	mask           [4]uint32
}

type shared struct {
	addr, n uint32
	file    *os.File
	off     int64
}

type thread struct {
	r          [32]uint32
	hi, lo     uint32
	pc, npc    uint32
	tid        uint32
	altsp      uint32
	altsize    uint32
	altflags   uint32
	mask       [4]uint32
	onalt      bool
	ll         uint32
	llok       bool
	wait       uint32 // futex word, 0: none
	sleeping   bool
	until      uint64 // virtual ns, 0: forever
	epoll      bool
	dead       bool
	pending    []int
	wakeResult uint32
}

type fault struct {
	addr  uint32
	write bool
}

type trap struct{ sig, code int }

// unsupported means that the program needs something this machine lacks.
type unsupported string

func (m *machine) now() uint64 { return m.ticks*10 + m.skip }

func (m *machine) ok(a uint32, p byte, w bool) {
	if a >= 1<<31 || m.perm[a>>pageBits]&p == 0 {
		panic(fault{a, w})
	}
}
func (m *machine) at(a uint32) unsafe.Pointer { return unsafe.Add(m.base, uintptr(a)) }

func (m *machine) ld8(a uint32) uint32 {
	m.ok(a, pRead, false)
	return uint32(*(*uint8)(m.at(a)))
}
func (m *machine) ld16(a uint32) uint32 {
	if a&1 != 0 {
		panic(trap{10, 1})
	}
	m.ok(a, pRead, false)
	v := *(*uint16)(m.at(a))
	if m.big {
		v = bits.ReverseBytes16(v)
	}
	return uint32(v)
}
func (m *machine) ld32(a uint32) uint32 {
	if a&3 != 0 {
		panic(trap{10, 1})
	}
	m.ok(a, pRead, false)
	v := *(*uint32)(m.at(a))
	if m.big {
		v = bits.ReverseBytes32(v)
	}
	return v
}
func (m *machine) st8(a, v uint32) {
	m.ok(a, pWrite, true)
	*(*uint8)(m.at(a)) = uint8(v)
}
func (m *machine) st16(a, v uint32) {
	if a&1 != 0 {
		panic(trap{10, 1})
	}
	m.ok(a, pWrite, true)
	w := uint16(v)
	if m.big {
		w = bits.ReverseBytes16(w)
	}
	*(*uint16)(m.at(a)) = w
}
func (m *machine) st32(a, v uint32) {
	if a&3 != 0 {
		panic(trap{10, 1})
	}
	m.ok(a, pWrite, true)
	if m.big {
		v = bits.ReverseBytes32(v)
	}
	*(*uint32)(m.at(a)) = v
}
func (m *machine) st64(a uint32, v uint64) {
	if m.big {
		m.st32(a, uint32(v>>32))
		m.st32(a+4, uint32(v))
	} else {
		m.st32(a, uint32(v))
		m.st32(a+4, uint32(v>>32))
	}
}

// unaligned word access: byte i of the aligned word, counted from its most
// significant end
func (m *machine) msb(a uint32) uint32 {
	if m.big {
		return a & 3
	}
	return 3 - a&3
}

// run executes up to n instructions of the current thread.
func (m *machine) run(t *thread, n int) (syscall bool) {
	start := n
	defer func() { m.ticks += uint64(start - n) }()
	r := &t.r
	for ; n > 0; n-- {
		pc := t.pc
		if pc&3 != 0 || pc >= 1<<31 || m.perm[pc>>pageBits]&pExec == 0 {
			panic(fault{pc, false})
		}
		w := *(*uint32)(m.at(pc))
		if m.big {
			w = bits.ReverseBytes32(w)
		}
		rs, rt, rd := w>>21&31, w>>16&31, w>>11&31
		imm := uint32(int32(int16(w)))
		next := t.npc + 4
		switch w >> 26 {
		case 0:
			switch w & 63 {
			case 0:
				r[rd] = r[rt] << (w >> 6 & 31)
			case 2:
				if w>>21&1 != 0 {
					r[rd] = bits.RotateLeft32(r[rt], -int(w>>6&31))
				} else {
					r[rd] = r[rt] >> (w >> 6 & 31)
				}
			case 3:
				r[rd] = uint32(int32(r[rt]) >> (w >> 6 & 31))
			case 4:
				r[rd] = r[rt] << (r[rs] & 31)
			case 6:
				if w>>6&1 != 0 {
					r[rd] = bits.RotateLeft32(r[rt], -int(r[rs]&31))
				} else {
					r[rd] = r[rt] >> (r[rs] & 31)
				}
			case 7:
				r[rd] = uint32(int32(r[rt]) >> (r[rs] & 31))
			case 8:
				next = r[rs]
			case 9:
				next = r[rs]
				r[rd] = pc + 8
			case 10:
				if r[rt] == 0 {
					r[rd] = r[rs]
				}
			case 11:
				if r[rt] != 0 {
					r[rd] = r[rs]
				}
			case 12:
				t.pc, t.npc = t.npc, next
				n--
				return true
			case 13:
				panic(trap{5, 1})
			case 15: // SYNC
			case 16:
				r[rd] = t.hi
			case 17:
				t.hi = r[rs]
			case 18:
				r[rd] = t.lo
			case 19:
				t.lo = r[rs]
			case 24:
				p := int64(int32(r[rs])) * int64(int32(r[rt]))
				t.hi, t.lo = uint32(uint64(p)>>32), uint32(p)
			case 25:
				p := uint64(r[rs]) * uint64(r[rt])
				t.hi, t.lo = uint32(p>>32), uint32(p)
			case 26:
				if d := int32(r[rt]); d == -1 {
					t.lo, t.hi = -r[rs], 0
				} else if d != 0 {
					t.lo, t.hi = uint32(int32(r[rs])/d), uint32(int32(r[rs])%d)
				}
			case 27:
				if d := r[rt]; d != 0 {
					t.lo, t.hi = r[rs]/d, r[rs]%d
				}
			case 32:
				s := r[rs] + r[rt]
				if (s^r[rs])&(s^r[rt])>>31 != 0 {
					panic(trap{8, 2})
				}
				r[rd] = s
			case 33:
				r[rd] = r[rs] + r[rt]
			case 34:
				s := r[rs] - r[rt]
				if (r[rs]^r[rt])&(s^r[rs])>>31 != 0 {
					panic(trap{8, 2})
				}
				r[rd] = s
			case 35:
				r[rd] = r[rs] - r[rt]
			case 36:
				r[rd] = r[rs] & r[rt]
			case 37:
				r[rd] = r[rs] | r[rt]
			case 38:
				r[rd] = r[rs] ^ r[rt]
			case 39:
				r[rd] = ^(r[rs] | r[rt])
			case 42:
				r[rd] = b2u(int32(r[rs]) < int32(r[rt]))
			case 43:
				r[rd] = b2u(r[rs] < r[rt])
			case 48, 49, 50, 51, 52, 54:
				c := false
				switch w & 63 {
				case 48:
					c = int32(r[rs]) >= int32(r[rt])
				case 49:
					c = r[rs] >= r[rt]
				case 50:
					c = int32(r[rs]) < int32(r[rt])
				case 51:
					c = r[rs] < r[rt]
				case 52:
					c = r[rs] == r[rt]
				case 54:
					c = r[rs] != r[rt]
				}
				if c {
					if w>>6&1023 == 7 {
						panic(trap{8, 1})
					}
					panic(trap{5, 0})
				}
			default:
				panic(unsupported(fmt.Sprintf("instruction %08x at %x", w, pc)))
			}
		case 1:
			neg := int32(r[rs]) < 0
			link, likely := false, false
			switch rt {
			case 0:
			case 1:
				neg = !neg
			case 2:
				likely = true
			case 3:
				neg, likely = !neg, true
			case 16:
				link = true
			case 17:
				neg, link = !neg, true
			case 31: // SYNCI
				neg = false
			default:
				panic(unsupported(fmt.Sprintf("instruction %08x at %x", w, pc)))
			}
			if link {
				r[31] = pc + 8
			}
			if neg {
				next = pc + 4 + imm<<2
			} else if likely {
				t.npc, next = next, next+4
			}
		case 2:
			next = (pc+4)&0xf0000000 | w<<6>>4
		case 3:
			r[31] = pc + 8
			next = (pc+4)&0xf0000000 | w<<6>>4
		case 4, 5, 6, 7, 20, 21, 22, 23:
			c := false
			switch w >> 26 & 3 {
			case 0:
				c = r[rs] == r[rt]
			case 1:
				c = r[rs] != r[rt]
			case 2:
				c = int32(r[rs]) <= 0
			case 3:
				c = int32(r[rs]) > 0
			}
			if c {
				next = pc + 4 + imm<<2
			} else if w>>26 >= 20 {
				t.npc, next = next, next+4
			}
		case 8:
			s := r[rs] + imm
			if (s^r[rs])&(s^imm)>>31 != 0 {
				panic(trap{8, 2})
			}
			r[rt] = s
		case 9:
			r[rt] = r[rs] + imm
		case 10:
			r[rt] = b2u(int32(r[rs]) < int32(imm))
		case 11:
			r[rt] = b2u(r[rs] < imm)
		case 12:
			r[rt] = r[rs] & (w & 0xffff)
		case 13:
			r[rt] = r[rs] | w&0xffff
		case 14:
			r[rt] = r[rs] ^ w&0xffff
		case 15:
			r[rt] = w << 16
		case 28:
			switch w & 63 {
			case 0:
				m.macc(t, uint64(int64(int32(r[rs]))*int64(int32(r[rt]))), 1)
			case 1:
				m.macc(t, uint64(r[rs])*uint64(r[rt]), 1)
			case 2:
				r[rd] = r[rs] * r[rt]
			case 4:
				m.macc(t, -uint64(int64(int32(r[rs]))*int64(int32(r[rt]))), 1)
			case 5:
				m.macc(t, -(uint64(r[rs]) * uint64(r[rt])), 1)
			case 32:
				r[rd] = uint32(bits.LeadingZeros32(r[rs]))
			case 33:
				r[rd] = uint32(bits.LeadingZeros32(^r[rs]))
			default:
				panic(unsupported(fmt.Sprintf("instruction %08x at %x", w, pc)))
			}
		case 31:
			pos := w >> 6 & 31
			switch w & 63 {
			case 0: // EXT
				r[rt] = r[rs] >> pos & uint32(1<<(rd+1)-1)
			case 4: // INS
				mask := uint32(1<<(rd-pos+1)-1) << pos
				r[rt] = r[rt]&^mask | r[rs]<<pos&mask
			case 32:
				switch pos {
				case 2:
					r[rd] = r[rt]&0xff00ff<<8 | r[rt]>>8&0xff00ff
				case 16:
					r[rd] = uint32(int32(int8(r[rt])))
				case 24:
					r[rd] = uint32(int32(int16(r[rt])))
				default:
					panic(unsupported(fmt.Sprintf("instruction %08x at %x", w, pc)))
				}
			case 59:
				r[rt] = 0
			default:
				panic(unsupported(fmt.Sprintf("instruction %08x at %x", w, pc)))
			}
		case 32:
			r[rt] = uint32(int32(int8(m.ld8(r[rs] + imm))))
		case 33:
			r[rt] = uint32(int32(int16(m.ld16(r[rs] + imm))))
		case 34: // LWL
			a := r[rs] + imm
			v := m.ld32(a &^ 3)
			k := m.msb(a) * 8
			r[rt] = v<<k | r[rt]&(1<<k-1)
		case 35:
			r[rt] = m.ld32(r[rs] + imm)
		case 36:
			r[rt] = m.ld8(r[rs] + imm)
		case 37:
			r[rt] = m.ld16(r[rs] + imm)
		case 38: // LWR
			a := r[rs] + imm
			v := m.ld32(a &^ 3)
			k := (3 - m.msb(a)) * 8
			r[rt] = v>>k | r[rt]&^(^uint32(0)>>k)
		case 40:
			m.st8(r[rs]+imm, r[rt])
		case 41:
			m.st16(r[rs]+imm, r[rt])
		case 42: // SWL
			a := r[rs] + imm
			v := m.ld32(a &^ 3)
			k := m.msb(a) * 8
			m.st32(a&^3, r[rt]>>k|v&^(^uint32(0)>>k))
		case 43:
			m.st32(r[rs]+imm, r[rt])
		case 46: // SWR
			a := r[rs] + imm
			v := m.ld32(a &^ 3)
			k := (3 - m.msb(a)) * 8
			m.st32(a&^3, r[rt]<<k|v&(1<<k-1))
		case 47, 51: // CACHE, PREF
		case 48:
			a := r[rs] + imm
			r[rt] = m.ld32(a)
			t.ll, t.llok = a, true
		case 56:
			a := r[rs] + imm
			if t.llok && t.ll == a {
				m.st32(a, r[rt])
				r[rt] = 1
			} else {
				m.ok(a, pWrite, true)
				r[rt] = 0
			}
			t.llok = false
		default:
			panic(unsupported(fmt.Sprintf("instruction %08x at %x", w, pc)))
		}
		r[0] = 0
		t.pc, t.npc = t.npc, next
	}
	return false
}

func (m *machine) macc(t *thread, p uint64, _ int) {
	p += uint64(t.hi)<<32 | uint64(t.lo)
	t.hi, t.lo = uint32(p>>32), uint32(p)
}

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
