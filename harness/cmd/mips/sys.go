package main

import (
	"fmt"
	"os"
	"sort"
	"syscall"
	"time"
	"unsafe"
)

const (
	eAGAIN  = 11
	eNOMEM  = 12
	eBADF   = 9
	eINVAL  = 22
	eNOSYS  = 89
	eTIMED  = 145
	trampAt = 0x7ffef000 // the code signal handlers return to
)

// hostFlags translates open flags.
func hostFlags(f uint32) int {
	h := int(f & 3)
	for _, p := range [][2]int{{0x100, syscall.O_CREAT}, {0x200, syscall.O_TRUNC}, {0x400, syscall.O_EXCL}, {8, syscall.O_APPEND},
		{0x80000, syscall.O_CLOEXEC}, {0x80, syscall.O_NONBLOCK}, {0x10000, syscall.O_DIRECTORY}} {
		if f&uint32(p[0]) != 0 {
			h |= p[1]
		}
	}
	return h
}

func (m *machine) str(a uint32) string {
	var b []byte
	for {
		c := byte(m.ld8(a))
		if c == 0 {
			return string(b)
		}
		b = append(b, c)
		a++
	}
}

// span is the memory [a, a+n), if all of it may be accessed.
func (m *machine) span(a, n uint32, p byte) ([]byte, bool) {
	if n == 0 {
		return nil, true
	}
	if uint64(a)+uint64(n) > 1<<31 {
		return nil, false
	}
	for q := a >> pageBits; q <= (a+n-1)>>pageBits; q++ {
		if m.perm[q]&p == 0 {
			return nil, false
		}
	}
	return m.mem[a : a+n], true
}

func (m *machine) setPerm(a, n uint32, p byte) {
	for q := a >> pageBits; q < (a+n+4095)>>pageBits; q++ {
		m.perm[q] = p
	}
}

func (m *machine) room(n uint32) uint32 {
	n = (n + 0xffff) &^ 0xffff
	a := m.next
	for {
		if uint64(a)+uint64(n) > 0x7f000000 {
			return 0
		}
		free := true
		for q := a >> pageBits; q < (a+n)>>pageBits; q++ {
			if m.perm[q] != 0 {
				free, a = false, (q+1)<<pageBits
				break
			}
		}
		if free {
			m.next = a + n
			return a
		}
	}
}

func prot(p uint32) byte { return byte(p&7) | pUsed }

func (m *machine) mmap(a, n, p, flags, fd uint32, off int64) (uint32, uint32) {
	n = (n + 4095) &^ 4095
	if n == 0 || n >= 1<<31 {
		return 0, eINVAL
	}
	hint := a
	a &^= 4095
	if flags&0x10 == 0 { // not MAP_FIXED
		ok := a != 0 && uint64(a)+uint64(n) <= 0x7f000000
		for q := a >> pageBits; ok && q < (a+n)>>pageBits; q++ {
			ok = m.perm[q] == 0
		}
		if !ok {
			if a = m.room(n); a == 0 {
				return 0, eNOMEM
			}
		}
	} else if uint64(hint)+uint64(n) > 0x7f000000 {
		return 0, eNOMEM
	}
	m.setPerm(a, n, prot(p))
	m.zero(a, n)
	if flags&0x800 == 0 {
		if _, err := syscall.Pread(int(fd), m.mem[a:a+n], off); err != nil {
			return 0, errno(err)
		}
		if flags&1 != 0 { // MAP_SHARED: written back at the end
			d, err := syscall.Dup(int(fd))
			if err != nil {
				return 0, errno(err)
			}
			m.share = append(m.share, shared{a, n, os.NewFile(uintptr(d), "shared"), off})
		}
	}
	return a, 0
}

func (m *machine) zero(a, n uint32) {
	if n >= 1<<16 {
		lo, hi := (a+4095)&^4095, (a+n)&^4095
		if lo < hi {
			syscall.Madvise(m.mem[lo:hi], syscall.MADV_DONTNEED)
			clear(m.mem[a:lo])
			clear(m.mem[hi : a+n])
			return
		}
	}
	clear(m.mem[a : a+n])
}

func errno(err error) uint32 {
	if e, ok := err.(syscall.Errno); ok {
		switch {
		case e < 35: // the numbers below are the same everywhere
			return uint32(e)
		case e == syscall.ENOSYS:
			return eNOSYS
		case e == syscall.ENAMETOOLONG:
			return 78
		case e == syscall.ENOTEMPTY:
			return 93
		case e == syscall.ELOOP:
			return 90
		}
	}
	return eINVAL
}

// readable reports whether a read of fd would not block.
func readable(fd int) bool {
	p := struct {
		fd      int32
		ev, rev int16
	}{int32(fd), 1, 0}
	n, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p)), 1, 0)
	return n != 0 || e != 0
}

func (m *machine) finish(code int) {
	for _, s := range m.share {
		st, err := s.file.Stat()
		n := int64(s.n)
		if err == nil && st.Size()-s.off < n {
			n = st.Size() - s.off
		}
		if n > 0 {
			s.file.WriteAt(m.mem[s.addr:int64(s.addr)+n], s.off)
		}
	}
	os.Exit(code)
}

// call carries out the system call of t.
func (m *machine) call(t *thread) {
	num := t.r[2]
	a0, a1, a2, a3 := t.r[4], t.r[5], t.r[6], t.r[7]
	arg := func(i uint32) uint32 { return m.ld32(t.r[29] + 4*i) }
	var ret, err uint32
	hret := func(n int, e error) {
		if e != nil {
			err = errno(e)
		} else {
			ret = uint32(n)
		}
	}
	block := false
	switch num {
	case 4001: // exit
		t.dead = true
	case 4246:
		m.finish(int(a0 & 255))
	case 4003, 4200:
		if b, ok := m.span(a1, a2, pWrite); !ok {
			err = 14
		} else if a0 == m.evfd && m.evfd != 0 {
			if m.evcnt == 0 {
				err = eAGAIN
			} else {
				m.st64(a1, m.evcnt)
				m.evcnt, ret = 0, 8
			}
		} else if num == 4200 {
			hret(syscall.Pread(int(a0), b, m.long(arg(4), arg(5))))
		} else if !readable(int(a0)) {
			// others may have to go on first: the call is made again later
			t.sleeping, t.until = true, m.now()+1e6
			t.pc, t.npc = t.pc-4, t.pc
			return
		} else {
			hret(syscall.Read(int(a0), b))
		}
	case 4004, 4201:
		if b, ok := m.span(a1, a2, pRead); !ok {
			err = 14
		} else if a0 == m.evfd && m.evfd != 0 {
			m.evcnt++
			ret = 8
		} else if num == 4201 {
			hret(syscall.Pwrite(int(a0), b, m.long(arg(4), arg(5))))
		} else {
			hret(syscall.Write(int(a0), b))
		}
	case 4005:
		hret(syscall.Open(m.str(a0), hostFlags(a1), a2))
	case 4288:
		dir := int(int32(a0))
		hret(syscall.Openat(dir, m.str(a1), hostFlags(a2), a3))
	case 4006:
		if a0 != m.evfd || m.evfd == 0 {
			hret(0, syscall.Close(int(a0)))
		}
	case 4010:
		hret(0, syscall.Unlink(m.str(a0)))
	case 4020:
		ret = 1000
	case 4222:
		ret = t.tid
	case 4045:
		if a0 > m.brk && a0 < 0x40000000 {
			m.setPerm(m.brk, a0-m.brk, pUsed|pRead|pWrite)
			m.brk = a0
		}
		ret = m.brk
	case 4055, 4220: // fcntl
		switch a1 {
		case 3:
			f, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(a0), 3, 0)
			if e != 0 {
				err = eBADF
			} else {
				ret = uint32(f) & 3
				if f&syscall.O_NONBLOCK != 0 {
					ret |= 0x80
				}
				if f&syscall.O_APPEND != 0 {
					ret |= 8
				}
			}
		case 0, 1030:
			hret(syscall.Dup(int(a0)))
		}
	case 4090:
		ret, err = m.mmap(a0, a1, a2, a3, arg(4), int64(arg(5)))
	case 4210:
		ret, err = m.mmap(a0, a1, a2, a3, arg(4), int64(arg(5))<<12)
	case 4091:
		if uint64(a0)+uint64(a1) > 1<<31 || a0&4095 != 0 {
			err = eINVAL
		} else {
			n := (a1 + 4095) &^ 4095
			m.zero(a0, n)
			m.setPerm(a0, n, 0)
			m.next = min(m.next, a0&^0xffff)
		}
	case 4125:
		n := (a1 + 4095) &^ 4095
		for q := a0 >> pageBits; q < (a0+n)>>pageBits; q++ {
			if m.perm[q] == 0 {
				err = eNOMEM
			}
		}
		if err == 0 {
			m.setPerm(a0, n, prot(a2))
		}
	case 4218: // madvise
		if a2 == 4 && a0&4095 == 0 {
			m.zero(a0, (a1+4095)&^4095)
		}
	case 4217: // mincore
		err = eNOMEM
		if a0 < 1<<31 && m.perm[a0>>pageBits] != 0 {
			err = 0
		}
	case 4122: // uname
		if b, ok := m.span(a0, 390, pWrite); ok {
			clear(b)
			for i, s := range []string{"Linux", "emulated", "4.19.0", "1", "mips", ""} {
				copy(b[65*i:], s)
			}
		} else {
			err = 14
		}
	case 4104:
	case 4257, 4258, 4261, 4409, 4422, 4403, 4353, 4366, 4439, 4298, 4085, 4293, 4192:
		err = eNOSYS
		switch num {
		case 4353: // getrandom: the same numbers every time
			if b, ok := m.span(a0, a1, pWrite); ok {
				for i := range b {
					m.skip++
					b[i] = byte(m.now() * 2654435761 >> 13)
				}
				ret, err = a1, 0
			}
		case 4298, 4085:
			err = eINVAL
		case 4293:
			err = m.stat(m.str(a1), -1, a2)
		}
	case 4162:
		block = true
	case 4120: // clone
		m.tid++
		c := &thread{r: t.r, hi: t.hi, lo: t.lo, pc: t.pc, npc: t.npc, tid: m.tid, mask: t.mask}
		c.r[2], c.r[7] = 0, 0
		if a1 != 0 {
			c.r[29] = a1
		}
		m.thr = append(m.thr, c)
		ret = c.tid
	case 4166: // nanosleep
		t.sleeping, t.until = true, m.now()+uint64(m.ld32(a0))*1e9+uint64(m.ld32(a0+4))
		block = true
	case 4194:
		if a0 > 128 {
			err = eINVAL
			break
		}
		s := &m.sig[a0]
		if a2 != 0 {
			m.st32(a2, s.flags)
			m.st32(a2+4, s.handler)
			for i := uint32(0); i < 4; i++ {
				m.st32(a2+8+4*i, s.mask[i])
			}
		}
		if a1 != 0 {
			s.flags, s.handler = m.ld32(a1), m.ld32(a1+4)
			for i := uint32(0); i < 4; i++ {
				s.mask[i] = m.ld32(a1 + 8 + 4*i)
			}
		}
	case 4195:
		old := t.mask
		if a1 != 0 {
			for i := uint32(0); i < 4; i++ {
				v := m.ld32(a1 + 4*i)
				switch a0 {
				case 1:
					t.mask[i] |= v
				case 2:
					t.mask[i] &^= v
				case 3:
					t.mask[i] = v
				}
			}
		}
		if a2 != 0 {
			for i := uint32(0); i < 4; i++ {
				m.st32(a2+4*i, old[i])
			}
		}
	case 4206:
		if a1 != 0 {
			m.st32(a1, t.altsp)
			m.st32(a1+4, t.altsize)
			f := t.altflags
			if t.onalt {
				f |= 1
			}
			m.st32(a1+8, f)
		}
		if a0 != 0 {
			t.altsp, t.altsize, t.altflags = m.ld32(a0), m.ld32(a0+4), m.ld32(a0+8)&2
		}
	case 4193:
		m.sigreturn(t)
		return
	case 4037, 4266:
		sig, id := a1, uint32(0)
		if num == 4266 {
			sig, id = a2, a1
		}
		for _, o := range m.thr {
			if !o.dead && (id == 0 || o.tid == id) {
				if sig != 0 {
					o.pending = append(o.pending, int(sig))
				}
				break
			}
		}
	case 4238: // futex
		switch a1 & 127 {
		case 0:
			if m.ld32(a0) != a2 {
				err = eAGAIN
				break
			}
			t.wait, t.until = a0, 0
			if a3 != 0 {
				t.until = m.now() + uint64(m.ld32(a3))*1e9 + uint64(m.ld32(a3+4)) + 1
			}
			t.r[2], t.r[7] = 0, 0
			return
		case 1:
			for _, o := range m.thr {
				if ret < a2 && o.wait == a0 && !o.dead {
					o.wait, o.until = 0, 0
					ret++
				}
			}
		default:
			err = eNOSYS
		}
	case 4240:
		m.st32(a2, 0)
		if m.big {
			m.st8(a2+3, 0xff)
		} else {
			m.st8(a2, 0xff)
		}
		ret = 4
	case 4263:
		n := m.now()
		if a0 == 0 {
			n += uint64(epoch)
		}
		m.st32(a1, uint32(n/1e9))
		m.st32(a1+4, uint32(n%1e9))
	case 4215:
		err = m.stat("", int(a0), a1)
	case 4213, 4214:
		err = m.stat(m.str(a0), -1, a1)
	case 4326: // epoll_create1
		hret(syscall.Open("/dev/null", syscall.O_RDONLY, 0))
	case 4325: // eventfd2
		hret(syscall.Open("/dev/null", syscall.O_RDWR, 0))
		m.evfd = ret
	case 4249: // epoll_ctl: only the event descriptor ever becomes ready
		if a2 == m.evfd && a3 != 0 {
			m.evdata = uint64(m.ld32(a3+8))<<32 | uint64(m.ld32(a3+12))
			if !m.big {
				m.evdata = uint64(m.ld32(a3+12))<<32 | uint64(m.ld32(a3+8))
			}
		}
	case 4313: // epoll_pwait
		if m.evcnt > 0 {
			m.st32(a1, 1)
			m.st64(a1+8, m.evdata)
			ret = 1
		} else if int32(a3) != 0 {
			t.epoll, t.sleeping, t.until = true, true, 0
			if int32(a3) > 0 {
				t.until = m.now() + uint64(a3)*1e6
			}
			block = true
		}
	case 4328:
		var p [2]int
		hret(0, syscall.Pipe2(p[:], syscall.O_CLOEXEC))
		m.st32(a0, uint32(p[0]))
		m.st32(a0+4, uint32(p[1]))
	case 4203:
		d, e := os.Getwd()
		if e != nil || len(d)+1 > int(a1) {
			err = eINVAL
			break
		}
		copy(m.mem[a0:], d+"\x00")
		ret = uint32(len(d) + 1)
	case 4338, 4076, 4075: // limits
		err = eNOSYS
	case 4140: // _llseek
		o, e := syscall.Seek(int(a0), int64(a1)<<32|int64(a2), int(arg(4)))
		if e != nil {
			err = errno(e)
		} else {
			m.st64(a3, uint64(o))
		}
	case 4093, 4212:
		n := int64(a1)
		if num == 4212 {
			n = m.long(a2, a3)
		}
		hret(0, syscall.Ftruncate(int(a0), n))
	case 4289:
		hret(0, syscall.Mkdir(m.str(a1), a2))
	case 4039:
		hret(0, syscall.Mkdir(m.str(a0), a1))
	case 4294:
		hret(0, syscall.Unlink(m.str(a1)))
	case 4024, 4047, 4049, 4050, 4199, 4200 + 0x10000:
		ret = 0
	default:
		panic(unsupported(fmt.Sprintf("system call %d", num)))
	}
	if m.trace {
		fmt.Fprintf(os.Stderr, "[%d] call %d(%x, %x, %x, %x) = %x errno %d\n", t.tid, num, a0, a1, a2, a3, ret, err)
	}
	if err != 0 {
		t.r[2], t.r[7] = err, 1
	} else {
		t.r[2], t.r[7] = ret, 0
	}
	_ = block
}

var epoch = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano()

// long joins a 64-bit argument passed in two registers.
func (m *machine) long(x, y uint32) int64 {
	if m.big {
		return int64(x)<<32 | int64(y)
	}
	return int64(y)<<32 | int64(x)
}

func (m *machine) stat(name string, fd int, a uint32) uint32 {
	var s syscall.Stat_t
	var e error
	if fd >= 0 {
		e = syscall.Fstat(fd, &s)
	} else {
		e = syscall.Stat(name, &s)
	}
	if e != nil {
		return errno(e)
	}
	// struct stat64
	b, ok := m.span(a, 104, pWrite)
	if !ok {
		return 14
	}
	clear(b)
	m.st32(a, uint32(s.Dev))
	m.st64(a+16, s.Ino)
	m.st32(a+24, s.Mode)
	m.st32(a+28, uint32(s.Nlink))
	m.st64(a+56, uint64(s.Size))
	m.st32(a+88, 4096)
	m.st64(a+96, uint64(s.Blocks))
	return 0
}

// ---- signals ------------------------------------------------------------------

const frameSize = 24 + 128 + 600

// deliver starts t's handler of sig.
func (m *machine) deliver(t *thread, sig, code int, addr uint32) {
	s := m.sig[sig]
	if s.handler <= 1 {
		fmt.Fprintf(os.Stderr, "mips: signal %d (code %d, address %x) at %x\n", sig, code, addr, t.pc)
		m.finish(128 + sig)
	}
	sp := t.r[29]
	on := t.onalt
	if s.flags&0x8000000 != 0 && t.altflags&2 == 0 && t.altsize != 0 && !(sp > t.altsp && sp <= t.altsp+t.altsize) {
		sp = t.altsp + t.altsize
		t.onalt = true
	}
	sp = (sp - frameSize) &^ 15
	if _, ok := m.span(sp, frameSize, pWrite); !ok {
		fmt.Fprintf(os.Stderr, "mips: no stack for signal %d at %x\n", sig, t.pc)
		m.finish(139)
	}
	clear(m.mem[sp : sp+frameSize])
	info, uc := sp+24, sp+24+128
	m.st32(info, uint32(sig))
	m.st32(info+4, uint32(code))
	m.st32(info+12, addr)
	m.st32(uc+8, t.altsp)
	m.st32(uc+12, t.altsize)
	m.st32(uc+16, b2u(on))
	mc := uc + 24
	m.st64(mc+8, uint64(t.pc))
	for i := uint32(0); i < 32; i++ {
		m.st64(mc+16+8*i, uint64(t.r[i]))
	}
	hi := mc + 16 + 512 + 24 // acx, fpc_csr, fpc_eir, used_math, dsp, padding
	m.st64(hi, uint64(t.hi))
	m.st64(hi+8, uint64(t.lo))
	ms := hi + 16 + 24
	for i := uint32(0); i < 4; i++ {
		m.st32(ms+4*i, t.mask[i])
		t.mask[i] |= s.mask[i]
	}
	t.mask[(sig-1)/32] |= 1 << uint((sig-1)%32)
	t.r[4], t.r[5], t.r[6] = uint32(sig), info, uc
	t.r[29], t.r[31], t.r[25] = sp, trampAt, s.handler
	t.pc, t.npc = s.handler, s.handler+4
}

func (m *machine) sigreturn(t *thread) {
	uc := t.r[29] + 24 + 128
	mc := uc + 24
	w := func(a uint32) uint32 {
		if m.big {
			return m.ld32(a + 4)
		}
		return m.ld32(a)
	}
	t.onalt = m.ld32(uc+16) != 0
	t.pc = w(mc + 8)
	t.npc = t.pc + 4
	for i := uint32(1); i < 32; i++ {
		t.r[i] = w(mc + 16 + 8*i)
	}
	hi := mc + 16 + 512 + 24
	t.hi, t.lo = w(hi), w(hi+8)
	ms := hi + 16 + 24
	for i := uint32(0); i < 4; i++ {
		t.mask[i] = m.ld32(ms + 4*i)
	}
}

// ---- scheduling ---------------------------------------------------------------

func (m *machine) loop(limit uint64) {
	k := 0
	for {
		live := m.thr[:0]
		for _, t := range m.thr {
			if !t.dead {
				live = append(live, t)
			}
		}
		m.thr = live
		ran := false
		for i := 0; i < len(m.thr); i++ {
			t := m.thr[(k+i)%len(m.thr)]
			if m.waiting(t) {
				continue
			}
			k = (k + i + 1) % len(m.thr)
			m.turn(t)
			ran = true
			break
		}
		if m.ticks > limit {
			fmt.Fprintln(os.Stderr, "mips: out of time")
			m.finish(124)
		}
		if ran {
			continue
		}
		// everybody waits: to the first end of a wait
		var ends []uint64
		for _, t := range m.thr {
			if t.until != 0 {
				ends = append(ends, t.until)
			}
		}
		if len(ends) == 0 {
			fmt.Fprintln(os.Stderr, "mips: all threads wait for each other")
			m.finish(125)
		}
		sort.Slice(ends, func(i, j int) bool { return ends[i] < ends[j] })
		if n := m.now(); ends[0] > n {
			m.skip += ends[0] - n
		}
	}
}

func (m *machine) waiting(t *thread) bool {
	if t.wait == 0 && !t.sleeping {
		return false
	}
	if t.until != 0 && m.now() >= t.until {
		if t.wait != 0 {
			t.r[2], t.r[7] = eTIMED, 1
		}
		t.wait, t.sleeping, t.until, t.epoll = 0, false, 0, false
		return false
	}
	if t.epoll && m.evcnt > 0 {
		// the call is made again
		t.epoll, t.sleeping, t.until = false, false, 0
		t.pc, t.npc = t.pc-4, t.pc
		t.r[2] = 4313
		t.r[7] = 0
		return false
	}
	return len(t.pending) == 0 || true
}

func (m *machine) turn(t *thread) {
	for _, o := range m.thr {
		o.llok = false
	}
	m.cur = t
	if len(t.pending) > 0 {
		s := t.pending[0]
		if t.mask[(s-1)/32]&(1<<uint((s-1)%32)) == 0 {
			t.pending = t.pending[1:]
			m.deliver(t, s, -6, 0)
		}
	}
	// a signal in a delay slot returns to the branch
	pc := t.pc
	defer func() {
		e := recover()
		switch e := e.(type) {
		case nil:
			return
		case fault:
			code := 1
			if e.addr < 1<<31 && m.perm[e.addr>>pageBits] != 0 {
				code = 2
			}
			m.rewind(t)
			m.deliver(t, 11, code, e.addr)
		case trap:
			m.rewind(t)
			m.deliver(t, e.sig, e.code, t.pc)
		case unsupported:
			fmt.Fprintln(os.Stderr, "mips: unsupported:", string(e))
			os.Exit(126)
		default:
			fmt.Fprintf(os.Stderr, "mips: thread %d at %x (from %x)\n", t.tid, t.pc, pc)
			panic(e)
		}
	}()
	if m.run(t, 50000) {
		m.call(t)
	}
}

// rewind goes back to the branch if its delay slot failed.
func (m *machine) rewind(t *thread) {
	if t.npc != t.pc+4 {
		t.pc -= 4
		t.npc = t.pc + 4
	}
}
