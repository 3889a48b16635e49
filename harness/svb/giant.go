//go:build linux && amd64

package svb

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"syscall"
	"unsafe"
)

// Giant calls: more bytes than 32-bit numbers count.  The arguments repeat one
// block, over a few pages mapped again and again, and results are reported as
// runs of equal blocks, which loses nothing.

const giantChunk = 1 << 20

// repeated maps n bytes that repeat what block holds (its length divides
// giantChunk), read-only.
func repeated(block []byte, n int) []byte {
	f, err := os.CreateTemp("", "svb")
	if err != nil {
		panic("driver: " + err.Error())
	}
	os.Remove(f.Name())
	defer f.Close()
	if _, err = f.Write(bytes.Repeat(block, giantChunk/len(block))); err != nil {
		panic("driver: " + err.Error())
	}
	total := (n + giantChunk - 1) / giantChunk * giantChunk
	base, err := syscall.Mmap(-1, 0, total, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		panic("driver: " + err.Error())
	}
	for o := 0; o < total; o += giantChunk {
		mapAt(base[o:], f)
	}
	return base[:n:n]
}

func mapAt(at []byte, f *os.File) {
	p := uintptr(unsafe.Pointer(&at[0]))
	q, _, e := syscall.Syscall6(syscall.SYS_MMAP, p, giantChunk, syscall.PROT_READ, syscall.MAP_SHARED|syscall.MAP_FIXED, f.Fd(), 0)
	if e != 0 || q != p {
		panic("driver: mmap: " + e.Error())
	}
}

// giantStream maps k control bytes of all ones and then n data bytes.
func giantStream(k int, block []byte, n int) []byte {
	ck := (k + giantChunk - 1) / giantChunk * giantChunk
	total := ck + (n+giantChunk-1)/giantChunk*giantChunk
	base, err := syscall.Mmap(-1, 0, total, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		panic("driver: " + err.Error())
	}
	for _, part := range []struct {
		b      []byte
		lo, hi int
	}{{[]byte{0xff}, 0, ck}, {block, ck, total}} {
		f, err := os.CreateTemp("", "svb")
		if err != nil {
			panic("driver: " + err.Error())
		}
		os.Remove(f.Name())
		if _, err = f.Write(bytes.Repeat(part.b, giantChunk/len(part.b))); err != nil {
			panic("driver: " + err.Error())
		}
		for o := part.lo; o < part.hi; o += giantChunk {
			mapAt(base[o:], f)
		}
		f.Close()
	}
	return base[ck-k : ck+n : ck+n]
}

// runs splits b into blocks of n bytes and counts equal neighbours.
func runs(b []byte, n int) string {
	var out []string
	for len(b) >= n && len(out) < 40 {
		k := 1
		for (k+1)*n <= len(b) && bytes.Equal(b[k*n:(k+1)*n], b[:n]) {
			k++
		}
		out = append(out, fmt.Sprintf(`{"b":%s,"k":%d}`, ints(b[:n]), k))
		b = b[k*n:]
	}
	if len(b) > n { // too many runs: enough to know that they are not as expected
		b = b[:n]
	}
	if len(b) > 0 {
		out = append(out, fmt.Sprintf(`{"b":%s,"k":1}`, ints(b)))
	}
	return "[" + strings.Join(out, ",") + "]"
}

// Giant makes one call of about 2^log words and returns its event.
func Giant(seed uint64, name string, log int) []byte {
	var f *Fn
	for _, g := range Fns {
		if g.Name == name {
			f = g
		}
	}
	if f == nil || f.Shape != "stream" {
		panic("driver: no function " + name)
	}
	const period = 64
	r := NewRng(seed, "giant/"+name, log)
	reps := 1<<uint(log)/period + 1 + r.N(1000)
	tail := r.N(period)
	n := reps*period + tail
	w := make([]uint32, period)
	d := make([]uint32, period)
	for { // 4-byte values whose differences are 4-byte values too, all around
		prev := r.class(4)
		first := prev
		ok := true
		for i := range w {
			d[i] = r.class(4)
			if i == period-1 {
				d[i] = first - prev
			}
			w[i] = prev + d[i]
			prev = w[i]
			ok = ok && w[i] >= 1<<24 && d[i] >= 1<<24
		}
		if ok {
			break
		}
	}
	prev := w[period-1]
	if f.Kind == "read" && r.Chance(2) { // small values in four bytes
		var s uint32
		for i := range d {
			d[i] = r.class(1 + r.N(4))
			if i == period-1 && f.Delta {
				d[i] = -s
			}
			s += d[i]
			if f.Delta {
				w[i] = prev + s
			} else {
				w[i] = d[i]
			}
		}
	} else if !f.Delta {
		d = w
	}
	block := asBytes(w)
	k := ctrlLen(n)
	head := fmt.Sprintf(`{"fn":"%s","kind":"%s","delta":%v,"prev":%s,"period":%d,"reps":%d,"tail":%d,`, f.Name, f.Kind, f.Delta, ints(word(prev)), period, reps, tail)
	var res string
	if f.Kind == "write" {
		in := asWords(repeated(block, 4*n))
		var out []byte
		res, _ = protect(func() { out = f.Write(in, prev) })
		ctrl, data := out[:min(k, len(out))], out[min(k, len(out)):]
		return []byte(fmt.Sprintf(`%s"words":%s,"res":"%s","ctrl":%s,"data":%s}`+"\n", head, ints(block), res, runs(ctrl, period/4), runs(data, 4*period)))
	}
	s := giantStream(k, asBytes(d), 4*n)
	out := make([]uint32, n)
	res, _ = protect(func() { f.Read(n, s, out, prev) })
	return []byte(fmt.Sprintf(`%s"ctrl":%s,"data":%s,"res":"%s","words":%s}`+"\n", head, ints(s[:period/4]), ints(asBytes(d)), res, runs(asBytes(out), 4*period)))
}

func asWords(b []byte) []uint32 { return unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), len(b)/4) }
