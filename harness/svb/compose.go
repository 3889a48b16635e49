package svb

import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
)

// Composite writers and readers: whole streams made from block functions, or
// from separately coded segments.  The specification judges them as if they
// were stream functions, which is what property C15 says they are.

// Plan drives the choices a composite function makes; set before each call.
var Plan uint64

var Composites []*Fn

func pick(fns []*Fn, r *Rng) *Fn { return fns[r.N(len(fns))] }

func Select(kind string, shapes []string, delta bool) (out []*Fn) {
	for _, f := range Fns {
		for _, s := range shapes {
			if f.Kind == kind && f.Shape == s && f.Delta == delta {
				out = append(out, f)
			}
		}
	}
	return
}

func size1(c byte) int { return shared.ControlByteToSize(c) }

func composeWrite(in []uint32, prev uint32, delta bool) []byte {
	r := &Rng{Plan}
	p8, p4, pn := Select("put", []string{"8"}, delta), Select("put", []string{"4"}, delta), Select("put", []string{"upto4"}, delta)
	var ctrl, data []byte
	buf := make([]byte, 32)
	i := 0
	for i < len(in) {
		m := len(in) - i
		var n int
		switch {
		case m >= 8 && r.N(3) > 0:
			c := pick(p8, r).Put(in[i:i+8], buf, 8, prev)
			n = 8
			ctrl = append(ctrl, byte(c), byte(c>>8))
			data = append(data, buf[:shared.ControlByteToSizeTwo(c)]...)
		case m >= 4:
			f := pick(p4, r)
			if r.Chance(2) {
				f = pick(pn, r)
			}
			c := byte(f.Put(in[i:i+4], buf, 4, prev))
			n = 4
			ctrl = append(ctrl, c)
			data = append(data, buf[:size1(c)]...)
		default:
			c := byte(pick(pn, r).Put(in[i:], buf, m, prev))
			n = m
			ctrl = append(ctrl, c)
			data = append(data, buf[:size1(c)-(4-m)]...)
		}
		prev = in[i+n-1]
		i += n
	}
	return append(ctrl, data...)
}

func composeRead(count int, s []byte, out []uint32, prev uint32, delta bool) {
	r := &Rng{Plan}
	g8, g4, gn := Select("get", []string{"8"}, delta), Select("get", []string{"4"}, delta), Select("get", []string{"upto4"}, delta)
	k := ctrlLen(count)
	ctrl, data := s[:k], s[k:]
	i := 0
	for i < count {
		m := count - i
		g := i / 4
		var n int
		switch {
		case m >= 8 && r.N(3) > 0:
			f := pick(g8, r)
			if len(data) < 32 {
				for f.Impl != "scalar" {
					f = pick(g8, r)
				}
			}
			c := uint16(ctrl[g]) | uint16(ctrl[g+1])<<8
			f.Get(data, out[i:i+8], c, 8, prev)
			n = 8
			data = data[shared.ControlByteToSizeTwo(c):]
		case m >= 4 && r.Chance(2):
			pick(g4, r).Get(data, out[i:i+4], uint16(ctrl[g]), 4, prev)
			n = 4
			data = data[size1(ctrl[g]):]
		default:
			n = min(m, 4)
			used := pick(gn, r).Get(data, out[i:i+n], uint16(ctrl[g]), n, prev)
			data = data[used:]
		}
		prev = out[i+n-1]
		i += n
	}
}

// segments cuts count words at multiples of 4.
func segments(r *Rng, count int) []int {
	var cuts []int
	for i := 0; i < count; {
		n := 4 * (1 + r.N(1+r.N(20)))
		if r.Chance(6) {
			n = 4 * (8 + r.N(64))
		}
		i = min(count, i+n)
		cuts = append(cuts, i)
	}
	return cuts
}

func segmentWrite(in []uint32, prev uint32, delta bool) []byte {
	r := &Rng{Plan}
	ws := Select("write", []string{"stream"}, delta)
	var ctrl, data []byte
	at := 0
	for _, to := range segments(r, len(in)) {
		s := pick(ws, r).Write(in[at:to], prev)
		k := ctrlLen(to - at)
		ctrl, data = append(ctrl, s[:k]...), append(data, s[k:]...)
		prev = in[to-1]
		at = to
	}
	return append(ctrl, data...)
}

func segmentRead(count int, s []byte, out []uint32, prev uint32, delta bool) {
	r := &Rng{Plan}
	rs := Select("read", []string{"stream"}, delta)
	k := ctrlLen(count)
	ctrl, data := s[:k], s[k:]
	at := 0
	for _, to := range segments(r, count) {
		n := to - at
		c := ctrl[at/4 : ctrlLen(to)]
		need := mNeed(n, c)
		seg := append(append(make([]byte, 0, len(c)+need), c...), data[:need]...)
		pick(rs, r).Read(n, seg, out[at:to], prev)
		data = data[need:]
		prev = out[to-1]
		at = to
	}
}

// bookkeeping helpers of the repository used by composeWrite/Read
var _ = encode.MaxBytesPerNum
var _ = decode.GetMode

func init() {
	for _, d := range []bool{false, true} {
		d := d
		sfx := ""
		if d {
			sfx = "Delta"
		}
		add := func(f *Fn) { Composites = append(Composites, f) }
		add(&Fn{Key: Key{"write", "stream", "blocks", d}, Name: "BlocksWrite" + sfx, Write: func(in []uint32, p uint32) []byte { return composeWrite(in, p, d) }})
		add(&Fn{Key: Key{"write", "stream", "segments", d}, Name: "SegmentsWrite" + sfx, Write: func(in []uint32, p uint32) []byte { return segmentWrite(in, p, d) }})
		add(&Fn{Key: Key{"read", "stream", "blocks", d}, Name: "BlocksRead" + sfx, Read: func(n int, s []byte, o []uint32, p uint32) { composeRead(n, s, o, p, d) }})
		add(&Fn{Key: Key{"read", "stream", "segments", d}, Name: "SegmentsRead" + sfx, Read: func(n int, s []byte, o []uint32, p uint32) { segmentRead(n, s, o, p, d) }})
	}
}
