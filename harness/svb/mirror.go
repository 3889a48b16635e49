// Package svb runs the real stream/block functions on guarded memory and
// records calls for validation against the TLA+ specification.
package svb

// The functions in this file mirror spec/SvbFormat.tla. They only select which
// executions are worth recording: whether a recorded call is right or wrong is
// decided by TLC, on the specification.

func wlen(v uint32) int {
	switch {
	case v >= 1<<24:
		return 4
	case v >= 1<<16:
		return 3
	case v >= 1<<8:
		return 2
	}
	return 1
}

func ctrlLen(n int) int { return (n + 3) / 4 }

// mEncode appends the canonical control bytes to ctrl and data bytes to data.
func mEncode(words []uint32, delta bool, prev uint32, ctrl, data []byte) ([]byte, []byte) {
	var c byte
	for i, v := range words {
		d := v
		if delta {
			d = v - prev
			prev = v
		}
		l := wlen(d)
		c |= byte(l-1) << uint(2*(i%4))
		for k := 0; k < l; k++ {
			data = append(data, byte(d>>uint(8*k)))
		}
		if i%4 == 3 || i == len(words)-1 {
			ctrl = append(ctrl, c)
			c = 0
		}
	}
	return ctrl, data
}

func MEncodeStream(words []uint32, delta bool, prev uint32) []byte {
	c, d := mEncode(words, delta, prev, make([]byte, 0, ctrlLen(len(words))), make([]byte, 0, 4*len(words)))
	return append(c, d...)
}

func codeSize(ctrl []byte, i int) int { return int(ctrl[i/4]>>uint(2*(i%4)))&3 + 1 }

// mNeed returns the data bytes n words with these control bytes take.
func mNeed(n int, ctrl []byte) int {
	t := 0
	for i := 0; i < n; i++ {
		t += codeSize(ctrl, i)
	}
	return t
}

// mDecode returns the n words, or false if data is too short.
func mDecode(n int, ctrl, data []byte, delta bool, prev uint32, out []uint32) ([]uint32, int, bool) {
	out = out[:0]
	pos := 0
	for i := 0; i < n; i++ {
		l := codeSize(ctrl, i)
		if pos+l > len(data) {
			return out, pos, false
		}
		var d uint32
		for k := 0; k < l; k++ {
			d |= uint32(data[pos+k]) << uint(8*k)
		}
		pos += l
		if delta {
			d += prev
			prev = d
		}
		out = append(out, d)
	}
	return out, pos, true
}
