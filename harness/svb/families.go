package svb

// Fam is a family of calls: the i-th call depends only on seed, name and i.
type Fam struct {
	Name            string
	Quick, Thorough int
	Share           int // percent of the sampling budget
	Run             func(x *Exec, r *Rng, i int, sample bool)
}

const allCounts = 301

// OnlyImpl restricts the functions called to those of one implementation.
var OnlyImpl string

func fnsOf(kind string, delta int, impls string) (out []*Fn) {
	for _, f := range Fns {
		if f.Kind != kind || OnlyImpl != "" && f.Impl != OnlyImpl {
			continue
		}
		if delta >= 0 && f.Delta != (delta == 1) {
			continue
		}
		out = append(out, f)
	}
	return
}

// writeCall fills a writer call.
func writeCall(r *Rng, f *Fn, n int, tight bool) *Call {
	c := &Call{F: f, In: make([]uint32, n)}
	r.Values(c.In, r.N(NStyles))
	first := uint32(0)
	if n > 0 {
		first = c.In[0]
	}
	c.Prev = r.Base(first)
	if f.Delta && r.Chance(2) {
		Sum(c.In, c.Prev)
	}
	c.Count = n
	r.Place(c, tight)
	return c
}

func readCall(r *Rng, f *Fn, n int, tight bool) *Call {
	c := &Call{F: f, Count: n, OutN: n}
	c.Prev = r.Base(0)
	c.Bytes = r.Stream(n, f.Delta, c.Prev)
	k := r.N(6)
	if k < 2 { // trailing bytes
		t := [8]int{1, 2, 3, 5, 16, 40, 64, ctrlLen(n) + 4*n - len(c.Bytes)}[r.N(8)]
		for k := 0; k < t; k++ {
			c.Bytes = append(c.Bytes, byte(r.U32()))
		}
	}
	if k == 1 || k == 2 { // longer output
		c.OutN += [6]int{1, 2, 3, 7, 8, 33}[r.N(6)]
	}
	r.Place(c, tight)
	return c
}

func putCall(r *Rng, f *Fn, tight bool) *Call {
	n := 8
	c := &Call{F: f}
	switch f.Shape {
	case "4":
		n = 4
	case "upto4":
		c.Count = r.N(5)
		if r.Chance(8) {
			c.Count = r.Over()
		}
		n = min(c.Count, 4)
	}
	c.In = make([]uint32, n)
	r.Values(c.In, r.N(NStyles))
	first := uint32(0)
	if n > 0 {
		first = c.In[0]
	}
	c.Prev = r.Base(first)
	if f.Delta && r.Chance(2) {
		Sum(c.In, c.Prev)
	}
	finishPut(r, c, n, tight)
	return c
}

func finishPut(r *Rng, c *Call, n int, tight bool) {
	r.Place(c, tight)
	c.OutN = 32
	if c.F.Shape != "8" || c.F.Impl == "scalar" {
		_, d := mEncode(c.In[:n], c.F.Delta, c.Prev, nil, nil)
		c.OutN = len(d) // exact
		if r.Chance(3) {
			c.OutN += r.N(20)
		}
	} else if r.Chance(3) {
		c.OutN += 1 + r.N(20)
	}
	if r.Chance(3) { // more values than the block takes
		for k := 1 + r.N(9); k > 0; k-- {
			c.In = append(c.In, r.U32())
		}
	}
}

func getCall(r *Rng, f *Fn, tight bool) *Call {
	c := &Call{F: f}
	n := 8
	switch f.Shape {
	case "4":
		n = 4
	case "upto4":
		c.Count = r.N(5)
		if r.Chance(8) {
			c.Count = r.Over()
		}
		n = min(c.Count, 4)
	}
	c.Ctrl = uint16(r.U32())
	switch r.N(8) {
	case 0:
		c.Ctrl = c.Ctrl & 0x00ff
	case 1:
		c.Ctrl |= 0xff00
	case 2:
		c.Ctrl &= 0xff00
	case 3:
		c.Ctrl |= 0x00ff
	}
	fillGet(r, c, n, tight)
	return c
}

func fillGet(r *Rng, c *Call, n int, tight bool) {
	if c.F.Shape != "8" {
		c.Ctrl &= 0xff
	}
	c.Prev = r.Base(0)
	need := mNeed(n, []byte{byte(c.Ctrl), byte(c.Ctrl >> 8)})
	if c.F.Shape == "8" && c.F.Impl != "scalar" {
		need = 32
	}
	if r.Chance(3) {
		need += r.N(20)
	}
	c.Bytes = make([]byte, need)
	ds := r.N(4)
	for i := range c.Bytes {
		c.Bytes[i] = byte(r.U32())
		if ds == 0 {
			c.Bytes[i] = five[r.N(5)]
		}
		if ds == 1 {
			c.Bytes[i] = byte(0xA0 + i)
		}
	}
	c.OutN = n
	if r.Chance(3) {
		c.OutN += 1 + r.N(9)
	}
	r.Place(c, tight)
}

// truncate shortens a call's data, values or output below what it needs.
func truncCall(r *Rng, f *Fn, i int) *Call {
	var c *Call
	tight := false
	switch f.Kind {
	case "read":
		n := 1 + r.Count(i, allCounts, 11)
		if i%400 == 399 { // long streams
			n = 1<<uint(11+r.N(7)) + r.N(131)
			if r.Chance(2) {
				n = r.Medium()
			}
		}
		c = readCall(r, f, n, tight)
		k := ctrlLen(n)
		if len(c.Bytes) < k {
			return nil
		}
		total := k + mNeed(n, c.Bytes[:k])
		c.Bytes = c.Bytes[:total]
		cut := 1
		switch r.N(5) {
		case 0:
			cut = 1 + r.N(total)
		case 1:
			cut = 1 + r.N(min(total, 20))
		case 2:
			cut = 1 + r.N(min(total, 4))
		case 3:
			cut = min(total, total-k+1+r.N(k)) // into the control bytes
		}
		c.Bytes = c.Bytes[:total-cut]
	case "put":
		c = putCall(r, f, tight)
		n := NWords(c)
		if n == 0 {
			return nil
		}
		_, d := mEncode(c.In[:n], f.Delta, c.Prev, nil, nil)
		c.OutN = 32 + r.N(4)
		if r.Chance(2) {
			c.In = c.In[:r.N(n)]
		} else {
			c.OutN = r.N(len(d))
		}
	case "get":
		c = getCall(r, f, tight)
		n := NWords(c)
		if n == 0 {
			return nil
		}
		need := mNeed(n, []byte{byte(c.Ctrl), byte(c.Ctrl >> 8)})
		c.Bytes = c.Bytes[:need]
		c.OutN = n + r.N(4)
		if r.Chance(2) {
			c.Bytes = c.Bytes[:r.N(need)]
		} else {
			c.OutN = r.N(n)
		}
	}
	c.PlIn, c.PlOut = Mid, Mid
	c.Extra = 0
	if r.Chance(2) { // the missing bytes are there, but behind the slice
		c.Extra = 4 * (1 + r.N(24))
	}
	return c
}

var scratch Outcome

func do(x *Exec, c *Call, sample bool) {
	if c != nil {
		x.Do(c, &scratch, sample)
	}
}

// laneValue is the i-th of a list that puts every boundary-ish value in
// every lane with different neighbours.
func laneValues(r *Rng, i, n int) []uint32 {
	v := make([]uint32, n)
	r.Values(v, r.N(NStyles))
	k := i % (625 + len(boundary))
	var s uint32
	if k < 625 {
		s = fiveWord(k)
	} else {
		s = boundary[k-625]
	}
	v[(i/(625+len(boundary)))%n] = s
	return v
}

// keepFams makes calls whose results are all kept, so that a later result
// cannot be in memory that the collector got back.
func keepFams(fns []*Fn) []Fam {
	return []Fam{{"write/keep", 48 * len(fns), 600 * len(fns), 0, func(x *Exec, r *Rng, i int, s bool) {
		x.KeepLarge(true)
		defer x.KeepLarge(false)
		f := fns[i%len(fns)]
		max := 1 << uint(4+i/len(fns)%13) * (2 + r.N(3)) / 2
		for k := 0; k < 20; k++ {
			if r.Chance(4) {
				f = pick(fns, r)
			}
			do(x, writeCall(r, f, max-r.N(1+max/[3]int{2, 16, 100}[r.N(3)]), false), false)
		}
	}}}
}

// WriteFams are the families of calls of the writers fns.
func WriteFams(fns []*Fn, tight bool) []Fam {
	return []Fam{
		{"write/counts", 30000, 1500000, 50, func(x *Exec, r *Rng, i int, s bool) {
			f := fns[i%len(fns)]
			do(x, writeCall(r, f, r.Count(i/len(fns), allCounts, 12), tight), s)
		}},
		{"write/small", 60000, 3000000, 35, func(x *Exec, r *Rng, i int, s bool) {
			do(x, writeCall(r, pick(fns, r), r.N(40), tight), s)
		}},
		{"write/slots", 4 * len(fns), 64 * len(fns), 0, func(x *Exec, r *Rng, i int, s bool) {
			// every pair of control bytes in every position of the unrolled loops
			f := fns[i%len(fns)]
			do(x, slotWrite(r, f, i/len(fns), tight), false)
		}},
		{"write/long", 160, 2000, 5, func(x *Exec, r *Rng, i int, s bool) {
			do(x, writeCall(r, pick(fns, r), r.Long(), tight), false)
		}},
		{"write/round", 3000, 60000, 0, func(x *Exec, r *Rng, i int, s bool) {
			do(x, writeCall(r, pick(fns, r), r.Medium(), tight), false)
		}},
		{"write/huge", 4 * len(fns), 24 * len(fns), 0, func(x *Exec, r *Rng, i int, s bool) {
			do(x, writeCall(r, fns[i%len(fns)], r.Huge(), tight), false)
		}},
		{"write/values", 2048, 65536 * len(fns), 0, func(x *Exec, r *Rng, i int, s bool) {
			// all chunks together have every value, in lanes that depend on the seed
			f := fns[i%len(fns)]
			c := &Call{F: f, In: make([]uint32, 1<<16), Count: 1 << 16}
			chunk(x.Seed, i/len(fns), c.In)
			c.Prev = r.Base(c.In[0])
			if f.Delta {
				Sum(c.In, c.Prev)
			}
			r.Place(c, tight)
			do(x, c, false)
		}},
		{"write/lanes", 40000, 1000000, 10, func(x *Exec, r *Rng, i int, s bool) {
			f := fns[i%len(fns)]
			n := 33 + r.N(40)
			c := writeCall(r, f, n, tight)
			lv := laneValues(r, i, 8)
			at := r.N(n - 8)
			copy(c.In[at:], lv)
			if f.Delta && r.Chance(2) {
				Sum(c.In, c.Prev)
			}
			do(x, c, s)
		}},
	}
}

func slotWrite(r *Rng, f *Fn, rot int, tight bool) *Call {
	n := 8*65536 + 4*rot + r.N(4)
	c := &Call{F: f, In: make([]uint32, n), Count: n}
	mul := uint32(r.U32() | 1)
	for b := 0; b < n; b += 8 {
		ctrl := uint16(uint32(b/8) * mul)
		for k := 0; k < 8 && b+k < n; k++ {
			c.In[b+k] = r.class(1 + int(ctrl>>uint(2*k)&3))
		}
	}
	c.Prev = r.Base(c.In[0])
	if f.Delta {
		Sum(c.In, c.Prev)
	}
	r.Place(c, tight)
	c.Why = "slots"
	return c
}

func ReadFams(fns []*Fn, tight bool) []Fam {
	return []Fam{
		{"read/counts", 30000, 1500000, 50, func(x *Exec, r *Rng, i int, s bool) {
			f := fns[i%len(fns)]
			do(x, readCall(r, f, r.Count(i/len(fns), allCounts, 12), tight), s)
		}},
		{"read/small", 60000, 3000000, 40, func(x *Exec, r *Rng, i int, s bool) {
			do(x, readCall(r, pick(fns, r), r.N(40), tight), s)
		}},
		{"read/slots", 4 * len(fns), 64 * len(fns), 0, func(x *Exec, r *Rng, i int, s bool) {
			f := fns[i%len(fns)]
			n := 8*65536 + 4*(i/len(fns)) + r.N(4)
			k := ctrlLen(n)
			b := make([]byte, k, k+4*n)
			mul := uint32(r.U32() | 1)
			for g := 0; g < k; g += 2 {
				c := uint32(g/2) * mul
				b[g] = byte(c)
				if g+1 < k {
					b[g+1] = byte(c >> 8)
				}
			}
			for need := mNeed(n, b[:k]); need > 0; need -= 8 {
				v := r.U64()
				for q := 0; q < 8 && q < need; q++ {
					b = append(b, byte(v>>uint(8*q)))
				}
			}
			c := &Call{F: f, Count: n, OutN: n, Bytes: b, Prev: r.Base(0)}
			r.Place(c, tight)
			do(x, c, false)
		}},
		{"read/long", 160, 2000, 5, func(x *Exec, r *Rng, i int, s bool) {
			do(x, readCall(r, pick(fns, r), r.Long(), tight), false)
		}},
		{"read/round", 3000, 60000, 0, func(x *Exec, r *Rng, i int, s bool) {
			do(x, readCall(r, pick(fns, r), r.Medium(), tight), false)
		}},
		{"read/huge", 4 * len(fns), 24 * len(fns), 0, func(x *Exec, r *Rng, i int, s bool) {
			do(x, readCall(r, fns[i%len(fns)], r.Huge(), tight), false)
		}},
		{"read/ends", 40000, 1000000, 5, func(x *Exec, r *Rng, i int, s bool) {
			// streams whose last groups are as short as they can be
			f := fns[i%len(fns)]
			n := (i / len(fns)) % 150
			k := ctrlLen(n)
			b := make([]byte, k)
			z := r.N(8)
			for g := range b {
				if g < k-z {
					b[g] = byte(r.U32())
				}
			}
			if k > 0 && r.Chance(2) {
				b[k-1] |= byte(0xff) << uint(2*((n-1)%4+1)) & 0xff
			}
			for q := mNeed(n, b[:k]); q > 0; q-- {
				b = append(b, byte(r.U32()))
			}
			c := &Call{F: f, Count: n, OutN: n, Bytes: b, Prev: r.Base(0)}
			r.Place(c, tight)
			if tight {
				c.PlIn = Hi
			}
			do(x, c, s)
		}},
	}
}

// chunk is the i-th of 65536 that together hold every value once.
func chunk(seed uint64, i int, v []uint32) {
	mul := uint32(NewRng(seed, "chunk", 0).U32() | 1)
	for k := range v {
		v[k] = (uint32(i)<<16 + uint32(k)) * mul
	}
}

var (
	chunkBuf = make([]uint32, 1<<16)
	cbuf     []byte
	dbuf     []byte
)

// putValues calls a block encoder with all values of a chunk (as differences,
// if it is differential); blocks that look wrong are run as calls.
func putValues(x *Exec, r *Rng, f *Fn, i int, tight bool) {
	n := 8
	if f.Shape != "8" {
		n = 4
	}
	chunk(x.Seed, i, chunkBuf)
	prev := r.Base(0)
	in := x.A.Place(4*n, Hi, 0, 4).Words(0)
	out := x.B.Place(32, Hi, 0, 1).Bytes(0)
	for at := 0; at+n <= len(chunkBuf); at += n {
		copy(in, chunkBuf[at:at+n])
		if f.Delta {
			Sum(in, prev)
		}
		var ctrl uint16
		if x.Careful != nil {
			x.Careful(&Call{F: f, In: append([]uint32(nil), in...), Prev: prev, Count: n, OutN: 32})
		}
		res, _ := protect(func() { ctrl = f.Put(in, out, n, prev) })
		x.Calls++
		x.Words += uint64(n)
		x.NonTrivial++
		cbuf, dbuf = mEncode(in, f.Delta, prev, cbuf[:0], dbuf[:0])
		want := uint16(cbuf[0])
		if n == 8 {
			want |= uint16(cbuf[1]) << 8
		}
		if res != "ok" || ctrl != want || string(out[:len(dbuf)]) != string(dbuf) {
			c := &Call{F: f, In: append([]uint32(nil), in...), Prev: prev, Count: n}
			finishPut(r, c, n, tight)
			if !x.Do(c, &scratch, false) {
				return
			}
		}
		prev = in[n-1]
	}
}

func PutFams(fns []*Fn, tight bool) []Fam {
	return []Fam{
		{"put/mixed", 160000, 12000000, 60, func(x *Exec, r *Rng, i int, s bool) {
			do(x, putCall(r, fns[i%len(fns)], tight), s)
		}},
		{"put/ctrl", 65536 * 2, 65536 * 64, 20, func(x *Exec, r *Rng, i int, s bool) {
			// every control value
			f := pick(fns, r)
			c := putCall(r, f, tight)
			n := NWords(c)
			c.In = c.In[:n]
			for k := 0; k < n; k++ {
				c.In[k] = r.class(1 + i>>uint(2*k)&3)
			}
			if f.Delta {
				Sum(c.In, c.Prev)
			}
			finishPut(r, c, n, tight)
			do(x, c, s)
		}},
		{"put/values", 8192, 65536 * len(fns), 0, func(x *Exec, r *Rng, i int, s bool) {
			putValues(x, r, fns[i%len(fns)], i/len(fns), tight)
		}},
		{"put/lanes", 8 * 700 * 4 * 2, 8 * 700 * 200, 20, func(x *Exec, r *Rng, i int, s bool) {
			f := pick(fns, r)
			c := putCall(r, f, tight)
			n := NWords(c)
			if n > 0 {
				c.In = laneValues(r, i, n)
				if f.Delta && r.Chance(2) {
					Sum(c.In, c.Prev)
				}
			}
			finishPut(r, c, n, tight)
			do(x, c, s)
		}},
	}
}

func GetFams(fns []*Fn, tight bool) []Fam {
	return []Fam{
		{"get/mixed", 160000, 12000000, 60, func(x *Exec, r *Rng, i int, s bool) {
			do(x, getCall(r, fns[i%len(fns)], tight), s)
		}},
		{"get/ctrl", 65536 * 4, 65536 * 64 * 4, 40, func(x *Exec, r *Rng, i int, s bool) {
			// every control value, position-stamped data
			f := fns[(i>>16)%len(fns)]
			c := getCall(r, f, tight)
			c.Ctrl = uint16(i)
			fillGet(r, c, NWords(c), tight)
			do(x, c, s)
		}},
	}
}

func TruncFams(fns []*Fn) []Fam {
	return []Fam{
		{"trunc/mixed", 120000, 6000000, 70, func(x *Exec, r *Rng, i int, s bool) {
			f := fns[i%len(fns)]
			do(x, truncCall(r, f, i/len(fns)), s)
		}},
		{"trunc/every", 60000, 1000000, 30, func(x *Exec, r *Rng, i int, s bool) {
			// one stream per count, cut at every position
			var rf []*Fn
			for _, f := range fns {
				if f.Kind == "read" {
					rf = append(rf, f)
				}
			}
			if len(rf) == 0 {
				return
			}
			f := rf[i%len(rf)]
			j := i / len(rf)
			n := 1 + j%80
			r2 := NewRng(x.Seed, "trunc/every/s", n+1000*(j/(80*97)))
			b := r2.Stream(n, f.Delta, 0)
			c := &Call{F: f, Count: n, OutN: n, Prev: r2.Base(0)}
			c.Bytes = b[:(j/80)%len(b)]
			r.Place(c, false)
			if r.Chance(2) {
				c.Extra = 4 * (1 + r.N(24))
			}
			do(x, c, s)
		}},
	}
}

func composed(fams []Fam) []Fam {
	for k := range fams {
		run := fams[k].Run
		fams[k].Name = "composed/" + fams[k].Name
		fams[k].Run = func(x *Exec, r *Rng, i int, s bool) {
			Plan = r.U64()
			run(x, r, i, s)
		}
	}
	return fams
}

func filter(fns []*Fn, keep func(*Fn) bool) (out []*Fn) {
	for _, f := range fns {
		if keep(f) {
			out = append(out, f)
		}
	}
	return
}

func scale(fams []Fam, num, den int) []Fam {
	for k := range fams {
		if fams[k].Quick > 1000 {
			fams[k].Quick = fams[k].Quick * num / den
		}
		fams[k].Thorough = fams[k].Thorough * num / den
	}
	return fams
}

// Profile returns the families and the aspect of a property's codec run.
func Profile(prop string) (fams []Fam, aspect string) {
	aspect = "value"
	var add = func(f ...[]Fam) {
		for _, g := range f {
			fams = append(fams, g...)
		}
	}
	switch prop {
	case "C01":
		add(WriteFams(fnsOf("write", 0, ""), false))
	case "C03":
		add(ReadFams(fnsOf("read", 0, ""), false))
	case "C04":
		add(WriteFams(fnsOf("write", 1, ""), false), ReadFams(fnsOf("read", 1, ""), false))
	case "C06":
		aspect = "memory"
		add(ReadFams(fnsOf("read", -1, ""), true))
	case "C07":
		aspect = "memory"
		add(WriteFams(fnsOf("write", -1, ""), true), keepFams(fnsOf("write", -1, "")))
	case "C08":
		add(PutFams(fnsOf("put", -1, ""), false))
	case "C09":
		add(GetFams(fnsOf("get", -1, ""), false))
	case "C10":
		aspect = "memory"
		add(PutFams(fnsOf("put", -1, ""), true), GetFams(fnsOf("get", -1, ""), true))
	case "C13":
		aspect = "all"
		add(WriteFams(fnsOf("write", -1, ""), true), ReadFams(fnsOf("read", -1, ""), true),
			PutFams(fnsOf("put", -1, ""), true), GetFams(fnsOf("get", -1, ""), true))
		scale(fams, 1, 2)
	case "C14K": // kernels regenerated by the repository's generators
		is8 := func(f *Fn) bool { return f.Shape == "8" && f.Impl == "fast" }
		aspect = "all"
		add(PutFams(filter(fnsOf("put", -1, ""), is8), true), GetFams(filter(fnsOf("get", -1, ""), is8), true))
		scale(fams, 1, 2)
	case "C15":
		// the compositions, and the stream functions they have to equal
		w := append(filter(Composites, func(f *Fn) bool { return f.Kind == "write" }), fnsOf("write", -1, "")...)
		rd := append(filter(Composites, func(f *Fn) bool { return f.Kind == "read" }), fnsOf("read", -1, "")...)
		add(composed(WriteFams(w, false)), composed(ReadFams(rd, false)))
		scale(fams, 1, 1)
	case "C16":
		aspect = "refuse"
		fns := append(fnsOf("read", -1, ""), filter(append(fnsOf("put", -1, ""), fnsOf("get", -1, "")...), func(f *Fn) bool { return f.Shape != "8" || f.Impl == "scalar" })...)
		add(TruncFams(fns))
	}
	return
}
