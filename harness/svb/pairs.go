package svb

import (
	"strconv"
)

// Pair observations: two results that a property says are equal.

// Pair is one observation.
type Pair struct {
	What        string // roundtrip, agree
	Left, Right string // what produced them
	LRes, RRes  string
	L, R        []byte // byte images of the results
	Off         int    // offset of L and R in the whole results when cut
	LLen, RLen  int
	Rep         string
}

func (r *Recorder) pair(p *Pair, cand bool) {
	b := r.buf[:0]
	q := func(k, v string) {
		b = append(b, '"')
		b = append(b, k...)
		b = append(b, `":`...)
		b = strconv.AppendQuote(b, v)
		b = append(b, ',')
	}
	b = append(b, '{')
	q("what", p.What)
	q("left", p.Left)
	q("right", p.Right)
	q("lres", p.LRes)
	q("rres", p.RRes)
	q("rep", p.Rep)
	b = append(b, `"l":`...)
	b = appInts(b, p.L)
	b = append(b, `,"r":`...)
	b = appInts(b, p.R)
	b = append(b, `,"off":`...)
	b = strconv.AppendInt(b, int64(p.Off), 10)
	b = append(b, `,"llen":`...)
	b = strconv.AppendInt(b, int64(p.LLen), 10)
	b = append(b, `,"rlen":`...)
	b = strconv.AppendInt(b, int64(p.RLen), 10)
	b = append(b, '}', '\n')
	r.buf = b
	if cand {
		r.cw.Write(b)
		r.cw.Flush()
	} else {
		r.sw.Write(b)
	}
}

// Compare screens two results and records them when different or sampled.
func (x *Exec) Compare(what, left, right, lres, rres string, l, rr []byte, rep func() string, sample bool) {
	n := min(len(l), len(rr))
	at := -1
	if len(l) != len(rr) {
		at = n
	}
	for i := 0; i < n; i++ {
		if l[i] != rr[i] {
			at = i
			break
		}
	}
	diff := at >= 0 || lres != "ok" || rres != "ok"
	if !diff && !sample {
		return
	}
	if !diff && len(l) > 1600 {
		return
	}
	p := &Pair{What: what, Left: left, Right: right, LRes: lres, RRes: rres, LLen: len(l), RLen: len(rr)}
	p.L, p.R = l, rr
	if diff {
		x.Cand++
		x.Rec.Cands++
		if x.Rec.Cands > x.Rec.MaxCands {
			return
		}
		p.Rep = rep()
		if at < 0 {
			at = 0
		}
		lo := max(0, at-16)
		cut := func(b []byte) []byte {
			if lo >= len(b) {
				return nil
			}
			return b[lo:min(len(b), at+64)]
		}
		p.Off, p.L, p.R = lo, cut(l), cut(rr)
		x.Rec.pair(p, true)
		return
	}
	g := len(l)/8 + 1
	if g > x.Rec.Budget {
		return
	}
	x.Rec.Budget -= g
	x.Rec.Samples++
	x.Rec.SampleGroups += g
	x.Rec.pair(p, false)
}

// le is the little-endian byte image of words.
func le(dst []byte, w []uint32) []byte {
	for _, v := range w {
		dst = append(dst, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return dst
}

// TripFams are the write-then-read families of C02.
func TripFams() []Fam {
	var lb, rb []byte
	trip := func(x *Exec, r *Rng, n, pairIdx int, s bool) {
		delta := pairIdx%2 == 1
		ws, rs := Select("write", []string{"stream"}, delta), Select("read", []string{"stream"}, delta)
		w, rd := ws[(pairIdx/2)%len(ws)], rs[(pairIdx/2/len(ws))%len(rs)]
		c := writeCall(r, w, n, false)
		x.Run(c, &scratch)
		x.Words += uint64(n)
		if n > 0 {
			x.NonTrivial++
		}
		lres := scratch.Res
		rep := func() string { return replayText(c) }
		if lres != "ok" {
			x.Compare("roundtrip", w.Name, rd.Name, lres, "ok", nil, nil, rep, s)
			return
		}
		c2 := &Call{F: rd, Count: n, OutN: n, Prev: c.Prev, Bytes: append([]byte(nil), scratch.Bytes...)}
		r.Place(c2, false)
		x.Run(c2, &scratch)
		lb, rb = le(lb[:0], c.In), le(rb[:0], scratch.Words)
		x.Compare("roundtrip", w.Name, rd.Name, lres, scratch.Res, lb, rb, rep, s)
	}
	return []Fam{
		{"trip/counts", 40000, 1500000, 50, func(x *Exec, r *Rng, i int, s bool) {
			trip(x, r, r.Count(i/18, allCounts, 12), i, s)
		}},
		{"trip/small", 60000, 3000000, 50, func(x *Exec, r *Rng, i int, s bool) {
			trip(x, r, r.N(40), i, s)
		}},
		{"trip/long", 100, 3000, 0, func(x *Exec, r *Rng, i int, s bool) {
			trip(x, r, 1<<uint(11+r.N(7))+r.N(67), i, s)
		}},
		{"trip/round", 4000, 80000, 0, func(x *Exec, r *Rng, i int, s bool) {
			trip(x, r, r.Medium(), i, false)
		}},
		{"trip/huge", 18, 180, 0, func(x *Exec, r *Rng, i int, s bool) {
			trip(x, r, r.Huge(), i, false)
		}},
		{"trip/slots", 9, 90, 0, func(x *Exec, r *Rng, i int, s bool) {
			for _, d := range []int{0, 1} {
				delta := d == 1
				ws, rs := Select("write", []string{"stream"}, delta), Select("read", []string{"stream"}, delta)
				w, rd := ws[i%len(ws)], rs[(i/len(ws))%len(rs)]
				c := slotWrite(r, w, i/9, false)
				rep := func() string { return "slots " + w.Name }
				x.Run(c, &scratch)
				lres := scratch.Res
				c2 := &Call{F: rd, Count: c.Count, OutN: c.Count, Prev: c.Prev, Bytes: append([]byte(nil), scratch.Bytes...)}
				r.Place(c2, false)
				if lres == "ok" {
					x.Run(c2, &scratch)
				}
				lb, rb = le(lb[:0], c.In), le(rb[:0], scratch.Words)
				x.Words += uint64(c.Count)
				x.NonTrivial++
				x.Compare("roundtrip", w.Name, rd.Name, lres, scratch.Res, lb, rb, rep, false)
			}
		}},
	}
}

// image is what C05 compares of a call's outcome.
func image(dst []byte, c *Call, o *Outcome) []byte {
	switch c.F.Kind {
	case "write":
		return append(dst, o.Bytes...)
	case "put":
		used := mNeed(8, []byte{byte(o.Ctrl), byte(o.Ctrl >> 8)})
		dst = append(dst, byte(o.Ctrl), byte(o.Ctrl>>8))
		return append(dst, o.Bytes[:min(used, len(o.Bytes))]...)
	}
	dst = le(dst, o.Words)
	for _, h := range o.Chg { // elements beyond those the call denotes
		if h.Region == "out" {
			dst = append(dst, byte(h.Off), byte(h.Off>>8))
		}
	}
	return dst
}

// AgreeFams compare the general function with the scalar and the accelerated
// one on the same arguments (C05).
func AgreeFams() []Fam {
	find := func(kind, shape, impl string, delta bool) *Fn {
		for _, f := range Fns {
			if f.Kind == kind && f.Shape == shape && f.Impl == impl && f.Delta == delta {
				return f
			}
		}
		return nil
	}
	var lb, rb []byte
	var o1 Outcome
	agree := func(x *Exec, r *Rng, kind, shape string, n int, delta, s bool) {
		g := find(kind, shape, "auto", delta)
		var c *Call
		switch kind {
		case "write":
			c = writeCall(r, g, n, false)
		case "read":
			c = readCall(r, g, n, false)
		case "put":
			c = putCall(r, g, false)
		case "get":
			c = getCall(r, g, false)
		}
		x.Run(c, &o1)
		lb = image(lb[:0], c, &o1)
		x.Words += uint64(NWords(c))
		if NWords(c) > 0 {
			x.NonTrivial++
		}
		for _, impl := range []string{"scalar", "fast"} {
			f := find(kind, shape, impl, delta)
			if f == nil {
				continue
			}
			c2 := *c
			c2.F = f
			x.Run(&c2, &scratch)
			rb = image(rb[:0], &c2, &scratch)
			x.Compare("agree", g.Name, f.Name, o1.Res, scratch.Res, lb, rb, func() string { return replayText(c) }, s)
		}
	}
	kinds := [4][2]string{{"write", "stream"}, {"read", "stream"}, {"put", "8"}, {"get", "8"}}
	return []Fam{
		{"agree/counts", 20000, 800000, 30, func(x *Exec, r *Rng, i int, s bool) {
			agree(x, r, kinds[i%2][0], "stream", r.Count(i/4, allCounts, 12), i/2%2 == 1, s)
		}},
		{"agree/mixed", 60000, 3000000, 40, func(x *Exec, r *Rng, i int, s bool) {
			agree(x, r, kinds[i%4][0], kinds[i%4][1], r.N(40), i/4%2 == 1, s)
		}},
		{"agree/blocks", 80000, 4000000, 30, func(x *Exec, r *Rng, i int, s bool) {
			agree(x, r, kinds[2+i%2][0], "8", 8, i/2%2 == 1, s)
		}},
		{"agree/long", 60, 2000, 0, func(x *Exec, r *Rng, i int, s bool) {
			agree(x, r, kinds[i%2][0], "stream", 1<<uint(11+r.N(7))+r.N(67), i/2%2 == 1, false)
		}},
		{"agree/round", 3000, 60000, 0, func(x *Exec, r *Rng, i int, s bool) {
			agree(x, r, kinds[i%2][0], "stream", r.Medium(), i/2%2 == 1, false)
		}},
		{"agree/huge", 12, 120, 0, func(x *Exec, r *Rng, i int, s bool) {
			agree(x, r, kinds[i%2][0], "stream", r.Huge(), i/2%2 == 1, false)
		}},
	}
}

func replayText(c *Call) string {
	b := []byte(c.F.Name + " count=" + strconv.Itoa(c.Count) + " prev=" + strconv.FormatUint(uint64(c.Prev), 10) + " ctrl=" + strconv.Itoa(int(c.Ctrl)))
	b = append(b, " in="...)
	for i, v := range c.In {
		if i == 4096 {
			b = append(b, "..."...)
			break
		}
		b = strconv.AppendUint(append(b, ' '), uint64(v), 10)
	}
	b = append(b, " bytes="...)
	for i, v := range c.Bytes {
		if i == 16384 {
			b = append(b, "..."...)
			break
		}
		b = strconv.AppendUint(append(b, ' '), uint64(v), 10)
	}
	return string(b)
}
