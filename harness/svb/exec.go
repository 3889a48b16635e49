package svb

import (
	"bytes"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Call is one call of a function under test with everything that determines it.
type Call struct {
	F     *Fn
	Count int
	Prev  uint32
	In    []uint32 // write, put
	Bytes []byte   // read, get
	Ctrl  uint16   // get
	OutN  int      // length of the output slice: bytes (put) or words (read, get)
	Extra int      // extra capacity behind input and output slices (bytes, multiple of 4)
	PlIn  int      // placement of input and output
	PlOut int
	Skew  int
	RO    bool // input in read-only memory
	Pat   byte // fill pattern of memory that is not input
	Why   string
}

// Chg is a changed memory location.
type Chg struct {
	Region string
	Off    int
}

// Outcome is what was observed.
type Outcome struct {
	Res   string // ok, panic, fault
	Msg   string
	Ctrl  uint16 // put
	Ret   int    // get
	Bytes []byte // write: result; put: output slice
	Words []uint32
	Chg   []Chg
	Unw   []int // words of the result the call did not write
}

// Exec runs calls on guarded memory.  Not for concurrent use.
type Exec struct {
	A, B *Arena
	size int

	Rec *Recorder

	chg    []int
	wbuf   []uint32
	mwords []uint32
	mctrl  []byte
	mdata  []byte
	before []byte
	Calls  uint64
	Guard  *GuardAlloc

	// journal
	Careful func(c *Call)
	// shard of the parallel run and seed
	Seed   uint64
	Cand   int
	Faults int

	Aspect string // value, memory, refuse or all
	mused  int
	unwa   []bool

	NonTrivial uint64
	Words      uint64

	kept  [32][]byte // results, with their capacity
	nkept int
	large [][]byte // large ones, while KeepLarge
	keep  bool
}

func NewExec(size int) *Exec {
	debug.SetPanicOnFault(true)
	x := &Exec{size: size}
	x.A, x.B = NewArena(size), NewArena(size)
	x.Guard = newGuardAlloc(size)
	return x
}

// Grow makes sure the arenas can hold n bytes.
func (x *Exec) Grow(n int) {
	n += 8 * slack
	if n <= x.size {
		return
	}
	x.A.Free()
	x.B.Free()
	x.size = n
	x.A, x.B = NewArena(n), NewArena(n)
}

type addrErr interface{ Addr() uintptr }

// protect runs f and classifies how it ended.
func protect(f func()) (res, msg string) {
	res = "ok"
	defer func() {
		if r := recover(); r != nil {
			res, msg = "panic", ""
			if e, ok := r.(error); ok {
				msg = e.Error()
				if re, ok := r.(runtime.Error); ok {
					if _, ok := re.(addrErr); ok {
						res = "fault"
					}
				}
			} else if s, ok := r.(string); ok {
				msg = s
			}
		}
	}()
	f()
	return
}

func asBytes(w []uint32) []byte {
	if len(w) == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(&w[0])), 4*len(w))
}

func (x *Exec) around(name string, r Region, pat byte, o *Outcome) {
	x.chg = r.AroundChanged(pat, x.chg[:0])
	for _, d := range x.chg {
		if len(o.Chg) < 64 {
			o.Chg = append(o.Chg, Chg{name, d})
		}
	}
}

// diffIn records changes to an input region against its original content.
func diffIn(got, want []byte, o *Outcome) {
	if bytes.Equal(got, want) {
		return
	}
	for i := range got {
		if got[i] != want[i] && len(o.Chg) < 64 {
			o.Chg = append(o.Chg, Chg{"in", i})
		}
	}
}

// Run makes the call.
func (x *Exec) Run(c *Call, o *Outcome) {
	*o = Outcome{Chg: o.Chg[:0], Words: o.Words[:0], Bytes: o.Bytes[:0], Unw: o.Unw[:0], Ret: -1}
	if x.Careful != nil {
		x.Careful(c)
	}
	x.Calls++
	pat := c.Pat
	switch c.F.Kind {
	case "write":
		x.Grow(4*len(c.In) + c.Extra)
		in := x.A.Place(4*len(c.In), c.PlIn, c.Skew, 4)
		in.FillAround(pat)
		w := in.Words(x.extra(in, c.Extra) / 4)
		copy(w, c.In)
		var res []byte
		if c.RO {
			x.A.ReadOnly(true)
		}
		x.Guard.arm()
		o.Res, o.Msg = protect(func() { res = c.F.Write(w, c.Prev) })
		x.Guard.disarm(o)
		if c.RO {
			x.A.ReadOnly(false)
		}
		if o.Res == "ok" {
			o.Bytes = append(o.Bytes, res...)
			x.fresh(res, in, o)
		}
		diffIn(asBytes(w), asBytes(c.In), o)
		x.around("around", in, pat, o)
	case "read":
		x.Grow(max(len(c.Bytes), 4*c.OutN) + c.Extra)
		in := x.A.Place(len(c.Bytes), c.PlIn, c.Skew, 1)
		in.FillAround(pat)
		s := in.Bytes(x.extra(in, c.Extra))
		copy(s, c.Bytes)
		out := x.B.Place(4*c.OutN, c.PlOut, c.Skew, 4)
		out.Fill(pat)
		w := out.Words(x.extra(out, c.Extra) / 4)
		if c.RO {
			x.A.ReadOnly(true)
		}
		o.Res, o.Msg = protect(func() { c.F.Read(c.Count, s, w, c.Prev) })
		if c.RO {
			x.A.ReadOnly(false)
		}
		diffIn(s, c.Bytes, o)
		x.around("around", in, pat, o)
		x.around("around", out, pat, o)
		x.wordsOut(w, c.Count, pat, o)
	case "put":
		in := x.A.Place(4*len(c.In), c.PlIn, c.Skew, 4)
		in.FillAround(pat)
		w := in.Words(x.extra(in, c.Extra) / 4)
		copy(w, c.In)
		out := x.B.Place(c.OutN, c.PlOut, c.Skew, 1)
		out.Fill(pat)
		b := out.Bytes(x.extra(out, c.Extra))
		if c.RO {
			x.A.ReadOnly(true)
		}
		o.Res, o.Msg = protect(func() { o.Ctrl = c.F.Put(w, b, c.Count, c.Prev) })
		if c.RO {
			x.A.ReadOnly(false)
		}
		diffIn(asBytes(w), asBytes(c.In), o)
		x.around("around", in, pat, o)
		x.around("around", out, pat, o)
		o.Bytes = append(o.Bytes, b...)
		for i, v := range b {
			if v != pat {
				o.Chg = append(o.Chg, Chg{"out", i})
			}
		}
	case "get":
		in := x.A.Place(len(c.Bytes), c.PlIn, c.Skew, 1)
		in.FillAround(pat)
		s := in.Bytes(x.extra(in, c.Extra))
		copy(s, c.Bytes)
		out := x.B.Place(4*c.OutN, c.PlOut, c.Skew, 4)
		out.Fill(pat)
		w := out.Words(x.extra(out, c.Extra) / 4)
		if c.RO {
			x.A.ReadOnly(true)
		}
		o.Res, o.Msg = protect(func() { o.Ret = c.F.Get(s, w, c.Ctrl, c.Count, c.Prev) })
		if c.RO {
			x.A.ReadOnly(false)
		}
		diffIn(s, c.Bytes, o)
		x.around("around", in, pat, o)
		x.around("around", out, pat, o)
		x.wordsOut(w, NWords(c), pat, o)
	}
}

// extra limits extra capacity to what the arena has behind the region, and the
// inaccessible page behind it.
func (x *Exec) extra(r Region, want int) int {
	if have := len(r.a.mem) - r.off - r.n + page; have < want {
		want = have
	}
	return want &^ 3
}

// wordsOut takes the first n words as the result and reports changes behind.
func (x *Exec) wordsOut(w []uint32, n int, pat byte, o *Outcome) {
	m := n
	if m > len(w) {
		m = len(w)
	}
	if m < 0 {
		m = 0
	}
	o.Words = append(o.Words, w[:m]...)
	b := asBytes(w)
	for i := 4 * m; i < len(b); i++ {
		if b[i] != pat && len(o.Chg) < 64 {
			o.Chg = append(o.Chg, Chg{"out", i})
		}
	}
}

// KeepLarge keeps all results from now on, of any size, or lets go of them.
func (x *Exec) KeepLarge(on bool) {
	x.keep, x.large = on, nil
	x.Guard.Set(!on && (x.Aspect == "memory" || x.Aspect == "all"))
}

// fresh checks that a writer's result overlaps neither its input nor an
// earlier result (recent ones are kept, so their memory cannot be reused).
func (x *Exec) fresh(res []byte, in Region, o *Outcome) {
	if cap(res) == 0 {
		return
	}
	res = res[:cap(res)]
	for i, old := range x.kept {
		if len(old) == 0 || x.Guard.own() {
			continue
		}
		p, q := uintptr(unsafe.Pointer(&res[0])), uintptr(unsafe.Pointer(&old[0]))
		if p < q+uintptr(len(old)) && q < p+uintptr(len(res)) {
			o.Chg = append(o.Chg, Chg{"alias", int(q - p)})
			x.kept[i] = nil
		}
	}
	for i, old := range x.large {
		p, q := uintptr(unsafe.Pointer(&res[0])), uintptr(unsafe.Pointer(&old[0]))
		if p < q+uintptr(len(old)) && q < p+uintptr(len(res)) {
			o.Chg = append(o.Chg, Chg{"alias", int(q - p)})
			x.large = append(x.large[:i:i], x.large[i+1:]...)
			break
		}
	}
	if x.keep && !x.Guard.own() {
		x.large = append(x.large, res)
	}
	if len(res) < 4096 && !x.Guard.own() {
		x.kept[x.nkept%len(x.kept)] = res
		x.nkept++
	}
	p := uintptr(unsafe.Pointer(unsafe.SliceData(res)))
	lo := in.a.base
	hi := lo + uintptr(len(in.a.mem))
	if p+uintptr(cap(res)) > lo && p < hi {
		o.Chg = append(o.Chg, Chg{"alias", int(p - lo)})
	}
}

// NWords is the number of words a call denotes.
func NWords(c *Call) int {
	switch c.F.Shape {
	case "8":
		return 8
	case "4":
		return 4
	case "upto4":
		if c.Count > 4 {
			return 4
		}
		return c.Count
	}
	if c.F.Kind == "write" {
		return len(c.In)
	}
	return c.Count
}

// Suspicious screens an executed call with the mirror.
func (x *Exec) Suspicious(c *Call, o *Outcome) bool {
	n := NWords(c)
	suff, used := x.predict(c, n)
	if !suff {
		if o.Res != "panic" {
			return true
		}
		for _, h := range o.Chg {
			if h.Region != "out" || c.F.Kind == "write" {
				return true
			}
		}
		return x.Aspect != "refuse" && x.Aspect != "all"
	}
	if x.Aspect == "refuse" || o.Res != "ok" {
		return true
	}
	if x.Aspect != "value" {
		lim := used
		if c.F.Kind == "put" && c.F.Shape == "8" && c.F.Impl != "scalar" {
			lim = 32
		}
		for _, h := range o.Chg {
			if h.Region != "out" || c.F.Kind == "write" || h.Off >= lim {
				return true
			}
		}
		if len(o.Unw) > 0 {
			return true
		}
	}
	if x.Aspect == "memory" {
		return false
	}
	switch c.F.Kind {
	case "write":
		k := len(x.mctrl)
		return len(o.Bytes) != k+len(x.mdata) || !bytes.Equal(o.Bytes[:k], x.mctrl) || !bytes.Equal(o.Bytes[k:], x.mdata)
	case "put":
		var want uint16
		for i, b := range x.mctrl {
			want |= uint16(b) << uint(8*i)
		}
		return o.Ctrl != want || !bytes.Equal(o.Bytes[:len(x.mdata)], x.mdata)
	}
	if len(o.Words) != len(x.mwords) {
		return true
	}
	for i, v := range x.mwords {
		if o.Words[i] != v {
			return true
		}
	}
	return c.F.Kind == "get" && c.F.Shape == "upto4" && o.Ret != x.mused
}

// predict evaluates the mirror on a call: whether there is enough room and
// data for a result, and how many output bytes the call may write.
func (x *Exec) predict(c *Call, n int) (suff bool, used int) {
	switch c.F.Kind {
	case "write":
		x.mctrl, x.mdata = mEncode(c.In, c.F.Delta, c.Prev, x.mctrl[:0], x.mdata[:0])
		return true, 0
	case "put":
		if len(c.In) < n {
			return false, 0
		}
		x.mctrl, x.mdata = mEncode(c.In[:n], c.F.Delta, c.Prev, x.mctrl[:0], x.mdata[:0])
		if n == 0 {
			x.mctrl = append(x.mctrl, 0)
		}
		return len(x.mdata) <= c.OutN, len(x.mdata)
	}
	ctrl, data := c.Bytes, c.Bytes
	if c.F.Kind == "read" {
		if len(c.Bytes) < ctrlLen(n) {
			return false, 0
		}
		ctrl, data = c.Bytes[:ctrlLen(n)], c.Bytes[ctrlLen(n):]
	} else {
		if c.OutN < n {
			return false, 0
		}
		ctrl = []byte{byte(c.Ctrl), byte(c.Ctrl >> 8)}
	}
	if x.Aspect == "memory" || x.Aspect == "refuse" {
		x.mused = mNeed(n, ctrl)
		return x.mused <= len(data), 4 * n
	}
	var ok bool
	x.mwords, x.mused, ok = mDecode(n, ctrl, data, c.F.Delta, c.Prev, x.mwords)
	return ok, 4 * n
}

// Unwritten finds result words a call leaves alone, by running it a second
// time on different memory when a word is what the memory held before.
func (x *Exec) Unwritten(c *Call, o *Outcome) {
	if o.Res != "ok" || (c.F.Kind != "read" && c.F.Kind != "get") {
		return
	}
	pw := uint32(c.Pat) * 0x01010101
	var at []int
	for i, v := range o.Words {
		if v == pw {
			at = append(at, i)
		}
	}
	if at == nil {
		return
	}
	c2, o2 := *c, &Outcome{}
	c2.Pat ^= 0x5a
	x.Run(&c2, o2)
	for _, i := range at {
		if i < len(o2.Words) && o2.Words[i] == uint32(c2.Pat)*0x01010101 {
			if o.Unw = append(o.Unw, i); len(o.Unw) == 16 {
				return
			}
		}
	}
}

// Do runs a call, screens it, and records it if it is suspicious or sampled.
func (x *Exec) Do(c *Call, o *Outcome, sample bool) bool {
	x.Run(c, o)
	if x.Aspect == "memory" {
		x.Unwritten(c, o)
	}
	n := NWords(c)
	x.Words += uint64(n)
	if n > 0 {
		x.NonTrivial++
	}
	if x.Suspicious(c, o) {
		x.Cand++
		x.Rec.Candidate(x, c, o)
		return false
	}
	if sample {
		x.Rec.Sample(c, o)
	}
	return true
}
