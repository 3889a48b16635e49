package svb

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
)

// PlanOp is one step of a history (see spec/SvbHistories.tla).
type PlanOp struct {
	Op    string `json:"op"`
	C     int    `json:"c"`
	B     int    `json:"b"`
	Off   int    `json:"off"`
	N     int    `json:"n"`
	Style int    `json:"style"`
	Delta bool   `json:"delta"`
	Impl  int    `json:"impl"`
	Base  int    `json:"base"`
	S     int    `json:"s"`
	More  int    `json:"more"`
	O     int    `json:"o"`
	Ctrl  uint16 `json:"ctrl"`
}

type object struct {
	id     int
	words  []uint32 // a word slice, or
	bytes  []byte   // a byte slice
	shadow []byte
	n      int // words of a stream
	delta  bool
	prev   uint32
}

func (o *object) image() []byte {
	if o.words != nil {
		return asBytes(o.words)
	}
	return o.bytes
}

type openCall struct {
	c       int
	f       *Fn
	src     *object
	dst     *object
	soff    int
	slen    int
	doff    int
	dlen    int
	count   int
	prev    uint32
	ctrl    uint16
	ret     int
	res     string
	result  []byte
	input   []byte // as it was at the beginning
	before  []byte
	done    chan struct{}
	isWrite bool
}

// Session carries out a history on the real code and records it.
type Session struct {
	r       *Rng
	nbuf    int
	objs    map[int]*object
	nextID  int
	streams []*object
	open    map[int]*openCall
	ev      []byte // recorded events
	record  bool
	Suspect bool
	Calls   uint64
	Words   uint64
	Events  int
	mc, md  []byte
	mw      []uint32
	pool    *workers
	fresh   int
}

type workers struct{ ch chan func() }

func newWorkers(n int) *workers {
	w := &workers{make(chan func())}
	for i := 0; i < n; i++ {
		go func() {
			for f := range w.ch {
				f()
			}
		}()
	}
	return w
}

var sharedWorkers = sync.OnceValue(func() *workers { return newWorkers(4) })

func (s *Session) log(f string, args ...interface{}) {
	if s.record {
		s.ev = append(s.ev, fmt.Sprintf(f, args...)...)
		s.ev = append(s.ev, '\n')
	}
	s.Events++
}

func ints(b []byte) string { return string(appInts(nil, b)) }

// NewSession starts a history with nbuf word slices and a byte slice.
func NewSession(r *Rng, nbuf, bufWords, byteLen int, record bool) *Session {
	s := &Session{r: r, nbuf: nbuf, objs: map[int]*object{}, open: map[int]*openCall{}, record: record, pool: sharedWorkers()}
	s.log(`{"op":"start"}`)
	for i := 1; i <= nbuf; i++ {
		w := make([]uint32, bufWords)
		r.Values(w, r.N(NStyles))
		s.add(&object{id: i, words: w})
	}
	b := make([]byte, byteLen)
	for i := range b {
		b[i] = byte(r.U32())
	}
	s.add(&object{id: nbuf + 1, bytes: b})
	s.nextID = nbuf + 2
	return s
}

func (s *Session) add(o *object) {
	o.shadow = append([]byte(nil), o.image()...)
	s.objs[o.id] = o
	if s.record {
		s.log(`{"op":"new","id":%d,"data":%s}`, o.id, ints(o.shadow))
	}
}

var implNames = []string{"scalar", "fast", "auto"}

func findFn(kind, shape string, impl int, delta bool) *Fn {
	for k := 0; k < 3; k++ {
		for _, f := range Fns {
			if f.Kind == kind && f.Shape == shape && f.Delta == delta && f.Impl == implNames[(impl+k)%3] {
				return f
			}
		}
	}
	panic("driver: no function " + kind + shape)
}

func shapeOf(n int, impl int) string {
	switch {
	case n == 8:
		return "8"
	case n == 4 && impl != 0:
		return "4"
	}
	return "upto4"
}

func (s *Session) base(k int, first uint32) uint32 {
	switch k {
	case 0:
		return 0
	case 1:
		return first
	case 2:
		return 0xffffffff
	}
	return s.r.U32()
}

// Do carries out one step.
func (s *Session) Do(p *PlanOp) {
	switch p.Op {
	case "poke":
		o := s.objs[p.B]
		if p.Style >= NStyles {
			rearrange(s.r, o.words[p.Off:p.Off+p.N], p.Style-NStyles)
		} else {
			s.r.Values(o.words[p.Off:p.Off+p.N], p.Style)
		}
		s.changed(o, 4*p.Off, 4*p.N)
	case "pokebytes":
		o := s.objs[s.nbuf+1]
		for i := p.Off; i < p.Off+p.N; i++ {
			o.bytes[i] = byte(s.r.U32()) >> uint(p.Style%8)
		}
		s.changed(o, p.Off, p.N)
	case "write":
		o := s.objs[p.B]
		in := o.words[p.Off : p.Off+p.N]
		var first uint32
		if p.N > 0 {
			first = in[0]
		}
		k := &openCall{c: p.C, f: findFn("write", "stream", p.Impl, p.Delta), src: o, soff: 4 * p.Off, slen: 4 * p.N,
			count: p.N, prev: s.base(p.Base, first), ret: -1, isWrite: true}
		s.begin(k, func() { k.result = k.f.Write(in, k.prev) })
	case "read":
		o, d := s.streams[p.S-1], s.objs[p.B]
		out := d.words[p.Off : p.Off+p.N+p.More]
		k := &openCall{c: p.C, f: findFn("read", "stream", p.Impl, p.Delta), src: o, slen: len(o.bytes), dst: d,
			doff: 4 * p.Off, dlen: 4 * len(out), count: p.N, prev: s.base(p.Base, o.prev), ret: -1}
		in := o.bytes
		s.begin(k, func() { k.f.Read(k.count, in, out, k.prev) })
	case "put":
		o, d := s.objs[p.B], s.objs[s.nbuf+1]
		in, out := o.words[p.Off:p.Off+p.N], d.bytes[p.O:p.O+32]
		var first uint32
		if p.N > 0 {
			first = in[0]
		}
		k := &openCall{c: p.C, f: findFn("put", shapeOf(p.N, p.Impl), p.Impl, p.Delta), src: o, soff: 4 * p.Off, slen: 4 * p.N,
			dst: d, doff: p.O, dlen: 32, count: p.N, prev: s.base(p.Base, first), ret: -1}
		s.begin(k, func() { k.ctrl = k.f.Put(in, out, k.count, k.prev) })
	case "get":
		o, d := s.objs[s.nbuf+1], s.objs[p.B]
		in, out := o.bytes[p.O:p.O+32], d.words[p.Off:p.Off+p.N]
		k := &openCall{c: p.C, f: findFn("get", shapeOf(p.N, p.Impl), p.Impl, p.Delta), src: o, soff: p.O, slen: 32,
			dst: d, doff: 4 * p.Off, dlen: 4 * p.N, count: p.N, ctrl: p.Ctrl, prev: s.base(p.Base, p2(in)), ret: -1}
		if p.N != 8 {
			k.ctrl &= 0xff
		}
		s.begin(k, func() { k.ret = k.f.Get(in, out, k.ctrl, k.count, k.prev) })
	case "end":
		s.end(s.open[p.C])
	case "append":
		o := s.streams[p.S-1]
		add := make([]byte, p.N)
		for i := range add {
			add[i] = byte(s.r.U32())
		}
		o.bytes = append(o.bytes, add...)
		o.shadow = append(o.shadow, add...)
		s.log(`{"op":"append","id":%d,"data":%s}`, o.id, ints(add))
	case "scribble":
		// data bytes of a stream: it stays readable, as other numbers
		o := s.streams[p.S-1]
		at := ctrlLen(o.n)
		if at >= len(o.bytes) {
			return
		}
		at += s.r.N(len(o.bytes) - at)
		n := min(p.N, len(o.bytes)-at)
		if s.r.Chance(3) { // two data bytes swapped
			lo := ctrlLen(o.n)
			a, b := lo+s.r.N(len(o.bytes)-lo), lo+s.r.N(len(o.bytes)-lo)
			o.bytes[a], o.bytes[b] = o.bytes[b], o.bytes[a]
			at, n = min(a, b), max(a, b)-min(a, b)+1
		} else {
			for i := at; i < at+n; i++ {
				o.bytes[i] = byte(s.r.U32())
			}
		}
		s.changed(o, at, n)
	case "drop":
		o := s.streams[p.S-1]
		delete(s.objs, o.id)
		o.bytes, o.shadow = nil, nil
		s.log(`{"op":"drop","id":%d}`, o.id)
	case "gc":
		runtime.GC()
		return
	default:
		panic("driver: plan step " + p.Op)
	}
	if len(s.open) == 0 {
		s.compare(false)
	}
}

const NRearrange = 5

// rearrange changes words in ways that a careless digest would not notice.
func rearrange(r *Rng, w []uint32, how int) {
	if len(w) == 0 {
		return
	}
	i, j := r.N(len(w)), r.N(len(w))
	switch how {
	case 0: // two swapped
		w[i], w[j] = w[j], w[i]
	case 1: // same sum
		k := r.class(1 + r.N(4))
		w[i] += k
		w[j] -= k
	case 2: // ends stay
		if len(w) > 2 {
			w[1+r.N(len(w)-2)] = r.class(1 + r.N(4))
		}
	case 3: // reversed
		for a, b := 0, len(w)-1; a < b; a, b = a+1, b-1 {
			w[a], w[b] = w[b], w[a]
		}
	default: // one bit
		w[i] ^= 1 << uint(r.N(32))
	}
}

func p2(b []byte) uint32 { return uint32(b[0]) | uint32(b[1])<<8 }

func (s *Session) changed(o *object, off, n int) {
	copy(o.shadow[off:off+n], o.image()[off:off+n])
	if s.record {
		s.log(`{"op":"poke","id":%d,"off":%d,"data":%s}`, o.id, off, ints(o.shadow[off:off+n]))
	}
}

func (s *Session) begin(k *openCall, call func()) {
	k.input = append([]byte(nil), k.src.shadow[k.soff:k.soff+k.slen]...)
	dst := 0
	if k.dst != nil {
		dst = k.dst.id
		k.before = append([]byte(nil), k.dst.shadow[k.doff:k.doff+k.dlen]...)
	}
	if s.record {
		s.log(`{"op":"begin","c":%d,"call":{"fn":"%s","kind":"%s","shape":"%s","impl":"%s","delta":%v,"prev":%s,"count":%d,`+
			`"src":%d,"soff":%d,"slen":%d,"dst":%d,"doff":%d,"dlen":%d,"ctrl":[],"ret":-1}}`, k.c, k.f.Name, k.f.Kind, k.f.Shape, k.f.Impl,
			k.f.Delta, ints(word(k.prev)), k.count, k.src.id, k.soff, k.slen, dst, k.doff, k.dlen)
	}
	k.done = make(chan struct{})
	s.open[k.c] = k
	s.pool.ch <- func() {
		k.res, _ = protect(call)
		close(k.done)
	}
}

func (s *Session) end(k *openCall) {
	<-k.done
	delete(s.open, k.c)
	s.Calls++
	s.Words += uint64(k.count)
	var out []byte
	id := 0
	if k.isWrite {
		out = k.result
		if out == nil {
			out = []byte{}
		}
		id = s.nextID
		s.nextID++
	} else {
		out = k.dst.image()[k.doff : k.doff+k.dlen]
	}
	var ctrl []byte
	if k.f.Kind == "put" || k.f.Kind == "get" {
		ctrl = []byte{byte(k.ctrl)}
		if k.f.Shape == "8" {
			ctrl = append(ctrl, byte(k.ctrl>>8))
		}
	}
	if s.record {
		s.log(`{"op":"end","c":%d,"res":"%s","ret":%d,"id":%d,"ctrl":%s,"out":%s,"fn":"%s"}`, k.c, k.res, k.ret, id, ints(ctrl), ints(out), k.f.Name)
	}
	if k.res != "ok" || !s.right(k, out) {
		s.Suspect = true
	}
	if k.isWrite {
		o := &object{id: id, bytes: out, n: k.count, delta: k.f.Delta, prev: k.prev}
		o.shadow = append([]byte(nil), out...)
		s.objs[id] = o
		s.streams = append(s.streams, o)
	} else {
		copy(k.dst.shadow[k.doff:], out)
	}
}

// right screens a result with the mirror.
func (s *Session) right(k *openCall, out []byte) bool {
	in := k.input
	switch k.f.Kind {
	case "write", "put":
		s.mw = s.mw[:0]
		for i := 0; i < k.count; i++ {
			s.mw = append(s.mw, uint32(in[4*i])|uint32(in[4*i+1])<<8|uint32(in[4*i+2])<<16|uint32(in[4*i+3])<<24)
		}
		s.mc, s.md = mEncode(s.mw, k.f.Delta, k.prev, s.mc[:0], s.md[:0])
		if k.isWrite {
			n := len(s.mc)
			return len(out) == n+len(s.md) && bytes.Equal(out[:n], s.mc) && bytes.Equal(out[n:], s.md)
		}
		var want uint16
		for i, b := range s.mc {
			want |= uint16(b) << uint(8*i)
		}
		lim := len(s.md)
		if k.f.Shape == "8" && k.f.Impl != "scalar" {
			lim = 32
		}
		return k.ctrl == want && bytes.Equal(out[:len(s.md)], s.md) && bytes.Equal(out[lim:], k.before[lim:])
	}
	ctrl, data := in, in
	if k.f.Kind == "read" {
		ctrl, data = in[:ctrlLen(k.count)], in[ctrlLen(k.count):]
	} else {
		ctrl = []byte{byte(k.ctrl), byte(k.ctrl >> 8)}
	}
	w, used, ok := mDecode(k.count, ctrl, data, k.f.Delta, k.prev, s.mw)
	s.mw = w
	if !ok {
		panic("driver: history reads a short stream")
	}
	for i, v := range w {
		if !bytes.Equal(out[4*i:4*i+4], word(v)) {
			return false
		}
	}
	if k.f.Kind == "get" && k.f.Shape == "upto4" && k.ret != used {
		return false
	}
	return bytes.Equal(out[4*k.count:], k.before[4*k.count:])
}

// compare looks for objects that are not what they should be.
func (s *Session) compare(all bool) {
	for id := 1; id < s.nextID; id++ {
		o := s.objs[id]
		if o == nil {
			continue
		}
		same := bytes.Equal(o.image(), o.shadow)
		if !same {
			s.Suspect = true
		}
		if all || !same {
			if s.record {
				s.log(`{"op":"look","id":%d,"data":%s}`, id, ints(o.image()))
			}
		}
	}
}

// Close ends the history and looks at everything once more.
func (s *Session) Close() []byte {
	for _, k := range s.open {
		s.end(k)
	}
	s.compare(true)
	return s.ev
}

// Random makes up the next step of a history: the same kinds of steps as
// SvbHistories, on larger slices and with repetitions.
type Random struct {
	r       *Rng
	words   int
	byteLen int
	next    int
	last    []PlanOp
	queue   []PlanOp
	maxOpen int
}

func (g *Random) step(s *Session) *PlanOp {
	r := g.r
	for try := 0; ; try++ {
		var p PlanOp
		if len(g.queue) > 0 && try == 0 {
			p = g.queue[0]
			g.queue = g.queue[1:]
		} else if len(g.last) > 0 && r.Chance(3) { // the same call again
			p = g.last[r.N(len(g.last))]
			if r.Chance(2) && len(g.queue) == 0 { // after a change to its input
				switch p.Op {
				case "write", "put":
					g.queue = append(g.queue, PlanOp{Op: "poke", B: p.B, Off: p.Off, N: p.N, Style: NStyles + r.N(NRearrange)}, p)
				case "read":
					g.queue = append(g.queue, PlanOp{Op: "scribble", S: p.S, N: 1 + r.N(2)}, p)
				}
			}
		} else {
			p = PlanOp{B: 1 + r.N(s.nbuf), Off: r.N(9), Delta: r.Chance(2), Impl: r.N(3), Base: r.N(4), Style: r.N(NStyles + NRearrange)}
			switch r.N(5) {
			case 0:
				p.N = r.N(g.words - 12)
			case 1:
				p.N = r.N(min(g.words-12, 300))
			default:
				p.N = r.N(41)
			}
			switch k := r.N(16); {
			case k < 3:
				p.Op = "poke"
				if r.Chance(2) {
					p.N = 1
					p.Off = r.N(g.words)
				}
			case k < 4:
				p.Op, p.Off, p.N = "pokebytes", 16*r.N(3), 32
			case k < 8:
				p.Op = "write"
			case k < 11:
				p.Op = "read"
			case k < 13:
				p.Op, p.N, p.O = "put", []int{8, 8, 4, 3, 2, 1, 0}[r.N(7)], 16*r.N(5)
			case k < 15:
				p.Op, p.N, p.O = "get", []int{8, 8, 4, 3, 2, 1, 0}[r.N(7)], 16*r.N(5)
				p.Ctrl = uint16(r.U32())
			default:
				p.Op = []string{"append", "scribble", "scribble", "drop", "drop"}[r.N(5)]
				p.N = 1 + r.N(12)
				if p.Op == "drop" && r.Chance(8) {
					p.Op = "gc"
				}
			}
		}
		switch p.Op {
		case "read", "append", "scribble", "drop":
			if len(s.streams) == 0 {
				continue
			}
			if p.S == 0 || s.streams[p.S-1].bytes == nil {
				p.S = len(s.streams) - r.N(min(len(s.streams), 8))
			}
			o := s.streams[p.S-1]
			if o.bytes == nil {
				continue
			}
			if p.Op == "read" {
				p.N, p.More = o.n, r.N(4)
				if r.Chance(2) {
					p.Delta = o.delta
					p.Base = 1
				}
			}
		}
		if (p.Op == "poke" || p.Op == "write") && p.Off+p.N > g.words || p.Op == "read" && p.Off+p.N+p.More > g.words {
			continue
		}
		switch p.Op {
		case "write", "read", "put", "get":
			if len(g.last) < 8 {
				g.last = append(g.last, p)
			} else {
				g.last[r.N(8)] = p
			}
			g.next++
			p.C = g.next
		}
		if len(s.open) > 0 && (r.Chance(2) || len(s.open) >= g.maxOpen || !s.free(&p) || try > 20) {
			for c := range s.open { // lowest first
				if p.Op != "end" || c < p.C {
					p = PlanOp{Op: "end", C: c}
				}
			}
		}
		return &p
	}
}

// free tells whether a step may happen while the open calls are under way.
func (s *Session) free(p *PlanOp) bool {
	type reg struct{ o, off, len int }
	ov := func(a, b reg) bool {
		return a.o == b.o && a.len > 0 && b.len > 0 && a.off < b.off+b.len && b.off < a.off+a.len
	}
	var in, out reg
	bid := s.nbuf + 1
	switch p.Op {
	case "gc":
		return true
	case "poke":
		out = reg{p.B, 4 * p.Off, 4 * p.N}
	case "pokebytes":
		out = reg{bid, p.Off, p.N}
	case "append", "scribble", "drop":
		out = reg{s.streams[p.S-1].id, 0, 1 << 30}
	case "write":
		in = reg{p.B, 4 * p.Off, 4 * p.N}
	case "read":
		in, out = reg{s.streams[p.S-1].id, 0, 1 << 30}, reg{p.B, 4 * p.Off, 4 * (p.N + p.More)}
	case "put":
		in, out = reg{p.B, 4 * p.Off, 4 * p.N}, reg{bid, p.O, 32}
	case "get":
		in, out = reg{bid, p.O, 32}, reg{p.B, 4 * p.Off, 4 * p.N}
	}
	for _, k := range s.open {
		ki := reg{k.src.id, k.soff, k.slen}
		var ko reg
		if k.dst != nil {
			ko = reg{k.dst.id, k.doff, k.dlen}
		}
		if ov(out, ki) || ov(out, ko) || ov(in, ko) {
			return false
		}
	}
	return true
}

// SessionSum describes a run of histories.
type SessionSum struct {
	Histories, Recorded, Suspicious int
	Calls, Words                    uint64
	Events                          int
}

// RunHistories carries out plans (from SvbHistories) and n made-up histories.
func RunHistories(seed uint64, plans [][]PlanOp, n, record, steps int, sample, cand *os.File, stop func() bool) (sum SessionSum) {
	keep := func(s *Session, ev []byte, record bool) {
		sum.Histories++
		sum.Calls += s.Calls
		sum.Words += s.Words
		sum.Events += s.Events
		if s.Suspect {
			sum.Suspicious++
			if sum.Suspicious <= 20 {
				cand.Write(ev)
			}
		} else if record {
			sum.Recorded++
			sample.Write(ev)
		}
	}
	for i, p := range plans {
		s := NewSession(NewRng(seed, "plan", i), 3, 80, 96, true)
		for k := range p {
			s.Do(&p[k])
		}
		keep(s, s.Close(), true)
	}
	run := func(i int, rec bool) (*Session, []byte) {
		r := NewRng(seed, "history", i)
		words, st := 60+r.N(60), steps
		if i%4 == 3 {
			words = 400 + r.N(3000)
			if rec && i < record {
				words = 400
			}
		}
		if i%16 == 15 {
			st *= 10
		}
		if i%64 == 40 && !rec { // long slices, few steps
			words, st = 1<<uint(14+r.N(5)), 24
		}
		s := NewSession(r, 3, words, 96, rec)
		g := &Random{r: r, words: words, byteLen: 96, maxOpen: 1 + r.N(3)}
		for k := 0; k < st; k++ {
			s.Do(g.step(s))
			if s.Suspect && !rec {
				break
			}
			if len(s.ev) > 4<<20 {
				break
			}
		}
		return s, s.Close()
	}
	for i := 0; i < n && !stop(); i++ {
		s, ev := run(i, i < record)
		if s.Suspect && i >= record {
			s2, ev2 := run(i, true) // the same history again, recorded
			if s2.Suspect {
				s, ev = s2, ev2
			} else {
				// not the same again: record histories until it shows
				for j := 0; j < 200 && !s2.Suspect; j++ {
					s2, ev2 = run(i, true)
				}
				if s2.Suspect {
					s, ev = s2, ev2
				} else {
					sum.Suspicious++
					continue
				}
			}
		}
		keep(s, ev, i < record)
	}
	return
}

// ReadPlans reads plans, one JSON array per line.
func ReadPlans(path string) (plans [][]PlanOp) {
	b, err := os.ReadFile(path)
	must(err)
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var p []PlanOp
		must(json.Unmarshal(l, &p))
		plans = append(plans, p)
	}
	return
}

// Conc makes many calls at the same time.  Inputs are shared, outputs are not.
// Results are compared with what the mirror says; calls with other results and
// some others are recorded as histories of one call each.
func Conc(seed uint64, procs, calls int, maxWords int, sample, cand *os.File) (sum SessionSum) {
	r := NewRng(seed, "conc", 0)
	type input struct {
		words []uint32
		fn    *Fn // how to encode or decode it
		bytes []byte
		n     int
		prev  uint32
		ctrl  uint16
		want  []byte
		wctrl uint16
		wret  int
	}
	// phased: all goroutines use the same function at the same time, with
	// several inputs
	large := maxWords > 1<<16
	phased := large || seed%2 == 1
	var shared []*input
	per, fns := 1, Fns
	if phased {
		per = 5
	}
	if large {
		per, fns = 3, nil
		for _, f := range Fns {
			if f.Shape == "stream" {
				fns = append(fns, f)
			}
		}
	}
	many := 160
	if phased {
		many = per * len(fns)
	}
	for i := 0; i < many; i++ {
		f := fns[r.N(len(fns))]
		if phased {
			f = fns[i/per]
		}
		in := &input{fn: f}
		switch f.Shape {
		case "8":
			in.n = 8
		case "4":
			in.n = 4
		case "upto4":
			in.n = r.N(5)
		default:
			in.n = r.N(40)
			if r.Chance(3) {
				in.n = r.N(maxWords)
			}
			if large {
				in.n = maxWords >> uint(r.N(3))
				in.n -= r.N(in.n / 2)
			}
		}
		switch f.Kind {
		case "write", "put":
			in.words = make([]uint32, in.n)
			r.Values(in.words, r.N(NStyles))
			in.prev = r.Base(0)
			c, d := mEncode(in.words, f.Delta, in.prev, nil, nil)
			if f.Kind == "write" {
				in.want = append(c, d...)
			} else {
				in.want = d
				for k, b := range c {
					in.wctrl |= uint16(b) << uint(8*k)
				}
			}
		default:
			in.prev = r.Base(0)
			var c, d []byte
			if f.Kind == "read" {
				in.bytes = r.Stream(in.n, f.Delta, in.prev)
				c, d = in.bytes[:ctrlLen(in.n)], in.bytes[ctrlLen(in.n):]
			} else {
				in.bytes = make([]byte, 32)
				for k := range in.bytes {
					in.bytes[k] = byte(r.U32())
				}
				in.ctrl = uint16(r.U32())
				if f.Shape != "8" {
					in.ctrl &= 0xff
				}
				c, d = []byte{byte(in.ctrl), byte(in.ctrl >> 8)}, in.bytes
			}
			w, used, _ := mDecode(in.n, c, d, f.Delta, in.prev, nil)
			for _, v := range w {
				in.want = append(in.want, word(v)...)
			}
			in.wret = -1
			if f.Shape == "upto4" {
				in.wret = used
			}
			if f.Kind == "get" && in.n == 0 {
				in.want = nil
			}
		}
		shared = append(shared, in)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < procs; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := NewRng(seed, "conc/g", g)
			outw := make([]uint32, maxWords+8)
			outb := make([]byte, 32)
			var kept [8][]byte
			var keptFor [8]*input
			<-start
			var made, words uint64
			for i := 0; i < calls; i++ {
				in := shared[(i*7+r.N(40))%len(shared)]
				if phased {
					in = shared[i/4*per%len(shared)+r.N(per)]
				}
				f := in.fn
				var out []byte
				var res string
				ctrl, ret := in.ctrl, -1
				res, _ = protect(func() {
					switch f.Kind {
					case "write":
						out = f.Write(in.words, in.prev)
					case "read":
						f.Read(in.n, in.bytes, outw[:in.n], in.prev)
						out = asBytes(outw[:in.n])
					case "put":
						ctrl = f.Put(in.words, outb, in.n, in.prev)
						out = outb
					case "get":
						ret = f.Get(in.bytes, outw[:in.n], in.ctrl, in.n, in.prev)
						out = asBytes(outw[:in.n])
					}
				})
				if res != "ok" { // the slices it was given, as they are now
					switch f.Kind {
					case "read", "get":
						out = asBytes(outw[:in.n])
					case "put":
						out = outb
					}
				}
				made++
				words += uint64(in.n)
				ok := res == "ok"
				if ok && f.Kind == "put" {
					ok = ctrl == in.wctrl && bytes.Equal(out[:len(in.want)], in.want)
				} else if ok {
					ok = bytes.Equal(out, in.want) && (f.Kind != "get" || ret == in.wret)
				}
				if !ok || i == calls/2+g && in.n < 4000 {
					mu.Lock()
					if !ok {
						sum.Suspicious++
					} else {
						sum.Recorded++
					}
					if ok || sum.Suspicious <= 10 {
						w := sample
						if !ok {
							w = cand
						}
						w.Write(oneCall(in.fn, in.words, in.bytes, in.n, in.prev, ctrl, ret, res, out))
					}
					mu.Unlock()
					if !ok && sum.Suspicious > 10 {
						break
					}
				}
				// earlier results stay as they were
				if f.Kind == "write" && res == "ok" && ok {
					k := r.N(8)
					if kept[k] != nil && !bytes.Equal(kept[k], keptFor[k].want) {
						mu.Lock()
						if sum.Suspicious++; sum.Suspicious <= 10 {
							q := keptFor[k]
							cand.Write(oneCall(q.fn, q.words, nil, q.n, q.prev, 0, -1, "ok", q.want))
							cand.Write([]byte(fmt.Sprintf(`{"op":"look","id":2,"data":%s}`+"\n", ints(kept[k]))))
						}
						mu.Unlock()
					}
					kept[k], keptFor[k] = out, in
				}
			}
			mu.Lock()
			sum.Calls += made
			sum.Words += words
			mu.Unlock()
		}(g)
	}
	// all goroutines make their first calls at the same time
	runtime.Gosched()
	close(start)
	wg.Wait()
	sum.Histories = sum.Suspicious + sum.Recorded
	return
}

// oneCall is a history of one call.
func oneCall(f *Fn, words []uint32, in []byte, n int, prev uint32, ctrl uint16, ret int, res string, out []byte) []byte {
	var b []byte
	if f.Kind == "write" || f.Kind == "put" {
		in = asBytes(words)
	}
	b = append(b, "{\"op\":\"start\"}\n"...)
	b = append(b, fmt.Sprintf(`{"op":"new","id":1,"data":%s}`+"\n", ints(in))...)
	dst, id := 0, 2
	if f.Kind != "write" {
		dst, id = 2, 0
		b = append(b, fmt.Sprintf(`{"op":"new","id":2,"data":%s}`+"\n", ints(out))...)
	}
	var cs []byte
	if f.Kind == "put" || f.Kind == "get" {
		cs = []byte{byte(ctrl)}
		if f.Shape == "8" {
			cs = append(cs, byte(ctrl>>8))
		}
	}
	dlen := len(out)
	if dst == 0 {
		dlen = 0
	}
	b = append(b, fmt.Sprintf(`{"op":"begin","c":1,"call":{"fn":"%s","kind":"%s","shape":"%s","impl":"%s","delta":%v,"prev":%s,"count":%d,`+
		`"src":1,"soff":0,"slen":%d,"dst":%d,"doff":0,"dlen":%d,"ctrl":[],"ret":-1}}`+"\n", f.Name, f.Kind, f.Shape, f.Impl, f.Delta,
		ints(word(prev)), n, len(in), dst, dlen)...)
	b = append(b, fmt.Sprintf(`{"op":"end","c":1,"res":"%s","ret":%d,"id":%d,"ctrl":%s,"out":%s,"fn":"%s"}`+"\n", res, ret, id, ints(cs), ints(out), f.Name)...)
	b = append(b, fmt.Sprintf(`{"op":"look","id":1,"data":%s}`+"\n", ints(in))...)
	return b
}
