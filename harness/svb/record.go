package svb

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

// Recorder writes events for TLC.
type Recorder struct {
	sample, cand *os.File
	sw, cw       *bufio.Writer
	Budget       int // groups of words that may still be sampled
	Samples      int
	SampleGroups int
	Cands        int
	MaxCands     int
	buf          []byte
	First        []json.RawMessage
	Cfg          string
}

func NewRecorder(samplePath, candPath string, budget int) *Recorder {
	r := &Recorder{Budget: budget, MaxCands: 40}
	var err error
	if r.sample, err = os.Create(samplePath); err != nil {
		panic("driver: " + err.Error())
	}
	if r.cand, err = os.Create(candPath); err != nil {
		panic("driver: " + err.Error())
	}
	r.sw, r.cw = bufio.NewWriterSize(r.sample, 1<<20), bufio.NewWriter(r.cand)
	return r
}

func (r *Recorder) Close() {
	r.sw.Flush()
	r.cw.Flush()
	r.sample.Close()
	r.cand.Close()
}

func appInts(b []byte, v []byte) []byte {
	b = append(b, '[')
	for i, x := range v {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(x), 10)
	}
	return append(b, ']')
}

func word(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

// AppendEvent appends the JSON event of a call.
func AppendEvent(b []byte, c *Call, o *Outcome, cfg string) []byte {
	n := NWords(c)
	words, bytes := o.Words, o.Bytes
	wl := c.OutN
	var ctrl []byte
	cnt := c.Count
	if c.F.Shape == "upto4" {
		cnt = min(cnt, 1<<30) // the specification's integers are 32 bits wide; it uses min(count, 4)
	}
	switch c.F.Kind {
	case "write":
		words, wl, cnt = c.In, len(c.In), n
	case "put":
		words, wl = c.In, len(c.In)
		ctrl = []byte{byte(o.Ctrl)}
		if c.F.Shape == "8" {
			ctrl = append(ctrl, byte(o.Ctrl>>8))
		}
	case "read":
		bytes = c.Bytes
	case "get":
		bytes = c.Bytes
		ctrl = []byte{byte(c.Ctrl)}
		if c.F.Shape == "8" {
			ctrl = append(ctrl, byte(c.Ctrl>>8))
		}
	}
	b = append(b, `{"fn":"`...)
	b = append(b, c.F.Name...)
	b = append(b, `","kind":"`...)
	b = append(b, c.F.Kind...)
	b = append(b, `","shape":"`...)
	b = append(b, c.F.Shape...)
	b = append(b, `","impl":"`...)
	b = append(b, c.F.Impl...)
	b = append(b, `","delta":`...)
	b = strconv.AppendBool(b, c.F.Delta)
	b = append(b, `,"prev":`...)
	b = appInts(b, word(c.Prev))
	b = append(b, `,"count":`...)
	b = strconv.AppendInt(b, int64(cnt), 10)
	b = append(b, `,"wlen":`...)
	b = strconv.AppendInt(b, int64(wl), 10)
	b = append(b, `,"ret":`...)
	b = strconv.AppendInt(b, int64(o.Ret), 10)
	b = append(b, `,"res":"`...)
	b = append(b, o.Res...)
	b = append(b, `","ctrl":`...)
	b = appInts(b, ctrl)
	b = append(b, `,"words":[`...)
	for i, v := range words {
		if i > 0 {
			b = append(b, ',')
		}
		for k := 0; k < 4; k++ {
			if k > 0 {
				b = append(b, ',')
			}
			b = strconv.AppendInt(b, int64(byte(v>>uint(8*k))), 10)
		}
	}
	b = append(b, `],"bytes":`...)
	b = appInts(b, bytes)
	b = append(b, `,"chg":[`...)
	for i, h := range o.Chg {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, `["`...)
		b = append(b, h.Region...)
		b = append(b, `",`...)
		b = strconv.AppendInt(b, int64(h.Off), 10)
		b = append(b, ']')
	}
	b = append(b, `],"unw":[`...)
	for i, u := range o.Unw {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(u), 10)
	}
	b = append(b, `],"rep":`...)
	m, _ := json.Marshal(map[string]interface{}{"outn": c.OutN, "extra": c.Extra, "plin": c.PlIn, "plout": c.PlOut,
		"skew": c.Skew, "ro": c.RO, "pat": c.Pat, "why": c.Why, "msg": o.Msg, "cfg": cfg})
	b = append(b, m...)
	return append(b, '}', '\n')
}

func (r *Recorder) Sample(c *Call, o *Outcome) {
	g := ctrlLen(NWords(c)) + 1
	if g > r.Budget {
		return
	}
	r.Budget -= g
	r.SampleGroups += g
	r.Samples++
	r.buf = AppendEvent(r.buf[:0], c, o, r.Cfg)
	r.sw.Write(r.buf)
}

const maxEventWords = 6000

// Candidate records a suspicious call, reduced in size where possible.
func (r *Recorder) Candidate(x *Exec, c *Call, o *Outcome) {
	r.Cands++
	if r.Cands > r.MaxCands {
		return
	}
	if n := NWords(c); n > 64 && c.F.Shape == "stream" {
		rec := x.Rec
		x.Rec = nil
		c2, o2 := x.shrink(c)
		x.Rec = rec
		if c2 != nil {
			c, o = c2, o2
		}
	}
	if NWords(c) > maxEventWords {
		if c2, o2 := window(c, o); c2 != nil {
			c, o = c2, o2
		}
	}
	r.buf = AppendEvent(r.buf[:0], c, o, r.Cfg)
	r.cw.Write(r.buf)
	r.cw.Flush()
}

// shrink looks for a shorter prefix of the call that is suspicious too.
func (x *Exec) shrink(c *Call) (*Call, *Outcome) {
	n := NWords(c)
	var bc *Call
	var bo *Outcome
	try := func(m int) bool {
		c2 := *c
		if c.F.Kind == "write" {
			c2.In = c.In[:m]
		} else {
			if len(c.Bytes) < ctrlLen(n) {
				return false
			}
			ctrl := append([]byte(nil), c.Bytes[:ctrlLen(m)]...)
			data := c.Bytes[ctrlLen(n):]
			need := mNeed(m, ctrl)
			if x.Aspect == "refuse" { // as short of data as can be
				need--
			}
			if need > len(data) {
				return false
			}
			c2.Bytes = append(ctrl, data[:need]...)
			c2.Count = m
			c2.OutN = m
		}
		o2 := &Outcome{}
		x.Run(&c2, o2)
		if x.Suspicious(&c2, o2) {
			bc, bo = &c2, o2
			return true
		}
		return false
	}
	budget := 400
	if n > 1<<16 {
		budget = 60
	}
	for m := 1; m < n && budget > 0; m, budget = m+max(1, m/8), budget-1 {
		if try(m) {
			break
		}
	}
	return bc, bo
}

// window cuts the first deviating part out of a long stream call.  By the
// segment composition law of the format (SvbFormatMC) the control and data
// bytes of a run of whole groups form a stream of their own.
func window(c *Call, o *Outcome) (*Call, *Outcome) {
	if o.Res != "ok" && o.Res != "fault" {
		return nil, nil
	}
	n := NWords(c)
	words, bytes := c.In, o.Bytes
	if c.F.Kind == "read" {
		words, bytes = o.Words, c.Bytes
	}
	c2, o2 := *c, *o
	c2.Why = fmt.Sprintf("window of a call with %d words; %s", n, c.Why)
	if o.Res == "fault" {
		m := min(n, 64)
		if c.F.Kind == "write" {
			c2.In = c.In[:m]
			return &c2, &o2
		}
		ctrl := append([]byte(nil), c.Bytes[:ctrlLen(m)]...)
		need := mNeed(m, ctrl)
		c2.Bytes = append(ctrl, c.Bytes[ctrlLen(n):ctrlLen(n)+need]...)
		c2.Count, c2.OutN = m, m
		o2.Words = append([]uint32(nil), o.Words[:m]...)
		return &c2, &o2
	}
	if len(bytes) < ctrlLen(n) {
		return nil, nil
	}
	// first deviating group, walking with the mirror
	ctrl, data := bytes[:ctrlLen(n)], bytes[ctrlLen(n):]
	prev := c.Prev
	pos := 0
	at := -1
	var wc, wd []byte
	var wo []uint32
	posOf := func(i int) int { return i }
	_ = posOf
	prevs := c.Prev
	for g := 0; g < ctrlLen(n); g++ {
		m := min(4, n-4*g)
		bad := false
		var need int
		if c.F.Kind == "write" {
			wc, wd = mEncode(words[4*g:4*g+m], c.F.Delta, prev, wc[:0], wd[:0])
			need = len(wd)
			bad = ctrl[g] != wc[0] || pos+need > len(data) || string(data[pos:pos+need]) != string(wd)
		} else {
			need = mNeed(m, ctrl[g:g+1])
			var ok bool
			wo, _, ok = mDecode(m, ctrl[g:g+1], data[pos:], c.F.Delta, prev, wo)
			bad = !ok
			for i := range wo {
				bad = bad || wo[i] != words[4*g+i]
			}
		}
		if bad || g == ctrlLen(n)-1 {
			at = g
			break
		}
		prevs = prev
		_ = prevs
		prev = words[4*g+m-1]
		pos += need
	}
	g1 := min(ctrlLen(n), at+16)
	nw := min(n, 4*g1) - 4*at
	c2.Prev = prev
	wb := append([]byte(nil), ctrl[at:g1]...)
	if g1 == ctrlLen(n) {
		wb = append(wb, data[pos:]...)
	} else if c.F.Kind == "write" {
		_, d := mEncode(words[4*at:4*at+nw], c.F.Delta, prev, nil, nil)
		wb = append(wb, data[pos:min(len(data), pos+len(d))]...)
	} else {
		wb = append(wb, data[pos:min(len(data), pos+mNeed(nw, ctrl[at:g1]))]...)
	}
	c2.Why = fmt.Sprintf("groups %d.. %s", at, c2.Why)
	if c.F.Kind == "write" {
		c2.In = words[4*at : 4*at+nw]
		o2.Bytes = wb
	} else {
		c2.Bytes = wb
		c2.Count, c2.OutN = nw, nw
		o2.Words = words[4*at : 4*at+nw]
	}
	return &c2, &o2
}

// CarefulEvent is written before a call that is being repeated because it
// ended the process: what is recorded if it does so again.
func CarefulEvent(c *Call, pairs bool, cfg string) []byte {
	if pairs {
		m, _ := json.Marshal(map[string]interface{}{"what": "crash", "left": c.F.Name, "right": "", "lres": "fault", "rres": "ok",
			"rep": replayText(c), "l": []int{}, "r": []int{}, "off": 0, "llen": 0, "rlen": 0})
		return append(m, '\n')
	}
	o := &Outcome{Res: "fault", Ret: -1, Msg: "the process ended or hung"}
	o.Words = make([]uint32, NWords(c))
	o.Bytes = make([]byte, c.OutN)
	return AppendEvent(nil, c, o, cfg)
}
