// Command varint executes the varint baseline codec and the helpers and
// records calls as events for TraceVarint.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
	"svbverif/svb"
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}

type ints []byte

func (b ints) MarshalJSON() ([]byte, error) {
	o := []byte{'['}
	for i, v := range b {
		if i > 0 {
			o = append(o, ',')
		}
		o = append(o, fmt.Sprint(v)...)
	}
	return append(o, ']'), nil
}

type event struct {
	Fn    string `json:"fn"`
	Kind  string `json:"kind"`
	Delta bool   `json:"delta"`
	Prev  ints   `json:"prev"`
	N     int    `json:"n"`
	Words ints   `json:"words"`
	Bytes ints   `json:"bytes"`
	Out   ints   `json:"out"`
	Ret   int    `json:"ret"`
	Res   string `json:"res"`
}

func image(w []uint32) ints {
	var b ints
	for _, v := range w {
		b = binary.LittleEndian.AppendUint32(b, v)
	}
	return b
}

// encode mirrors SvbVarint, for screening only.
func encode(w []uint32, delta bool, prev uint32, b []byte) []byte {
	for _, v := range w {
		d := v
		if delta {
			d, prev = v-prev, v
		}
		for d >= 128 {
			b = append(b, byte(d)|128)
			d >>= 7
		}
		b = append(b, byte(d))
	}
	return b
}

func protect(f func()) (res string) {
	res = "panic"
	defer func() { recover() }()
	f()
	return "ok"
}

type driver struct {
	sample, cand *os.File
	r            *svb.Rng
	Calls, Words uint64
	Recorded     int
	Suspicious   int
	Exhaustive   uint64
	want, got    []byte
	outw         []uint32
}

func (d *driver) put(e *event, bad, rec bool) {
	d.Calls++
	d.Words += uint64(e.N)
	f := d.sample
	if bad {
		f = d.cand
		if d.Suspicious++; d.Suspicious > 30 {
			return
		}
	} else if !rec {
		return
	} else {
		d.Recorded++
	}
	b, err := json.Marshal(e)
	fatal(err)
	f.Write(append(b, '\n'))
}

func same(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// trip puts words and gets them back.
func (d *driver) trip(w []uint32, delta bool, prev uint32, slack int, rec bool) {
	d.want = encode(w, delta, prev, d.want[:0])
	n := len(d.want) + slack
	if cap(d.got) < n {
		d.got = make([]byte, n, 2*n)
	}
	out := d.got[:n]
	for i := range out {
		out[i] = 0xa5
	}
	ret := -1
	name := "PutVarint"
	if delta {
		name = "PutDeltaVarint"
	}
	in := append([]uint32(nil), w...)
	res := protect(func() {
		if delta {
			ret = util.PutDeltaVarint(in, out, prev)
		} else {
			ret = util.PutVarint(in, out)
		}
	})
	bad := res != "ok" || ret != len(d.want) || !bytes.Equal(out[:ret], d.want)
	if bad || rec {
		b := out
		if ret >= 0 && ret <= len(out) {
			b = out[:ret]
		}
		d.put(&event{name, "put", delta, image([]uint32{prev}), len(w), image(w), ints(b), ints{}, ret, res}, bad, rec)
	} else {
		d.Calls++
		d.Words += uint64(len(w))
	}
	// back again, from exactly the encoded bytes
	name = "GetVarint"
	if delta {
		name = "GetDeltaVarint"
	}
	m := len(w) + slack
	if cap(d.outw) < m {
		d.outw = make([]uint32, m, 2*m)
	}
	ow := d.outw[:m]
	for i := range ow {
		ow[i] = 0xa5a5a5a5
	}
	ret = -1
	src := append([]byte(nil), d.want...)
	res = protect(func() {
		if delta {
			ret = util.GetDeltaVarint(src, ow, prev)
		} else {
			ret = util.GetVarint(src, ow)
		}
	})
	bad = res != "ok" || ret != len(d.want) || !same(ow[:len(w)], w)
	if bad || rec {
		d.put(&event{name, "get", delta, image([]uint32{prev}), len(w), image(ow[:len(w)]), ints(d.want), ints{}, ret, res}, bad, rec)
	} else {
		d.Calls++
		d.Words += uint64(len(w))
	}
}

func (d *driver) helpers(w []uint32, rec bool) {
	in := append([]uint32(nil), w...)
	out := make([]uint32, len(w)+d.r.N(3))
	res := protect(func() { util.Delta(in, out) })
	bad := res != "ok"
	for i := range w {
		x := w[i]
		if i > 0 {
			x -= w[i-1]
		}
		bad = bad || out[i] != x
	}
	d.put(&event{"Delta", "delta", true, image([]uint32{0}), len(w), image(w), ints{}, image(out[:len(w)]), 0, res}, bad, rec)
	in = append(in[:0], w...)
	res = protect(func() { util.SortUint32(in) })
	ref := append([]uint32(nil), w...)
	sort.Slice(ref, func(i, j int) bool { return ref[i] < ref[j] })
	d.put(&event{"SortUint32", "sort", false, image([]uint32{0}), len(w), image(w), ints{}, image(in), 0, res}, res != "ok" || !same(ref, in), rec && len(w) <= 60)
}

func main() {
	flag := flag.NewFlagSet("varint", flag.ExitOnError) // the repository's packages define flags of their own
	seed := flag.Uint64("seed", 1, "")
	n := flag.Int("n", 20000, "sequences")
	rec := flag.Int("record", 1500, "")
	out := flag.String("out", ".", "")
	tag := flag.String("tag", "v", "")
	secs := flag.Float64("secs", 20, "")
	lo := flag.Uint64("lo", 0, "single values from here")
	hi := flag.Uint64("hi", 0, "to here")
	step := flag.Uint64("step", 1, "")
	flag.Parse(os.Args[1:])
	d := &driver{r: svb.NewRng(*seed, "varint", 0)}
	var err error
	d.sample, err = os.Create(filepath.Join(*out, "sample."+*tag+".ndjson"))
	fatal(err)
	d.cand, err = os.Create(filepath.Join(*out, "cand."+*tag+".ndjson"))
	fatal(err)
	start := time.Now()
	stop := func() bool { return time.Since(start).Seconds() > *secs }
	for i := 0; i < *n && !(i&63 == 63 && stop()); i++ {
		r := svb.NewRng(*seed, "varint", i)
		d.r = r
		k := r.N(24)
		if i < 80 {
			k = i / 4
		} else if r.Chance(40) {
			k = r.N(3000)
		} else if i%4 == 3 && r.Chance(3) {
			k = 1<<uint(3+r.N(10)) + r.N(40)
		} else if r.Chance(400) {
			k = r.N(200000)
		} else if r.Chance(60) {
			k = r.Medium()
		}
		w := make([]uint32, k)
		switch r.N(6) {
		case 0: // every length of varint
			for j := range w {
				w[j] = r.U32() >> uint(r.N(33))
			}
		case 1: // around powers of two
			for j := range w {
				w[j] = uint32(1)<<uint(r.N(32)) + uint32(r.N(5)) - 2
			}
		case 2: // up to some largest value
			top := r.U32() >> uint(r.N(32))
			for j := range w {
				w[j] = uint32(uint64(r.U32()) * (uint64(top) + 1) >> 32)
			}
			if k > 0 {
				w[r.N(k)] = top
			}
		case 3: // of one length, some a bit larger
			top := uint32(1) << uint([...]int{7, 14, 21, 28, 8, 16, 24, 31}[r.N(8)])
			rare := 2 + r.N(16)
			for j := range w {
				w[j] = r.U32() & (top - 1)
				if r.Chance(rare) {
					w[j] |= top
				}
			}
		default:
			r.Values(w, r.N(svb.NStyles))
		}
		prev := r.Base(0)
		delta := i%2 == 0
		if delta && r.Chance(2) {
			svb.Sum(w, prev)
		}
		slack := 0
		if r.Chance(2) {
			slack = r.N(12)
		}
		record := i < *rec && k < 300
		if i%4 < 3 {
			d.trip(w, delta, prev, slack, record)
		} else {
			d.helpers(w, record)
		}
	}
	// single values
	var one [1]uint32
	for v := *lo; v < *hi; v += *step {
		one[0] = uint32(v)
		d.trip(one[:], v&1 == 0, uint32(v*2654435761), 0, false)
		d.Exhaustive++
		if d.Suspicious > 30 || (v&0xfff == 0 && stop()) {
			break
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Calls": d.Calls, "Words": d.Words, "Recorded": d.Recorded, "Suspicious": d.Suspicious, "Single": d.Exhaustive})
	fatal(os.WriteFile(filepath.Join(*out, "summary."+*tag+".json"), b, 0o644))
}
