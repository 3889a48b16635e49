// Command dispatch reports which assembly functions the general functions
// enter, and the modes the packages report, as events for TraceDispatch.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
	"golang.org/x/sys/cpu"
	"svbverif/svb"
)

// the modes as this package's variables are initialised
var initial = [2]shared.PerformanceMode{encode.GetMode(), decode.GetMode()}

func name(m shared.PerformanceMode) string {
	switch m {
	case shared.Fast:
		return "fast"
	case shared.Normal:
		return "normal"
	}
	return fmt.Sprintf("mode %d", m)
}

func features() []string {
	f := []string{}
	if svb.Portable {
		return f // there is no accelerated code for anything else
	}
	v := reflect.ValueOf(cpu.X86)
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		if strings.HasPrefix(n, "Has") && v.Field(i).Kind() == reflect.Bool && v.Field(i).Bool() {
			f = append(f, strings.ToLower(n[3:]))
		}
	}
	return f
}

func arch() string {
	if svb.Portable && runtime.GOARCH == "amd64" {
		return "none"
	}
	return runtime.GOARCH
}

// many makes calls of every general function that are not recorded.
func many(k int) {
	in, out, w := make([]uint32, 40), make([]byte, 256), make([]uint32, 48)
	for i := range in {
		in[i] = uint32(i * i * i)
	}
	for _, f := range svb.General() {
		var s []byte
		if f.Kind == "read" {
			s = svb.Scalar("write", "stream", f.Delta).Write(in, 0)
		}
		for i := 0; i < k; i++ {
			switch f.Kind {
			case "write":
				f.Write(in, 0)
			case "put":
				f.Put(in[:8], out, 8, 0)
			case "read":
				f.Read(len(in), s, w, 0)
			case "get":
				f.Get(out, w, 0, 8, 0)
			}
		}
	}
}

func main() {
	flags := flag.NewFlagSet("dispatch", flag.ExitOnError)
	seed := flags.Uint64("seed", 1, "")
	n := flags.Int("n", 120, "")
	cfg := flags.String("cfg", "", "")
	flags.Parse(os.Args[1:])
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	emit := func(m map[string]interface{}) {
		m["cfg"] = *cfg
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
	}
	mode := func(pkg string, m shared.PerformanceMode, when string) {
		emit(map[string]interface{}{"op": "mode", "pkg": pkg, "mode": name(m), "when": when})
	}
	emit(map[string]interface{}{"op": "start", "feats": features(), "arch": arch()})
	mode("encode", initial[0], "initialisation")
	mode("decode", initial[1], "initialisation")
	r := svb.NewRng(*seed, *cfg, 0)
	type call struct {
		fn  *svb.Fn
		big bool
	}
	for i := 0; i < *n; i++ {
		if *seed%4 == 1 && i == *n/2 { // a process that has made many calls already
			many(100000)
			mode("encode", encode.GetMode(), "after many calls")
			mode("decode", decode.GetMode(), "after many calls")
		}
		if i%7 == 3 {
			var wg sync.WaitGroup
			var ms [4][2]shared.PerformanceMode
			for k := range ms {
				wg.Add(1)
				go func(k int) { defer wg.Done(); ms[k] = [2]shared.PerformanceMode{encode.GetMode(), decode.GetMode()} }(k)
			}
			wg.Wait()
			for _, m := range ms {
				mode("encode", m[0], "in a goroutine")
				mode("decode", m[1], "in a goroutine")
			}
		}
		if i%6 == 4 { // a reader refuses a truncated stream
			for _, f := range svb.Fns {
				if f.Kind == "read" && r.Chance(2) {
					k := 1 + r.N(300)
					s := svb.Scalar("write", "stream", false).Write(make([]uint32, k), 0)
					func() {
						defer func() { recover() }()
						f.Read(k, s[:r.N(len(s))], make([]uint32, k+8), 0)
					}()
				}
			}
			mode("encode", encode.GetMode(), "after refused calls")
			mode("decode", decode.GetMode(), "after refused calls")
		}
		fns := svb.General()
		f := fns[r.N(len(fns))]
		if i < len(fns) {
			f = fns[(i+int(*seed))%len(fns)]
		}
		size := 8
		big := true
		if f.Shape == "stream" {
			switch r.N(4) {
			case 0:
				size, big = r.N(40), false
			case 1:
				size, big = r.N(1024), false
			case 2:
				size = 1<<uint(12+r.N(6)) + r.N(6000)
			default:
				size = 4096 + r.N(6000)
			}
			if i < len(fns) { // each general function once with a large count
				size, big = 1<<uint(16+(int(*seed)+i)%5)+r.N(6000), true
			}
		}
		in := make([]uint32, size, size+16)
		r.Values(in, r.N(svb.NStyles))
		prev := r.Base(0)
		// the arguments come from the scalar functions
		before := counts()
		res := "panic"
		func() {
			defer func() { recover() }()
			switch f.Kind {
			case "write":
				f.Write(in, prev)
			case "put":
				f.Put(in, make([]byte, 64), 8, prev)
			case "read":
				s := svb.Scalar("write", "stream", f.Delta).Write(in, prev)
				before = counts()
				f.Read(size, s, make([]uint32, size+32), prev)
			case "get":
				b := make([]byte, 64)
				c := svb.Scalar("put", "8", f.Delta).Put(in, b, 8, prev)
				before = counts()
				f.Get(b, make([]uint32, 40), c, 8, prev)
			}
			res = "ok"
		}()
		pkg := "decode"
		if f.Kind == "write" || f.Kind == "put" {
			pkg = "encode"
		}
		after := counts()
		entered := []string{}
		for k := range after {
			if after[k] != before[k] {
				entered = append(entered, k)
			}
		}
		sort.Strings(entered)
		emit(map[string]interface{}{"op": "call", "pkg": pkg, "fn": f.Name, "big": big, "size": size, "counted": counted(), "entered": entered, "res": res})
		if i%5 == 2 {
			mode("encode", encode.GetMode(), "after calls")
			mode("decode", decode.GetMode(), "after calls")
		}
	}
	mode("encode", encode.GetMode(), "end")
	mode("decode", decode.GetMode(), "end")
}
