// Command driver executes the repository's code and records what it did as
// event files for TLC.  It never decides whether a property holds.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"svbverif/svb"
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	fatal(err)
	fatal(os.WriteFile(path, b, 0o644))
}

func main() {
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("subcommand"))
	}
	cmd := os.Args[1]
	f, ok := commands[cmd]
	if !ok {
		fatal(fmt.Errorf("unknown subcommand %s", cmd))
	}
	f(os.Args[2:])
}

var commands = map[string]func([]string){
	"codec":   codec,
	"info":    info,
	"session": session,
	"conc":    conc,
	"giant":   giant,
}

type famSum struct {
	Name  string
	Calls int
	Done  bool
}

type summary struct {
	Calls, Words, NonTrivial uint64
	Samples, SampleGroups    int
	Cands                    int
	Fams                     []famSum
	Instrumented             bool
	GuardUsed                uint64
	Arch                     string
	Fns                      []string
	First                    []json.RawMessage
}

func families(prop string) (fams []svb.Fam, aspect string) {
	switch prop {
	case "C02":
		return svb.TripFams(), "all"
	case "C05":
		return svb.AgreeFams(), "all"
	}
	return svb.Profile(prop)
}

func codec(args []string) {
	fs := flag.NewFlagSet("codec", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", ".", "")
	budget := fs.Int("budget", 4000, "groups to sample")
	secs := fs.Float64("secs", 60, "")
	cfg := fs.String("cfg", "", "")
	pct := fs.Int("pct", 100, "percent of the families' calls")
	fs.StringVar(&svb.OnlyImpl, "impl", "", "only the functions of this implementation")
	skip := fs.String("skip", "none", "leave out families whose name contains this")
	one := fs.String("one", "", "repeat only family:index, carefully")
	fs.Parse(args)
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS([]int{2, 3, 1, 5, 2, 8, 7, 4}[(*shard%100)%8])

	tag := fmt.Sprintf("%s.%d", *cfg, *shard)
	fams, aspect := families(*prop)
	x := svb.NewExec(1 << 16)
	x.Seed = *seed
	x.Aspect = aspect
	x.Guard.Set(aspect == "memory" || aspect == "all")
	x.Rec = svb.NewRecorder(filepath.Join(*out, "sample."+tag+".ndjson"), filepath.Join(*out, "cand."+tag+".ndjson"), *budget)
	x.Rec.Cfg = *cfg
	pairs := *prop == "C02" || *prop == "C05"

	if *one != "" {
		var fi, idx int
		_, err := fmt.Sscanf(*one, "%d:%d", &fi, &idx)
		fatal(err)
		path := filepath.Join(*out, "careful."+tag+".ndjson")
		x.Careful = func(c *svb.Call) {
			fatal(os.WriteFile(path, svb.CarefulEvent(c, pairs, *cfg), 0o644))
		}
		fams[fi].Run(x, svb.NewRng(*seed, fams[fi].Name, idx), idx, false)
		x.Rec.Close()
		return
	}

	j := journal(filepath.Join(*out, "journal."+tag))
	var sum summary
	start := time.Now()
	total := *secs
	for fi, f := range fams {
		if strings.Contains(f.Name, *skip) {
			continue
		}
		n := f.Quick
		if *tier == "thorough" {
			n = f.Thorough
		}
		if n > 200 {
			n = n * *pct / 100
		}
		// time left, shared by the families left
		left := total - time.Since(start).Seconds()
		lim := time.Now().Add(time.Duration(left / float64(len(fams)-fi) * float64(time.Second)))
		share := *budget * f.Share / 100
		base := x.Rec.SampleGroups
		s := famSum{Name: f.Name, Done: true}
		binary.LittleEndian.PutUint64(j[0:], uint64(fi))
		for i := *shard; i < n; i += *shards {
			binary.LittleEndian.PutUint64(j[8:], uint64(i))
			used := x.Rec.SampleGroups - base
			sample := share > 0 && float64(used) <= float64(share)*float64(i)/float64(n)
			f.Run(x, svb.NewRng(*seed, f.Name, i), i, sample)
			s.Calls++
			if s.Calls%64 == 0 && time.Now().After(lim) {
				s.Done = false
				break
			}
			if x.Rec.Cands > 4*x.Rec.MaxCands {
				s.Done = false
				break
			}
		}
		sum.Fams = append(sum.Fams, s)
	}
	x.Rec.Close()
	sum.Calls, sum.Words, sum.NonTrivial = x.Calls, x.Words, x.NonTrivial
	sum.Samples, sum.SampleGroups, sum.Cands = x.Rec.Samples, x.Rec.SampleGroups, x.Rec.Cands
	sum.Instrumented, sum.GuardUsed = svb.Instrumented, x.Guard.Used()
	sum.Arch = runtime.GOARCH
	writeJSON(filepath.Join(*out, "summary."+tag+".json"), sum)
}

func journal(path string) []byte {
	fatal(os.WriteFile(path, make([]byte, 4096), 0o644))
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	fatal(err)
	defer f.Close()
	m, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	fatal(err)
	return m
}

func info([]string) {
	var names []string
	for _, f := range svb.Fns {
		names = append(names, f.Name)
	}
	b, _ := json.Marshal(map[string]interface{}{"arch": runtime.GOARCH, "fns": names, "instrumented": svb.Instrumented})
	fmt.Println(string(b))
}

func session(args []string) {
	fs := flag.NewFlagSet("session", flag.ExitOnError)
	seed := fs.Uint64("seed", 1, "")
	plans := fs.String("plans", "", "")
	n := fs.Int("n", 100, "histories")
	rec := fs.Int("record", 20, "")
	steps := fs.Int("steps", 60, "")
	out := fs.String("out", ".", "")
	tag := fs.String("tag", "s", "")
	secs := fs.Float64("secs", 20, "")
	fs.Parse(args)
	debug.SetPanicOnFault(true)
	sample, err := os.Create(filepath.Join(*out, "sample."+*tag+".ndjson"))
	fatal(err)
	cand, err := os.Create(filepath.Join(*out, "cand."+*tag+".ndjson"))
	fatal(err)
	var ps [][]svb.PlanOp
	if *plans != "" {
		ps = svb.ReadPlans(*plans)
	}
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	sum := svb.RunHistories(*seed, ps, *n, *rec, *steps, sample, cand, func() bool { return time.Now().After(end) })
	writeJSON(filepath.Join(*out, "summary."+*tag+".json"), sum)
}

func conc(args []string) {
	fs := flag.NewFlagSet("conc", flag.ExitOnError)
	seed := fs.Uint64("seed", 1, "")
	procs := fs.Int("procs", 8, "")
	calls := fs.Int("calls", 20000, "")
	words := fs.Int("words", 600, "")
	out := fs.String("out", ".", "")
	tag := fs.String("tag", "c", "")
	fs.Parse(args)
	sample, err := os.Create(filepath.Join(*out, "sample."+*tag+".ndjson"))
	fatal(err)
	cand, err := os.Create(filepath.Join(*out, "cand."+*tag+".ndjson"))
	fatal(err)
	sum := svb.Conc(*seed, *procs, *calls, *words, sample, cand)
	writeJSON(filepath.Join(*out, "summary."+*tag+".json"), sum)
}
