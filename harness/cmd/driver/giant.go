//go:build linux && amd64

package main

import (
	"flag"
	"os"
	"runtime/debug"

	"svbverif/svb"
)

// giant makes one giant call.
func giant(args []string) {
	fs := flag.NewFlagSet("giant", flag.ExitOnError)
	fn := fs.String("fn", "", "")
	log := fs.Int("log", 29, "")
	seed := fs.Uint64("seed", 1, "")
	out := fs.String("out", "", "")
	fs.Parse(args)
	debug.SetGCPercent(-1)
	fatal(os.WriteFile(*out, svb.Giant(*seed, *fn, *log), 0o644))
}
