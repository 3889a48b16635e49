//go:build svbinstr

package main

import (
	"sync/atomic"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
)

func counted() bool { return len(encode.VerifKernels) > 0 && len(decode.VerifKernels) > 0 }

func counts() map[string]uint64 {
	m := map[string]uint64{}
	for k, p := range encode.VerifKernels {
		m["encode."+k] = atomic.LoadUint64(p)
	}
	for k, p := range decode.VerifKernels {
		m["decode."+k] = atomic.LoadUint64(p)
	}
	return m
}
