//go:build !svbportable

package svb

import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
	"golang.org/x/sys/cpu"
)

// Portable: the library was built from another platform's files.
const Portable = false

// addFast adds the accelerated functions if this machine can run them at all.
func addFast() {
	if !cpu.X86.HasAVX || !cpu.X86.HasAVX2 {
		return
	}
	w("WriteAllFast", "fast", false, func(in []uint32, _ uint32) []byte { return writer.WriteAllFast(in) })
	w("WriteAllDeltaFast", "fast", true, func(in []uint32, p uint32) []byte { return writer.WriteAllDeltaFast(in, p) })
	r("ReadAllFast", "fast", false, func(n int, s []byte, o []uint32, _ uint32) { reader.ReadAllFast(n, s, o) })
	r("ReadAllDeltaFast", "fast", true, func(n int, s []byte, o []uint32, p uint32) { reader.ReadAllDeltaFast(n, s, o, p) })
	p("Put8uint32Fast", "8", "fast", false, func(i []uint32, o []byte, _ int, _ uint32) uint16 { return encode.Put8uint32Fast(i, o) })
	p("Put8uint32DeltaFast", "8", "fast", true, func(i []uint32, o []byte, _ int, p uint32) uint16 { return encode.Put8uint32DeltaFast(i, o, p) })
	g("Get8uint32Fast", "8", "fast", false, func(i []byte, o []uint32, c uint16, _ int, _ uint32) int { decode.Get8uint32Fast(i, o, c); return -1 })
	g("Get8uint32DeltaFast", "8", "fast", true, func(i []byte, o []uint32, c uint16, _ int, p uint32) int {
		decode.Get8uint32DeltaFast(i, o, c, p)
		return -1
	})
	_ = shared.Fast
}
