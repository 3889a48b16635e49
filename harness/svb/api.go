package svb

import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

// Key names a function under test.
type Key struct {
	Kind, Shape, Impl string
	Delta             bool
}

type WriteFn func(in []uint32, prev uint32) []byte
type ReadFn func(count int, stream []byte, out []uint32, prev uint32)
type PutFn func(in []uint32, out []byte, count int, prev uint32) uint16
type GetFn func(in []byte, out []uint32, ctrl uint16, count int, prev uint32) int

// Fn is one function under test.
type Fn struct {
	Key
	Name  string
	Write WriteFn
	Read  ReadFn
	Put   PutFn
	Get   GetFn
}

// Fns lists every public function under test available on this platform.
var Fns []*Fn

func w(name, impl string, delta bool, f WriteFn) {
	Fns = append(Fns, &Fn{Key: Key{"write", "stream", impl, delta}, Name: name, Write: f})
}
func r(name, impl string, delta bool, f ReadFn) {
	Fns = append(Fns, &Fn{Key: Key{"read", "stream", impl, delta}, Name: name, Read: f})
}
func p(name, shape, impl string, delta bool, f PutFn) {
	Fns = append(Fns, &Fn{Key: Key{"put", shape, impl, delta}, Name: name, Put: f})
}
func g(name, shape, impl string, delta bool, f GetFn) {
	Fns = append(Fns, &Fn{Key: Key{"get", shape, impl, delta}, Name: name, Get: f})
}

func init() {
	w("WriteAll", "auto", false, func(in []uint32, _ uint32) []byte { return writer.WriteAll(in) })
	w("WriteAllScalar", "scalar", false, func(in []uint32, _ uint32) []byte { return writer.WriteAllScalar(in) })
	w("WriteAllDelta", "auto", true, func(in []uint32, p uint32) []byte { return writer.WriteAllDelta(in, p) })
	w("WriteAllDeltaScalar", "scalar", true, func(in []uint32, p uint32) []byte { return writer.WriteAllDeltaScalar(in, p) })

	r("ReadAll", "auto", false, func(n int, s []byte, o []uint32, _ uint32) { reader.ReadAll(n, s, o) })
	r("ReadAllScalar", "scalar", false, func(n int, s []byte, o []uint32, _ uint32) { reader.ReadAllScalar(n, s, o) })
	r("ReadAllDelta", "auto", true, func(n int, s []byte, o []uint32, p uint32) { reader.ReadAllDelta(n, s, o, p) })
	r("ReadAllDeltaScalar", "scalar", true, func(n int, s []byte, o []uint32, p uint32) { reader.ReadAllDeltaScalar(n, s, o, p) })

	p("Put8uint32", "8", "auto", false, func(i []uint32, o []byte, _ int, _ uint32) uint16 { return encode.Put8uint32(i, o) })
	p("Put8uint32Delta", "8", "auto", true, func(i []uint32, o []byte, _ int, p uint32) uint16 { return encode.Put8uint32Delta(i, o, p) })
	p("Put8uint32Scalar", "8", "scalar", false, func(i []uint32, o []byte, _ int, _ uint32) uint16 { return encode.Put8uint32Scalar(i, o) })
	p("Put8uint32DeltaScalar", "8", "scalar", true, func(i []uint32, o []byte, _ int, p uint32) uint16 { return encode.Put8uint32DeltaScalar(i, o, p) })
	p("Put4uint32Scalar", "4", "scalar", false, func(i []uint32, o []byte, _ int, _ uint32) uint16 { return uint16(encode.Put4uint32Scalar(i, o)) })
	p("Put4uint32DeltaScalar", "4", "scalar", true, func(i []uint32, o []byte, _ int, p uint32) uint16 {
		return uint16(encode.Put4uint32DeltaScalar(i, o, p))
	})
	p("PutUint32Scalar", "upto4", "scalar", false, func(i []uint32, o []byte, n int, _ uint32) uint16 { return uint16(encode.PutUint32Scalar(i, o, n)) })
	p("PutUint32DeltaScalar", "upto4", "scalar", true, func(i []uint32, o []byte, n int, p uint32) uint16 {
		return uint16(encode.PutUint32DeltaScalar(i, o, n, p))
	})

	g("Get8uint32", "8", "auto", false, func(i []byte, o []uint32, c uint16, _ int, _ uint32) int { decode.Get8uint32(i, o, c); return -1 })
	g("Get8uint32Delta", "8", "auto", true, func(i []byte, o []uint32, c uint16, _ int, p uint32) int {
		decode.Get8uint32Delta(i, o, c, p)
		return -1
	})
	g("Get8uint32Scalar", "8", "scalar", false, func(i []byte, o []uint32, c uint16, _ int, _ uint32) int { decode.Get8uint32Scalar(i, o, c); return -1 })
	g("Get8uint32DeltaScalar", "8", "scalar", true, func(i []byte, o []uint32, c uint16, _ int, p uint32) int {
		decode.Get8uint32DeltaScalar(i, o, c, p)
		return -1
	})
	g("Get4uint32Scalar", "4", "scalar", false, func(i []byte, o []uint32, c uint16, _ int, _ uint32) int {
		decode.Get4uint32Scalar(i, o, uint8(c))
		return -1
	})
	g("Get4uint32DeltaScalar", "4", "scalar", true, func(i []byte, o []uint32, c uint16, _ int, p uint32) int {
		decode.Get4uint32DeltaScalar(i, o, uint8(c), p)
		return -1
	})
	g("GetUint32Scalar", "upto4", "scalar", false, func(i []byte, o []uint32, c uint16, n int, _ uint32) int {
		return decode.GetUint32Scalar(i, o, uint8(c), n)
	})
	g("GetUint32DeltaScalar", "upto4", "scalar", true, func(i []byte, o []uint32, c uint16, n int, p uint32) int {
		return decode.GetUint32DeltaScalar(i, o, uint8(c), n, p)
	})
	addFast()
}

// General lists the general functions.
func General() (l []*Fn) {
	for _, f := range Fns {
		if f.Impl == "auto" {
			l = append(l, f)
		}
	}
	return
}

// Scalar returns a scalar function.
func Scalar(kind, shape string, delta bool) *Fn {
	for _, f := range Fns {
		if f.Key == (Key{kind, shape, "scalar", delta}) {
			return f
		}
	}
	panic("driver: no such function")
}
