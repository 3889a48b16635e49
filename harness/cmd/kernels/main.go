// Command kernels runs the accelerated 8-value functions on the inputs of
// jobs (JSON lines) and completes the jobs with what they did: the control
// value and the 32 bytes of the output, -1 for a byte that was not written.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"os"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
)

type job struct {
	P    int    `json:"p"`
	Fn   string `json:"fn"`
	Mode string `json:"mode"`
	Ctrl int    `json:"ctrl"`
	Zero []int  `json:"zero"`
	In   []int  `json:"in"`
	Prev []int  `json:"prev"`
	Out  []int  `json:"out"`
	Ret  int    `json:"ret"`
}

func once(j *job, fill byte) (out [32]byte, ret int) {
	var in [64]byte
	for i := range j.In {
		in[i] = byte(j.In[i])
	}
	prev := uint32(j.Prev[0]) | uint32(j.Prev[1])<<8 | uint32(j.Prev[2])<<16 | uint32(j.Prev[3])<<24
	var words [8]uint32
	var ob [32]byte
	for i := range ob {
		ob[i] = fill
	}
	switch j.Fn {
	case "Put8uint32Fast", "Put8uint32DeltaFast":
		for i := range words {
			words[i] = binary.LittleEndian.Uint32(in[4*i:])
		}
		if j.Fn == "Put8uint32Fast" {
			ret = int(encode.Put8uint32Fast(words[:], ob[:]))
		} else {
			ret = int(encode.Put8uint32DeltaFast(words[:], ob[:], prev))
		}
		return ob, ret
	case "Get8uint32Fast", "Get8uint32DeltaFast":
		for i := range words {
			words[i] = binary.LittleEndian.Uint32(ob[4*i:])
		}
		if j.Fn == "Get8uint32Fast" {
			decode.Get8uint32Fast(in[:32], words[:], uint16(j.Ctrl))
		} else {
			decode.Get8uint32DeltaFast(in[:32], words[:], uint16(j.Ctrl), prev)
		}
		for i := range words {
			binary.LittleEndian.PutUint32(ob[4*i:], words[i])
		}
		return ob, 0
	}
	panic("driver: unknown function " + j.Fn)
}

func main() {
	s := bufio.NewScanner(os.Stdin)
	s.Buffer(nil, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	enc := json.NewEncoder(w)
	for s.Scan() {
		var j job
		if err := json.Unmarshal(s.Bytes(), &j); err != nil {
			panic("driver: " + err.Error())
		}
		a, ra := once(&j, 0xA5)
		b, _ := once(&j, 0x5A)
		j.Out = make([]int, 32)
		for i := range a {
			j.Out[i] = int(a[i])
			if a[i] != b[i] {
				j.Out[i] = -1
			}
		}
		j.Ret = ra
		enc.Encode(&j)
	}
}
