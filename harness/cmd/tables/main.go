// Command tables dumps the shared tables and size helpers as events for
// TraceTables.
package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
)

func join(v []uint8) string {
	s := make([]string, len(v))
	for i, x := range v {
		s[i] = fmt.Sprint(x)
	}
	return strings.Join(s, ",")
}

func main() {
	of := os.Args[1]
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	put := func(what string, c int, v string) {
		fmt.Fprintf(w, `{"what":"%s","of":"%s","c":%d,"v":[%s]}`+"\n", what, of, c, v)
	}
	for c := 0; c < 256; c++ {
		put("numlen", c, join(shared.PerNumLenTable[c][:]))
		put("ctrllen", c, fmt.Sprint(shared.PerControlLenTable[c]))
		put("encode", c, join(shared.EncodeShuffleTable[c][:]))
		put("decode", c, join(shared.DecodeShuffleTable[c][:]))
		put("size", c, fmt.Sprint(shared.ControlByteToSize(uint8(c))))
		var s []string
		for lo := 0; lo < 256; lo++ {
			s = append(s, fmt.Sprint(shared.ControlByteToSizeTwo(uint16(c)<<8|uint16(lo))))
		}
		put("size2", c, strings.Join(s, ","))
	}
}
