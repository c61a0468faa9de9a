// keccakdump prints digests of pattern messages of every length, written whole
// and in unequal pieces. It is built for other configurations of the hash code
// (portable permutation, 32-bit) and its output compared by the C17 check.
package main

import (
	"bufio"
	"fmt"
	"hash"
	"os"

	"github.com/philhofer/seth/keccak"
)

func main() {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for _, v := range []struct {
		n  string
		mk func() hash.Hash
	}{{"224", keccak.New224}, {"256", keccak.New256}, {"384", keccak.New384}, {"512", keccak.New512}} {
		h := v.mk()
		rate := h.BlockSize()
		for l := 0; l <= 3*rate+1; l++ {
			msg := make([]byte, l)
			for i := range msg {
				msg[i] = byte(i*7 + 3)
			}
			for _, cut := range []int{0, 1, rate - 1, rate, rate + 1, l - 1} {
				if cut > l || cut < 0 {
					continue
				}
				// shift by one so that the data is not aligned
				buf := append(make([]byte, 1), msg...)[1:]
				h.Reset()
				h.Write(buf[:cut])
				h.Write(buf[cut:])
				fmt.Fprintf(w, "%s %d %d %x\n", v.n, l, cut, h.Sum(nil))
			}
		}
	}
}
