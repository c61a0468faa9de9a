package props

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"hash"
	"io"
	"os"
	"os/exec"
	"path/filepath"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/keccak"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C17", Level: "model_checking",
		Rule: "every message length over three rate blocks (several contents) with every two-way split, and every sequence of writes, sums, reads and resets up to a depth, for all four digest sizes, against a bit-level Keccak written from the specification (itself cross-checked with x/crypto where that has the function); " +
			"the same lengths again for the portable and 32-bit builds; a state is a distinct (absorbed length, squeezed length) reached",
		Run: runC17})
}

// A plain Keccak-f[1600] from the specification, with LFSR round constants.
type refSponge struct {
	a    [5][5]uint64
	rate int
}

func rol(x uint64, n uint) uint64 { n %= 64; return x<<n | x>>((64-n)%64) }

var refRC = func() (rc [24]uint64) {
	lfsr := byte(1)
	for r := 0; r < 24; r++ {
		for j := uint(0); j < 7; j++ {
			if lfsr&1 != 0 {
				rc[r] |= 1 << (1<<j - 1)
			}
			hi := lfsr >> 7
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
	return
}()

func (s *refSponge) permute() {
	a := &s.a
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ rol(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x][y] ^= d
			}
		}
		x, y := 1, 0
		cur := a[x][y]
		for t := uint(0); t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x][y] = a[x][y], rol(cur, (t+1)*(t+2)/2)
		}
		var b [5][5]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[x][y] = a[x][y] ^ (^a[(x+1)%5][y] & a[(x+2)%5][y])
			}
		}
		*a = b
		a[0][0] ^= refRC[r]
	}
}

// refXOF is n bytes of output for a message.
func refXOF(rate int, msg []byte, n int) []byte {
	s := &refSponge{}
	p := append(append([]byte(nil), msg...), 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] ^= 0x80
	for len(p) > 0 {
		for i := 0; i < rate; i++ {
			l := i / 8
			s.a[l%5][l/5] ^= uint64(p[i]) << uint(8*(i%8))
		}
		s.permute()
		p = p[rate:]
	}
	var out []byte
	for {
		for i := 0; i < rate && len(out) < n; i++ {
			l := i / 8
			out = append(out, byte(s.a[l%5][l/5]>>uint(8*(i%8))))
		}
		if len(out) >= n {
			return out
		}
		s.permute()
	}
}

type kvariant struct {
	name string
	size int
	mk   func() hash.Hash
	sum  func([]byte) []byte
}

func runC17(r *mc.R) {
	vars := []kvariant{
		{"224", 28, keccak.New224, func(b []byte) []byte { d := keccak.Sum224(b); return d[:] }},
		{"256", 32, keccak.New256, func(b []byte) []byte { d := keccak.Sum256(b); return d[:] }},
		{"384", 48, keccak.New384, func(b []byte) []byte { d := keccak.Sum384(b); return d[:] }},
		{"512", 64, keccak.New512, func(b []byte) []byte { d := keccak.Sum512(b); return d[:] }},
	}
	if !bytes.Equal(refXOF(136, []byte("abc"), 32), refKeccak([]byte("abc"))) {
		panic("reference Keccak is wrong")
	}
	contents := []func(i int) byte{func(i int) byte { return byte(i*7 + 3) }, func(i int) byte { return 0 }, func(i int) byte { return 0xff }}
	blocks := r.N(3, 6)
	r.Explore(mc.Opts{Name: "lengths", Budget: -1, Bound: fmt.Sprintf("4 sizes x lengths 0..%d blocks+2 x 3 contents x all two-way splits", blocks)}, func(x *mc.X) {
		v := vars[x.Choose(4)]
		rate := 200 - 2*v.size
		n := x.Choose(blocks*rate + 3)
		c := contents[x.Choose(3)]
		msg := make([]byte, n)
		for i := range msg {
			msg[i] = c(i)
		}
		keep := append([]byte(nil), msg...)
		want := refXOF(rate, msg, v.size)
		if v.size == 32 && !bytes.Equal(want, refKeccak(msg)) {
			x.R.Cap("references disagree")
		}
		if d := v.sum(msg); !bytes.Equal(d, want) {
			x.Failf("one-shot", "Sum%s of %d bytes = %x, want %x", v.name, n, d, want)
		}
		if v.size == 32 {
			if h := seth.HashBytes(msg); !bytes.Equal(h[:], want) {
				x.Failf("one-shot", "HashBytes of %d bytes = %x, want %x", n, h[:], want)
			}
			if h := seth.HashString(string(msg)); !bytes.Equal(h[:], want) {
				x.Failf("one-shot", "HashString of %d bytes = %x, want %x", n, h[:], want)
			}
		}
		h := v.mk()
		if h.Size() != v.size || h.BlockSize() != rate {
			x.Failf("size", "New%s: Size %d BlockSize %d", v.name, h.Size(), h.BlockSize())
		}
		for cut := 0; cut <= n; cut++ {
			h.Reset()
			h.Write(msg[:cut])
			mid := h.Sum(nil)
			h.Write(msg[cut:])
			if d := h.Sum(nil); !bytes.Equal(d, want) {
				x.Failf("split", "New%s: %d bytes written as %d+%d hash to %x, want %x", v.name, n, cut, n-cut, d, want)
			}
			if cut%16 == 0 {
				if w := refXOF(rate, msg[:cut], v.size); !bytes.Equal(mid, w) {
					x.Failf("split", "New%s: digest after %d bytes %x, want %x", v.name, cut, mid, w)
				}
			}
			x.Step()
			x.State(v.name, fmt.Sprint(cut), fmt.Sprint(n))
		}
		if !bytes.Equal(msg, keep) {
			x.Failf("mutates", "hashing changed the message")
		}
		x.Validated()
	})

	depth := r.N(4, 5)
	r.Explore(mc.Opts{Name: "operations", Budget: -1, Bound: fmt.Sprintf("all sequences of %d operations: 7 write sizes, 3 kinds of sum, 5 read sizes, reset", depth)}, func(x *mc.X) {
		v := vars[x.Choose(4)]
		rate := 200 - 2*v.size
		h := v.mk()
		var msg []byte
		squeezed := -1 // -1: absorbing
		sizes := []int{0, 1, 7, rate - 1, rate, rate + 1, 2*rate - 1}
		reads := []int{0, 1, rate - 1, rate, 2*rate + 1}
		for i := 0; i < depth; i++ {
			x.Step()
			op := x.Choose(len(sizes) + 4 + len(reads))
			switch {
			case op < len(sizes):
				if squeezed >= 0 {
					x.Prune()
				}
				b := make([]byte, sizes[op])
				for j := range b {
					b[j] = byte(len(msg) + j*5 + 1)
				}
				msg = append(msg, b...)
				x.Logf("Write %d bytes", len(b))
				n, err := h.Write(b)
				if n != len(b) || err != nil {
					x.Failf("write", "New%s: Write of %d bytes returns %d, %v", v.name, len(b), n, err)
				}
				for j := range b { // the hash must not have kept the buffer
					b[j] = 0xa5
				}
			case op == len(sizes):
				x.Logf("Reset")
				h.Reset()
				msg, squeezed = nil, -1
			case op < len(sizes)+4:
				if squeezed >= 0 {
					x.Prune()
				}
				var in []byte
				switch op - len(sizes) {
				case 2:
					in = []byte("prefix")
				case 3:
					in = append(make([]byte, 0, 200), "roomy"...)
				}
				x.Logf("Sum(%d bytes, cap %d)", len(in), cap(in))
				want := append(append([]byte(nil), in...), refXOF(rate, msg, v.size)...)
				if got := h.Sum(in); !bytes.Equal(got, want) {
					x.Failf("sum", "New%s: Sum after %d bytes = %x, want %x", v.name, len(msg), got, want)
				}
			default:
				n := reads[op-len(sizes)-4]
				if squeezed < 0 {
					squeezed = 0
				}
				x.Logf("Read %d", n)
				out := make([]byte, n)
				rd, ok := h.(io.Reader)
				if !ok {
					x.Prune() // no extendable output offered
				}
				if m, err := rd.Read(out); m != n || err != nil {
					x.Failf("read", "New%s: Read of %d returns %d, %v", v.name, n, m, err)
				}
				want := refXOF(rate, msg, squeezed+n)[squeezed:]
				if !bytes.Equal(out, want) {
					x.Failf("read", "New%s: output bytes %d..%d after %d bytes = %x, want %x", v.name, squeezed, squeezed+n, len(msg), out, want)
				}
				squeezed += n
			}
			x.State(v.name, fmt.Sprint(len(msg), squeezed))
		}
		x.Validated()
	})

	// other build configurations of the same code
	root := os.Getenv("MC_ROOT")
	for _, cfg := range []struct {
		name string
		args []string
		env  []string
	}{
		{"portable", []string{"-tags", "appengine"}, nil},
		{"32-bit", nil, []string{"GOARCH=386", "CGO_ENABLED=0"}},
		{"32-bit portable", []string{"-tags", "appengine"}, []string{"GOARCH=386", "CGO_ENABLED=0"}},
	} {
		cfg := cfg
		r.Explore(mc.Opts{Name: "build:" + cfg.name, Budget: -1, Serial: true, Bound: "4 sizes x lengths 0..3 blocks+1 x up to 6 splits"}, func(x *mc.X) {
			dir, err := os.MkdirTemp(r.Scratch, "k")
			if err != nil {
				panic(err)
			}
			bin := filepath.Join(dir, "dump")
			for _, f := range []string{"go.mod", "go.sum"} {
				b, err := os.ReadFile(filepath.Join(root, f))
				if err != nil {
					panic(err)
				}
				os.WriteFile(filepath.Join(dir, f), b, 0666)
			}
			cmd := exec.Command("go", append(append([]string{"build", "-modfile", filepath.Join(dir, "go.mod"), "-o", bin}, cfg.args...), "./cmd/keccakdump")...)
			cmd.Dir = root
			cmd.Env = append(os.Environ(), cfg.env...)
			if out, err := cmd.CombinedOutput(); err != nil {
				x.R.Cap(fmt.Sprintf("configuration %s not built: %v %s", cfg.name, err, out))
				return
			}
			out, err := exec.Command(bin).Output()
			if err != nil {
				x.Failf("config", "the %s build fails: %v", cfg.name, err)
			}
			sc := bufio.NewScanner(bytes.NewReader(out))
			ref := map[string]string{}
			for sc.Scan() {
				var v string
				var n, cut int
				var dig string
				fmt.Sscan(sc.Text(), &v, &n, &cut, &dig)
				key := fmt.Sprint(v, " ", n)
				if ref[key] == "" {
					size := map[string]int{"224": 28, "256": 32, "384": 48, "512": 64}[v]
					msg := make([]byte, n)
					for i := range msg {
						msg[i] = byte(i*7 + 3)
					}
					ref[key] = hex.EncodeToString(refXOF(200-2*size, msg, size))
				}
				x.Step()
				if ref[key] != dig {
					x.Failf("config", "the %s build hashes %d bytes written as %d+%d with New%s to %s, want %s", cfg.name, n, cut, n-cut, v, dig, ref[key])
				}
			}
			x.Validated()
		})
	}
}
