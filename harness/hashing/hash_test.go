package hashing

import (
	"bytes"
	"crypto/sha3"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/bits"
	"sync"
	"testing"

	"github.com/dusk-network/dusk-crypto/hash"
	"verif/harness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// the references themselves, on published values
func init() {
	h := func(b []byte) string { return hex.EncodeToString(b) }
	ok := h(blake2b([]byte("abc"), 64))[:16] == "ba80a53f981c4d0d" &&
		h(blake2b(nil, 32))[:16] == "0e5751c026e543b2" &&
		xxhash64(nil) == 0xef46db3751d8e999 &&
		xxhash64([]byte("abc")) == 0x44bc2cf5ad770999
	if !ok {
		panic("HARNESS-ERROR: reference hashes")
	}
}

func drawData(c *hx.C) []byte {
	var n int
	switch c.Pick(5, "len.kind") {
	case 0: // around block sizes: 32 (xxHash), 64, 72, 128, 136 and multiples
		bs := hx.Choose(c, "block", 4, 8, 32, 64, 72, 128, 136)
		n = max(0, bs*c.Int(0, 9, "blocks")+c.Int(-2, 2, "off"))
	case 1:
		n = c.Int(0, 40, "len")
	case 2:
		n = c.Int(0, 600, "len")
	case 3:
		n = c.Int(0, 9000, "len")
	default:
		n = c.Int(0, 200, "len")
	}
	if c.Chance(60, "big") {
		n = c.Int(60000, 140000, "len")
		if c.Chance(40, "huge") {
			n = c.Int(1<<20-2, 5<<20, "len")
		}
	}
	b := c.Bytes(n + 16)
	if c.Chance(5, "const") {
		v := hx.Choose(c, "fill", byte(0), byte(0xff), byte(0x80))
		for i := range b {
			b[i] = v
		}
	}
	off := c.Pick(9, "offset") // unaligned too
	return b[off : off+n]
}

var funcs = map[string]struct {
	f   func([]byte) ([]byte, error)
	ref func([]byte) []byte
}{
	"Sha3256":    {hash.Sha3256, func(b []byte) []byte { h := sha3.Sum256(b); return h[:] }},
	"Sha3512":    {hash.Sha3512, func(b []byte) []byte { h := sha3.Sum512(b); return h[:] }},
	"Blake2b256": {hash.Blake2b256, func(b []byte) []byte { return blake2b(b, 32) }},
	"Blake2b512": {hash.Blake2b512, func(b []byte) []byte { return blake2b(b, 64) }},
	"Xxhash":     {hash.Xxhash, func(b []byte) []byte { return binary.BigEndian.AppendUint64(nil, xxhash64(b)) }},
}
var names = []string{"Sha3256", "Sha3512", "Blake2b256", "Blake2b512", "Xxhash"}

func TestC25_Digests(t *testing.T) {
	hx.Check(t, hx.N{Quick: 40000, Thorough: 1500000},
		"byte strings of 0..140000, rarely 5 million, bytes (block boundaries of every function in particular, constant or random, aligned or not) through all five functions and the checksum, compared with crypto/sha3 and own BLAKE2b/xxHash implementations; non-trivial: not empty",
		func(c *hx.C) {
			data := drawData(c)
			copyOf := append([]byte(nil), data[:cap(data)]...)
			for _, n := range names {
				got, err := funcs[n].f(data)
				c.Must(err, n)
				want := funcs[n].ref(copyOf[:len(data)])
				if !bytes.Equal(got, want) {
					c.Fatalf("%s of %s is %x, not %x", n, hx.Short(data), got, want)
				}
				again, err := funcs[n].f(data)
				c.Must(err, n)
				for i := range again { // results do not share memory
					again[i] ^= 0xff
				}
				if !bytes.Equal(got, want) {
					c.Fatalf("%s returns the same memory twice", n)
				}
			}
			sum, err := hash.Checksum(data)
			c.Must(err, "Checksum")
			want := uint32(xxhash64(data) >> 32)
			if sum != want {
				c.Fatalf("Checksum of %s is %08x, not %08x", hx.Short(data), sum, want)
			}
			if !hash.CompareChecksum(data, want) {
				c.Fatalf("CompareChecksum refuses the right value for %s", hx.Short(data))
			}
			wrong := want
			switch c.Pick(4, "wrong") {
			case 0:
				wrong ^= 1 << c.Pick(32, "bit")
			case 1:
				wrong = uint32(xxhash64(data))
			case 2:
				wrong = bits.ReverseBytes32(want)
			default:
				wrong = hx.Choose(c, "value", uint32(0), want+1, want-1, ^want, ^uint32(0))
			}
			if wrong != want && hash.CompareChecksum(data, wrong) {
				c.Fatalf("CompareChecksum accepts %08x instead of %08x", wrong, want)
			}
			if !bytes.Equal(copyOf, data[:cap(data)]) {
				c.Fatalf("the input was modified")
			}
			if len(data) > 0 {
				c.NT(len(data), hx.Short(data))
			}
			c.Note("%s", hx.Short(data))
		})
}

// absorber is a hash object that records what it is given and can fail.
type absorber struct {
	buf    []byte
	failAt int // fail once this many bytes were absorbed; -1 never
}

var errWrite = errors.New("write failed")

func (a *absorber) Write(p []byte) (int, error) {
	if a.failAt >= 0 && len(a.buf)+len(p) > a.failAt {
		n := a.failAt - len(a.buf)
		if n < 0 {
			n = 0
		}
		a.buf = append(a.buf, p[:n]...)
		return n, errWrite
	}
	a.buf = append(a.buf, p...)
	return len(p), nil
}
func (a *absorber) Sum(b []byte) []byte { h := sha3.Sum256(a.buf); return append(b, h[:]...) }
func (a *absorber) Reset()              { a.buf = nil }
func (a *absorber) Size() int           { return 32 }
func (a *absorber) BlockSize() int      { return 136 }

func TestC25_PerformHash(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 600000},
		"hash objects (standard and recording ones) that already absorbed 0..3 chunks and may fail while writing, then one more chunk through PerformHash, repeatedly; non-trivial: something was absorbed before or the write fails",
		func(c *hx.C) {
			var h hash.Hash
			std := c.Bool("std")
			a := &absorber{failAt: -1}
			if std {
				h = sha3.New256()
			} else {
				h = a
			}
			var all []byte
			pre := c.Int(0, 3, "pre")
			for i := 0; i < pre; i++ {
				d := c.Msg("pre")
				h.Write(d)
				all = append(all, d...)
			}
			calls := c.Int(1, 3, "calls")
			nt := pre > 0
			for i := 0; i < calls; i++ {
				d := c.Msg("data")
				fails := false
				if !std && c.Chance(4, "fail") && len(d) > 0 {
					a.failAt = len(a.buf) + c.Pick(len(d), "at")
					fails = true
				}
				got, err := hash.PerformHash(h, d)
				if fails {
					nt = true
					if err == nil {
						c.Fatalf("PerformHash hides a write error")
					}
					if len(got) != 0 {
						c.Fatalf("PerformHash returns a digest together with an error")
					}
					c.Label("failing")
					break
				}
				c.Must(err, "PerformHash")
				all = append(all, d...)
				want := sha3.Sum256(all)
				if !bytes.Equal(got, want[:]) {
					c.Fatalf("PerformHash after %d chunks, call %d: wrong digest", pre, i)
				}
				nt = nt || i > 0
			}
			if nt {
				c.NT(pre, calls, std, len(all))
			}
			c.Note("%d chunks before, %d calls, %d bytes", pre, calls, len(all))
		})
}

type brokenReader struct{ left int }

func (b *brokenReader) Read(p []byte) (int, error) {
	if b.left <= 0 {
		return 0, errors.New("no entropy")
	}
	n := min(len(p), b.left)
	for i := 0; i < n; i++ {
		p[i] = 0x5a
	}
	b.left -= n
	return n, nil
}

func TestC25_Entropy(t *testing.T) {
	hx.Check(t, hx.N{Quick: 4000, Thorough: 100000},
		"requests for 0..5000, rarely a million, random bytes, repeated, compared with each other; non-trivial: 16 bytes or more",
		func(c *hx.C) {
			n := c.Int(0, 64, "n")
			if c.Bool("long") {
				n = c.Int(0, 5000, "n long")
				if c.Chance(60, "huge") {
					n = hx.Choose(c, "size", 1<<13, 1<<15, 1<<16, 1<<16, 1<<17, 1<<20) + c.Int(-40, 5000, "off")
				}
			}
			a, err := hash.RandEntropy(uint32(n))
			c.Must(err, "RandEntropy")
			b, err := hash.RandEntropy(uint32(n))
			c.Must(err, "RandEntropy")
			if len(a) != n || len(b) != n {
				c.Fatalf("asked for %d bytes, got %d and %d", n, len(a), len(b))
			}
			if n >= 16 {
				if bytes.Equal(a, b) {
					c.Fatalf("the same %d bytes twice", n)
				}
				// no 16-byte block of one output occurs at the same place in the
				// other, none is zero, none repeats
				seen := map[string]bool{}
				for i := 0; i+16 <= n; i += 16 {
					for _, x := range [][]byte{a[i : i+16], b[i : i+16]} {
						if bytes.Equal(x, make([]byte, 16)) || seen[string(x)] {
							c.Fatalf("bytes %d..%d of %d are zero or repeated", i, i+16, n)
						}
						seen[string(x)] = true
					}
				}
				// nor does one occur anywhere else
				for _, x := range [][]byte{a, b} {
					for i := 0; i+16 <= n; i++ {
						if i%16 != 0 && seen[string(x[i:i+16])] {
							c.Fatalf("bytes %d..%d of %d are elsewhere too", i, i+16, n)
						}
					}
				}
				if tail := n % 16; tail >= 8 {
					if bytes.Equal(a[n-8:], b[n-8:]) || bytes.Equal(a[n-8:], make([]byte, 8)) {
						c.Fatalf("the last bytes of %d are constant", n)
					}
				}
				c.NT(n, hx.Short(a))
			}
			c.Note("%d bytes: %s", n, hx.Short(a))
		})
}

func TestC25_EntropyBytesVary(t *testing.T) {
	hx.Check(t, hx.N{Quick: 400, Thorough: 8000},
		"64 requests of 1..40 bytes each: every single byte position varies; non-trivial: every case",
		func(c *hx.C) {
			n := c.Int(1, 40, "n")
			first, err := hash.RandEntropy(uint32(n))
			c.Must(err, "RandEntropy")
			varies := make([]bool, n)
			for k := 0; k < 63; k++ {
				x, err := hash.RandEntropy(uint32(n))
				c.Must(err, "RandEntropy")
				for i := range x {
					varies[i] = varies[i] || x[i] != first[i]
				}
			}
			for i, v := range varies {
				if !v {
					c.Fatalf("byte %d of %d is always %02x", i, n, first[i])
				}
			}
			c.NT(n)
			c.Note("%d bytes", n)
		})
}

func TestC25_Concurrent(t *testing.T) {
	hx.Check(t, hx.N{Quick: 200, Thorough: 6000},
		"8 goroutines hash different data at the same time with all functions; non-trivial: every case",
		func(c *hx.C) {
			var data [8][]byte
			for i := range data {
				data[i] = drawData(c)
			}
			var wg sync.WaitGroup
			errs := make([]string, len(data))
			for i := range data {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					if err := hx.NoPanic(func() {
						for _, n := range names {
							got, err := funcs[n].f(data[i])
							if err != nil || !bytes.Equal(got, funcs[n].ref(data[i])) {
								errs[i] = fmt.Sprintf("%s of %s: %x %v", n, hx.Short(data[i]), got, err)
							}
						}
						if !hash.CompareChecksum(data[i], uint32(xxhash64(data[i])>>32)) {
							errs[i] = "CompareChecksum"
						}
					}); err != nil {
						errs[i] = err.Error()
					}
				}(i)
			}
			wg.Wait()
			for _, e := range errs {
				if e != "" {
					c.Fatalf("concurrently: %s", e)
				}
			}
			c.NT(c.Src.Uint64())
			c.Note("8 strings, first %s", hx.Short(data[0]))
		})
}
