package rings

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"testing"
	"testing/iotest"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"verif/harness/hx"
	"verif/harness/ref"
)

var errIO = errors.New("i/o error of the test")

// stopAfter fails after n bytes: for good, or for one call only.
type stopAfter struct {
	n      int
	once   bool
	failed bool
}

func (s *stopAfter) Write(p []byte) (int, error) {
	if s.once && s.failed {
		return len(p), nil
	}
	if len(p) > s.n {
		n := s.n
		s.n = 0
		s.failed = true
		return n, errIO
	}
	s.n -= len(p)
	return len(p), nil
}

func failing(c *hx.C, n int) *stopAfter { return &stopAfter{n: n, once: c.Bool("once")} }

// brokenReader fails after n bytes: for good, or for one call only.
func brokenReader(c *hx.C, b []byte, n int) io.Reader {
	if c.Bool("once") {
		return io.MultiReader(bytes.NewReader(b[:n]), &stumble{}, bytes.NewReader(b[n:]))
	}
	return io.MultiReader(bytes.NewReader(b[:n]), iotest.ErrReader(errIO))
}

type stumble struct{ done bool }

func (s *stumble) Read([]byte) (int, error) {
	if s.done {
		return 0, io.EOF
	}
	s.done = true
	return 0, errIO
}

func anyScalar(c *hx.C) S {
	switch c.Src.IntN(6) {
	case 0:
		return ref.Int(int64(c.Src.IntN(4)) - 2)
	case 1:
		return ref.Big(new(big.Int).Lsh(big.NewInt(1), uint(c.Src.IntN(252))))
	}
	return rnd(c)
}

// badPoint is a string of 32 bytes that encodes no group element.
func badPoint(c *hx.C) []byte {
	for i := 0; i < 1000; i++ {
		var b []byte
		switch c.Pick(4, "bad.kind") {
		case 0:
			b = bytes.Repeat([]byte{0xff}, 32)
		case 1: // p, p+1, ...: not canonical
			b = bytes.Repeat([]byte{0xff}, 32)
			b[31] = 0x7f
			b[0] = 0xed + byte(c.Pick(10, "bad.off"))
		case 2: // negative
			b = c.Bytes(32)
			b[31] &= 0x7f
			b[0] |= 1
		default:
			b = c.Bytes(32)
			b[31] &= 0x7f
			b[0] &= 0xfe
		}
		if _, ok := ref.DecodeP(b); !ok {
			return b
		}
	}
	panic("HARNESS-ERROR: no bad point")
}

// drawRing draws a signature object with n members of k keys, valid or not.
func drawRing(c *hx.C, n, k int) *ref.Ring {
	r := &ref.Ring{C: anyScalar(c)}
	for i := 0; i < n; i++ {
		var row []S
		for j := 0; j < k; j++ {
			row = append(row, anyScalar(c))
		}
		r.R = append(r.R, row)
		r.K = append(r.K, drawMember(c, k))
	}
	return r
}

func drawSize(c *hx.C, label string) int {
	if c.Chance(30, label+".large") {
		return c.Int(30, 300, label)
	}
	return c.Int(0, 20, label)
}

func TestC19_RoundTrip(t *testing.T) {
	hx.Check(t, hx.N{Quick: 16000, Thorough: 500000},
		"signature objects with 0..20 (rarely up to 300) members and 1..6 keys each, repeated and neutral keys, zero and extreme scalars, also real ones: decoded from an independent encoding with and without keys inside a longer stream, through slow readers, into fresh and used receivers; the decoder consumes exactly the encoding; every key, the order and the bytes encoded again are compared; failing writers are reported; non-trivial: at least one member",
		func(c *hx.C) {
			n, k := drawSize(c, "members"), c.Int(1, 6, "keys")
			r := drawRing(c, n, k)
			if c.Chance(6, "real") {
				secrets := mlsagS.secrets(c)
				var err error
				r, _, err = signM(secrets, distinctMembers(c, c.Pick(8, "decoys"), 2), c.Msg("msg"))
				c.Must(err, "sign")
				n, k = len(r.K), 2
			}
			keys := c.Bool("with keys")
			good := r.Bytes(keys)
			tail := c.Bytes(c.Pick(100, "tail"))
			src := bytes.NewReader(append(append([]byte(nil), good...), tail...))
			var rd io.Reader = src
			slow := c.Pick(4, "reader")
			switch slow {
			case 0:
				rd = iotest.OneByteReader(src)
			case 1:
				rd = iotest.HalfReader(src)
			case 2:
				rd = iotest.DataErrReader(src)
			}
			var s mlsag.Signature
			used := n > 0 && c.Bool("used")
			if used {
				c.Must(s.Decode(bytes.NewReader(drawRing(c, c.Int(1, 5, "n0"), c.Int(1, 4, "k0")).Bytes(true)), true), "Decode")
			}
			c.Must(s.Decode(rd, keys), "Decode")
			if slow != 2 { // that reader reads ahead
				if rest, _ := io.ReadAll(src); !bytes.Equal(rest, tail) {
					c.Fatalf("%d members of %d keys: %d bytes left instead of %d", n, k, len(rest), len(tail))
				}
			}
			if keys && n > 0 {
				if len(s.PubKeys) != n {
					c.Fatalf("%d members of %d keys: %d decoded", n, k, len(s.PubKeys))
				}
				for i := range s.PubKeys {
					if s.PubKeys[i].Len() != k || !bytes.Equal(pkBytes(s.PubKeys[i]), rowBytes(r.K[i])) {
						c.Fatalf("%d members of %d keys: member %d differs", n, k, i)
					}
					if o := s.PubKeys[i].OutputKey(); !ref.PEq(o, r.K[i][0]) {
						c.Fatalf("%d members of %d keys: OutputKey of member %d is not its first key", n, k, i)
					}
				}
			}
			s.PubKeys = nil
			for _, m := range r.K {
				s.PubKeys = append(s.PubKeys, pubKeys(m))
			}
			if got := sigBytes(&s, keys); !bytes.Equal(got, good) {
				c.Fatalf("%d members of %d keys, with keys %v: encoded again to other bytes (%d instead of %d)", n, k, keys, len(got), len(good))
			}
			if !bytes.Equal(sigBytes(&s, true), r.Bytes(true)) || !bytes.Equal(sigBytes(&s, false), r.Bytes(false)) {
				c.Fatalf("%d members of %d keys: wrong encoding", n, k)
			}
			at := c.Pick(len(good), "fail at")
			if s.Encode(failing(c, at), keys) == nil {
				c.Fatalf("%d members of %d keys: the writer failed after %d of %d bytes and nothing was reported", n, k, at, len(good))
			}
			if n > 0 {
				c.NT(n, k, keys, used, hx.Short(good))
			}
			c.Label(fmt.Sprintf("keys %v used %v", keys, used))
			c.Note("%d members of %d keys, with keys %v, receiver used %v", n, k, keys, used)
		})
}

func TestC19_Huge(t *testing.T) {
	hx.Check(t, hx.N{Quick: 40, Thorough: 400},
		"signature objects with 128..5000, rarely 65537, members of one or two keys, or 1..3 members of 100..1025 keys: decoded from an independent encoding and encoded again, compared with a copy and with one whose last member differs; non-trivial: all",
		func(c *hx.C) {
			n, k := 1, 1
			switch c.Pick(4, "kind") {
			case 0:
				n = hx.Choose(c, "n", 65535, 65536, 65537)
			case 1, 2:
				n, k = hx.Choose(c, "n", 128, 254, 255, 256, 257, 511, 512, 1000, 1024, 2048, 4095, 4096, 5000), c.Int(1, 2, "k")
			default:
				n, k = c.Int(1, 3, "n"), hx.Choose(c, "k", 100, 127, 128, 255, 256, 257, 300, 512, 1025)
			}
			r := &ref.Ring{C: rnd(c)}
			for i := 0; i < n; i++ {
				row, keys := make([]S, k), make([]P, k)
				for j := range row {
					row[j], keys[j] = ref.Int(int64(c.Src.Uint64()>>1)), stock[c.Src.IntN(len(stock))]
				}
				r.R, r.K = append(r.R, row), append(r.K, keys)
			}
			withKeys := n < 60000 || c.Bool("with keys")
			good := r.Bytes(withKeys)
			var s, o mlsag.Signature
			c.Must(s.Decode(bytes.NewReader(good), withKeys), "Decode")
			if !bytes.Equal(sigBytes(&s, withKeys), good) {
				c.Fatalf("%d members of %d keys: encoded again to other bytes", n, k)
			}
			bad := append([]byte(nil), good...)
			binary.BigEndian.PutUint64(bad[32+8+32*(n*k-1):], c.Src.Uint64())
			c.Must(o.Decode(bytes.NewReader(bad), withKeys), "Decode")
			if o.Equals(s, withKeys) || s.Equals(o, withKeys) || !s.Equals(s, withKeys) {
				c.Fatalf("%d members of %d keys: equal to one with another last response", n, k)
			}
			cut := c.Int(1, 33, "cut")
			if new(mlsag.Signature).Decode(bytes.NewReader(good[:len(good)-cut]), withKeys) == nil {
				c.Fatalf("%d members of %d keys: %d bytes too few, no error", n, k, cut)
			}
			c.NT(n, k, withKeys, r.C)
			c.Note("%d members of %d keys, with keys %v", n, k, withKeys)
		})
}

func TestC19_Malformed(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 500000},
		"encodings of 1..12 members with 1..5 keys cut at any byte, with bytes that encode no group element in any key slot, with prefixes that promise more members or responses (up to 2^22 each) or no responses, or read from a reader that fails: an error, and memory in proportion to the input; non-trivial: all",
		func(c *hx.C) {
			n, k := c.Int(1, 12, "members"), c.Int(1, 5, "keys")
			r := drawRing(c, n, k)
			keys := c.Bool("with keys")
			b := r.Bytes(keys)
			what := ""
			var rd io.Reader
			switch c.Pick(6, "kind") {
			case 0:
				at := c.Pick(len(b), "cut")
				if c.Chance(3, "aligned") && at > 40 {
					at = 40 + (at-40)/32*32
				}
				what = fmt.Sprintf("cut to %d of %d", at, len(b))
				b = b[:at]
			case 1:
				if !keys {
					b = r.Bytes(true)
					keys = true
				}
				s := c.Pick(n*k, "slot")
				copy(b[40+32*(n*k+s):], badPoint(c))
				what = fmt.Sprintf("bad point in slot %d of %d", s, n*k)
			case 2:
				m := uint32(n) + hx.Choose(c, "n", uint32(1), 2, 100, 1<<16, 1<<20, 1<<22)
				binary.BigEndian.PutUint32(b[32:], m)
				what = fmt.Sprintf("promises %d members instead of %d", m, n)
				if pr, _, err := ref.ParseRing(b, keys); err == nil && pr != nil {
					return // keys taken for responses
				}
			case 3:
				m := uint32(k) + hx.Choose(c, "k", uint32(1), 2, 100, 1<<16, 1<<20, 1<<22)
				binary.BigEndian.PutUint32(b[36:], m)
				what = fmt.Sprintf("promises %d keys instead of %d", m, k)
				if pr, _, err := ref.ParseRing(b, keys); err == nil && pr != nil {
					return
				}
			case 4:
				binary.BigEndian.PutUint32(b[36:], 0)
				if c.Bool("many") {
					binary.BigEndian.PutUint32(b[32:], hx.Choose(c, "n", uint32(1), 1<<16, 1<<22))
				}
				what = "promises members without responses"
			default:
				at := c.Pick(len(b), "fail at")
				rd = brokenReader(c, b, at)
				what = fmt.Sprintf("reader fails after %d of %d", at, len(b))
			}
			if rd == nil {
				rd = bytes.NewReader(b)
				if c.Chance(4, "slow") {
					rd = iotest.OneByteReader(rd)
				}
			}
			var s mlsag.Signature
			var err error
			if a := hx.Alloc(func() { err = s.Decode(rd, keys) }); a > 1<<20+400*uint64(len(b)) {
				c.Fatalf("%s: %d bytes of memory for an input of %d", what, a, len(b))
			}
			if err == nil {
				c.Fatalf("%d members of %d keys, with keys %v: %s: no error", n, k, keys, what)
			}
			c.NT(n, k, keys, what)
			c.Note("%d members of %d keys, with keys %v: %s", n, k, keys, what)
		})
}

func TestC19_Vectors(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 500000},
		"key vectors and response vectors of 0..40 entries on their own: round trip against an independent encoding inside a longer stream, exactly the encoding consumed; cuts, undecodable points, a count that promises more, failing readers and writers are errors, memory in proportion; non-trivial: at least one entry",
		func(c *hx.C) {
			n := c.Int(0, 40, "n")
			isKeys := c.Bool("keys")
			var want []byte
			var ps []P
			var ss []S
			for i := 0; i < n; i++ {
				if isKeys {
					ps = append(ps, drawMember(c, 1)[0])
					want = append(want, ps[i].Bytes()...)
				} else {
					ss = append(ss, anyScalar(c))
					want = append(want, ss[i].Bytes()...)
				}
			}
			var resp mlsag.Responses
			for _, s := range ss {
				resp.AddResponse(s)
			}
			pk := pubKeys(ps)
			enc := func(w io.Writer) error {
				if isKeys {
					return pk.Encode(w)
				}
				return resp.Encode(w)
			}
			dec := func(r io.Reader, n uint32) ([]byte, int, error) {
				var b bytes.Buffer
				if isKeys {
					var p mlsag.PubKeys
					err := p.Decode(r, n)
					if err == nil {
						c.Must(p.Encode(&b), "Encode")
					}
					return b.Bytes(), p.Len(), err
				}
				var p mlsag.Responses
				err := p.Decode(r, n)
				if err == nil {
					c.Must(p.Encode(&b), "Encode")
					for i := range p {
						if !ref.Eq(p[i], ss[i]) {
							c.Fatalf("response %d of %d differs", i, n)
						}
					}
				}
				return b.Bytes(), p.Len(), err
			}
			var w bytes.Buffer
			c.Must(enc(&w), "Encode")
			if !bytes.Equal(w.Bytes(), want) {
				c.Fatalf("keys %v: %d entries: wrong encoding", isKeys, n)
			}
			if len(want) > 0 && enc(failing(c, c.Pick(len(want), "fail at"))) == nil {
				c.Fatalf("a failing writer is not reported")
			}
			tail := c.Bytes(c.Pick(100, "tail"))
			src := bytes.NewReader(append(append([]byte(nil), want...), tail...))
			var rd io.Reader = src
			if c.Bool("slow") {
				rd = iotest.OneByteReader(src)
			}
			got, l, err := dec(rd, uint32(n))
			c.Must(err, "Decode")
			if l != n || !bytes.Equal(got, want) {
				c.Fatalf("keys %v: %d entries: decoded to something else", isKeys, n)
			}
			if rest, _ := io.ReadAll(src); !bytes.Equal(rest, tail) {
				c.Fatalf("keys %v: %d entries: %d bytes left instead of %d", isKeys, n, len(rest), len(tail))
			}
			b, count, what := append([]byte(nil), want...), uint32(n), ""
			rd = nil
			switch kind := c.Pick(4, "bad"); {
			case kind == 0 && n > 0:
				b = b[:c.Pick(len(b), "cut")]
				what = fmt.Sprintf("cut to %d", len(b))
			case kind == 1 && n > 0 && isKeys:
				at := c.Pick(n, "slot")
				copy(b[32*at:], badPoint(c))
				what = fmt.Sprintf("bad point in slot %d", at)
			case kind == 2 && n > 0:
				rd = brokenReader(c, b, c.Pick(len(b), "fail at"))
				what = "failing reader"
			default:
				count += hx.Choose(c, "promise", uint32(1), 2, 100, 1<<16, 1<<20, 1<<22)
				what = fmt.Sprintf("count %d", count)
			}
			if rd == nil {
				rd = bytes.NewReader(b)
			}
			if a := hx.Alloc(func() { _, _, err = dec(rd, count) }); a > 1<<20+400*uint64(len(b)) {
				c.Fatalf("%s: %d bytes of memory for an input of %d", what, a, len(b))
			}
			if err == nil {
				c.Fatalf("keys %v: %d entries: %s: no error", isKeys, n, what)
			}
			if n > 0 {
				c.NT(n, isKeys, what)
			}
			c.Note("keys %v: %d entries, then %s", isKeys, n, what)
		})
}

func TestC19_EarlierCopies(t *testing.T) {
	hx.Check(t, hx.N{Quick: 5000, Thorough: 120000},
		"a signature decoded, copied by assignment, and the object decoded into once or more again, from whole or cut encodings, with keys or without: the copies and the keys taken from the object keep what they held; non-trivial: the second encoding is a different one",
		func(c *hx.C) {
			var s mlsag.Signature
			type kept struct {
				s    mlsag.Signature
				keys []mlsag.PubKeys
				want []byte
				k    [][]byte
			}
			var all []kept
			diff := false
			for k := c.Int(2, 4, "times"); k > 0; k-- {
				r := drawRing(c, c.Int(1, 6, "n"), c.Int(1, 4, "k"))
				keys := !c.Chance(4, "without keys")
				b := r.Bytes(keys)
				cut := c.Chance(4, "cut")
				if cut {
					b = b[:c.Pick(len(b), "at")]
				}
				err := s.Decode(bytes.NewReader(b), keys)
				if !cut {
					c.Must(err, "Decode")
				}
				for i, x := range all {
					if !bytes.Equal(sigBytes(&x.s, true), x.want) {
						c.Fatalf("copy %d changed when the object was decoded into again (error %v)", i, err)
					}
					for j := range x.keys {
						if !bytes.Equal(pkBytes(x.keys[j]), x.k[j]) {
							c.Fatalf("the keys taken from the object changed (copy %d)", i)
						}
					}
				}
				if err == nil && !cut && keys {
					diff = diff || len(all) > 0 && !bytes.Equal(all[0].want, b)
					x := kept{s: s, keys: s.PubKeys, want: sigBytes(&s, true)}
					for _, p := range s.PubKeys {
						x.k = append(x.k, pkBytes(p))
					}
					all = append(all, x)
				}
			}
			if diff {
				c.NT(len(all), hx.Short(all[0].want))
			}
		})
}
