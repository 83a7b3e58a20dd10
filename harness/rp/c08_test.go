package rp

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"testing"
	"testing/iotest"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"verif/harness/hx"
	"verif/harness/ref"
)

// points are taken from a fixed stock: making them is slow
var stock []P

func init() {
	for i := 0; i < 64; i++ {
		stock = append(stock, ref.HashP([]byte(fmt.Sprint("stock", i))))
	}
	stock = append(stock, ref.Base(), ref.ValueBase())
}

func anyPoint(c *hx.C) P {
	if c.Src.IntN(12) == 0 {
		return ref.Zero()
	}
	return stock[c.Src.IntN(len(stock))]
}

func anyScalar(c *hx.C) S {
	switch c.Src.IntN(6) {
	case 0:
		return ref.Int(int64(c.Src.IntN(4)) - 2)
	case 1:
		return ref.Big(new(big.Int).Lsh(big.NewInt(1), uint(c.Src.IntN(252))))
	}
	return rnd(c)
}

// drawObject: a proof object of any shape, valid or not.
func drawObject(c *hx.C) *ref.Range {
	r := &ref.Range{A: anyPoint(c), S: anyPoint(c), T1: anyPoint(c), T2: anyPoint(c), Taux: anyScalar(c), Mu: anyScalar(c),
		T: anyScalar(c), Aip: anyScalar(c), Bip: anyScalar(c)}
	for i := hx.Choose(c, "V", 0, 1, 2, 3, 4, 5, 8, 16, 17, 20); i > 0; i-- {
		r.V = append(r.V, anyPoint(c))
	}
	for i := c.Int(0, 12, "L"); i > 0; i-- {
		r.L, r.R = append(r.L, anyPoint(c)), append(r.R, anyPoint(c))
	}
	return r
}

func samePoints(a, b []P) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !ref.PEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// holds compares a decoded object with what was encoded, field by field where
// fields are visible.
func holds(p *rangeproof.Proof, r *ref.Range, commits bool) string {
	switch {
	case commits && !samePoints(values(p.V), r.V):
		return "commitments differ"
	case !samePoints([]P{p.A, p.S, p.T1, p.T2}, []P{r.A, r.S, r.T1, r.T2}):
		return "A, S, T1 or T2 differ"
	case p.IPProof == nil:
		return "no inner-product proof"
	case !samePoints(p.IPProof.L, r.L) || !samePoints(p.IPProof.R, r.R):
		return "L or R differ"
	case !ref.Eq(p.IPProof.A, r.Aip) || !ref.Eq(p.IPProof.B, r.Bip):
		return "a or b differ"
	}
	return ""
}

// chop is a reader that delivers few bytes at a time.
func chop(c *hx.C, b []byte) io.Reader {
	r := io.Reader(bytes.NewReader(b))
	switch c.Pick(5, "reader") {
	case 0:
		return iotest.OneByteReader(r)
	case 1:
		return iotest.HalfReader(r)
	case 2:
		return iotest.DataErrReader(r)
	}
	return r
}

var errIO = errors.New("i/o error of the test")

// stopAfter fails after n bytes: for good, or for one call only.
type stopAfter struct {
	n      int
	once   bool
	failed bool
}

func (s *stopAfter) Write(p []byte) (int, error) {
	if s.once && s.failed {
		return len(p), nil
	}
	if len(p) > s.n {
		n := s.n
		s.n = 0
		s.failed = true
		return n, errIO
	}
	s.n -= len(p)
	return len(p), nil
}

func failing(c *hx.C, n int) *stopAfter { return &stopAfter{n: n, once: c.Bool("once")} }

// brokenReader fails after n bytes: for good, or for one call only.
func brokenReader(c *hx.C, b []byte, n int) io.Reader {
	if c.Bool("once") {
		return io.MultiReader(bytes.NewReader(b[:n]), &stumble{}, bytes.NewReader(b[n:]))
	}
	return io.MultiReader(bytes.NewReader(b[:n]), iotest.ErrReader(errIO))
}

type stumble struct{ done bool }

func (s *stumble) Read([]byte) (int, error) {
	if s.done {
		return 0, io.EOF
	}
	s.done = true
	return 0, errIO
}

func TestC08_RangeProofs(t *testing.T) {
	hx.Check(t, hx.N{Quick: 12000, Thorough: 300000},
		"proof objects of any shape (0..20 commitments, 0..12 L/R pairs, neutral and repeated points, zero and extreme scalars), encoded with and without commitments, through readers that deliver few bytes, into fresh and used receivers; bytes compared with an independent encoder; non-trivial: all",
		func(c *hx.C) {
			r := drawObject(c)
			commits := c.Bool("commits")
			want := r.Tail()
			if commits {
				want = r.Bytes()
			}
			var p rangeproof.Proof
			used := c.Bool("used")
			if used { // holds something else before
				c.Must(p.Decode(bytes.NewReader(drawObject(c).Bytes()), true), "Decode")
			}
			c.Must(p.Decode(chop(c, want), commits), "Decode")
			if msg := holds(&p, r, commits); msg != "" {
				c.Fatalf("%d commitments, %d rounds, commits %v: %s", len(r.V), len(r.L), commits, msg)
			}
			if !commits {
				p.V = nil
				for _, v := range r.V {
					p.V = append(p.V, pedersen.Commitment{Value: v, BlindingFactor: rnd(c)})
				}
			}
			if got := encode(&p, commits); !bytes.Equal(got, want) {
				c.Fatalf("%d commitments, %d rounds: encoded again to other bytes (%d instead of %d)", len(r.V), len(r.L), len(got), len(want))
			}
			// the other form, from the same object
			if !bytes.Equal(encode(&p, true), r.Bytes()) || !bytes.Equal(encode(&p, false), r.Tail()) {
				c.Fatalf("%d commitments, %d rounds: wrong encoding", len(r.V), len(r.L))
			}
			q, err := decode(r.Bytes(), true)
			c.Must(err, "Decode")
			if !q.Equals(p, true) || !p.Equals(q, true) {
				c.Fatalf("decoded twice, not equal")
			}
			// a writer that fails
			k := c.Pick(len(want), "fail at")
			if err := p.Encode(failing(c, k), commits); err == nil {
				c.Fatalf("the writer failed after %d of %d bytes and nothing was reported", k, len(want))
			}
			c.NT(len(r.V), len(r.L), commits, used, hx.Short(want))
			c.Note("%d commitments, %d rounds, included %v", len(r.V), len(r.L), commits)
		})
}

func TestC08_Huge(t *testing.T) {
	hx.Check(t, hx.N{Quick: 40, Thorough: 400},
		"proof objects with 128..5000, rarely 65537, commitments or 20..1000 rounds: decoded from an independent encoding and encoded again, compared with one whose last commitment or round differs; the commitments alone, too; non-trivial: all",
		func(c *hx.C) {
			r := drawObject(c)
			r.V, r.L, r.R = nil, nil, nil
			nv, nl := 1, 1
			switch c.Pick(3, "kind") {
			case 0:
				nv = hx.Choose(c, "V", 65535, 65536, 65537)
			case 1:
				nv = hx.Choose(c, "V", 128, 254, 255, 256, 257, 1000, 1024, 2048, 4095, 4096, 5000)
			default:
				nl = hx.Choose(c, "L", 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000)
			}
			var few []P
			for range 20 {
				few = append(few, anyPoint(c))
			}
			few = append(few, rndP(c), rndP(c))
			for i := 0; i < nv; i++ {
				r.V = append(r.V, few[c.Src.IntN(len(few))])
			}
			for i := 0; i < nl; i++ {
				r.L, r.R = append(r.L, few[c.Src.IntN(len(few))]), append(r.R, few[c.Src.IntN(len(few))])
			}
			p, err := decode(r.Bytes(), true)
			c.Must(err, "Decode")
			if msg := holds(&p, r, true); msg != "" {
				c.Fatalf("%d commitments, %d rounds: %s", nv, nl, msg)
			}
			if !bytes.Equal(encode(&p, true), r.Bytes()) {
				c.Fatalf("%d commitments, %d rounds: encoded again to other bytes", nv, nl)
			}
			o := cloneRange(r)
			if c.Bool("V") {
				o.V[nv-1] = ref.PAdd(o.V[nv-1], ref.Base())
			} else {
				o.R[nl-1] = ref.PAdd(o.R[nl-1], ref.Base())
			}
			q, err := decode(o.Bytes(), true)
			c.Must(err, "Decode")
			if q.Equals(p, true) || p.Equals(q, true) || !p.Equals(p, true) {
				c.Fatalf("%d commitments, %d rounds: equal to one that ends differently", nv, nl)
			}
			var w bytes.Buffer
			c.Must(pedersen.EncodeCommitments(&w, p.V), "EncodeCommitments")
			vs, err := pedersen.DecodeCommitments(&w)
			c.Must(err, "DecodeCommitments")
			if !samePoints(values(vs), r.V) || w.Len() != 0 {
				c.Fatalf("%d commitments: %d decoded, or others", nv, len(vs))
			}
			c.NT(nv, nl, hx.Short(r.Tail()))
			c.Note("%d commitments, %d rounds", nv, nl)
		})
}

func TestC08_Malformed(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 400000},
		"encodings cut at any byte, lengthened by 1..130 bytes, with a length prefix that promises more, with bytes that encode no group element in any slot, or read from a reader that fails; an error, or (whole L/R pairs missing or added, which the format does not show) an object that encodes to the same bytes and does not verify; memory in proportion; non-trivial: all",
		func(c *hx.C) {
			r := drawObject(c)
			if c.Chance(4, "honest") {
				e, _ := drawBase(c, 2)
				r = e.ref
			}
			commits := c.Bool("commits")
			good := r.Tail()
			head := 0
			if commits {
				good = r.Bytes()
				head = 4 + 32*len(r.V)
			}
			fixed := head + 9*32
			b := append([]byte(nil), good...)
			mustFail := true
			what := ""
			var rd io.Reader
			switch c.Pick(5, "kind") {
			case 0:
				k := c.Pick(len(b), "cut")
				if c.Chance(3, "aligned") {
					k = k / 32 * 32
				}
				b = b[:k]
				mustFail = k < fixed || (k-fixed)%64 != 0
				what = fmt.Sprintf("cut to %d of %d", k, len(good))
			case 1:
				k := hx.Choose(c, "more", 1, 31, 32, 33, 63, 65, 96, c.Int(1, 130, "extra"))
				b = append(b, c.Bytes(k)...)
				mustFail = k%64 != 0 // else two points that probably do not decode
				what = fmt.Sprintf("%d bytes more", k)
			case 2:
				if !commits {
					return
				}
				n := uint32(len(r.V)) + hx.Choose(c, "n", uint32(1), 2, 9, 1000, 1<<16, 1<<20, 1<<22)
				binary.BigEndian.PutUint32(b, n)
				// what follows is taken for commitments
				pr, err := ref.Parse(b)
				mustFail = err != nil || pr == nil
				what = fmt.Sprintf("promises %d commitments", n)
			case 3:
				slots := len(r.V)*btoi(commits) + 4 + 2*len(r.L)
				s := c.Pick(slots, "slot")
				off := 4*btoi(commits) + 32*s
				if s >= len(r.V)*btoi(commits)+4 {
					off += 5 * 32
				}
				copy(b[off:], badPoint(c))
				what = fmt.Sprintf("bad point in slot %d", s)
			default:
				k := c.Pick(len(b)+1, "fail at")
				rd = brokenReader(c, b, k)
				what = fmt.Sprintf("reader fails after %d of %d", k, len(b))
			}
			if rd == nil {
				rd = chop(c, b)
			}
			var p rangeproof.Proof
			var err error
			if a := hx.Alloc(func() { err = p.Decode(rd, commits) }); a > 1<<20+200*uint64(len(b)) {
				c.Fatalf("%s: %d bytes of memory for an input of %d", what, a, len(b))
			}
			if mustFail && err == nil {
				c.Fatalf("commits %v: %s: no error", commits, what)
			}
			if err == nil {
				if !commits {
					p.V = nil
					for _, v := range r.V {
						p.V = append(p.V, pedersen.Commitment{Value: v})
					}
				}
				want := b
				if pr, err := ref.Parse(b); commits && err == nil {
					want = pr.Bytes() // points may have become scalars, which are reduced
				}
				if got := encode(&p, commits); !bytes.Equal(got, want) {
					c.Fatalf("commits %v: %s: taken for something else", commits, what)
				}
				if ok, _ := rangeproof.Verify(p); ok {
					c.Fatalf("commits %v: %s: verifies", commits, what)
				}
			}
			c.NT(len(r.V), len(r.L), commits, what)
			c.Note("%d commitments, %d rounds, included %v: %s", len(r.V), len(r.L), commits, what)
		})
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func TestC08_InnerProduct(t *testing.T) {
	hx.Check(t, hx.N{Quick: 12000, Thorough: 300000},
		"inner-product proofs of 0..12 rounds: round trip against an independent encoder, used receivers, slow and failing readers and writers, cuts, misalignment, undecodable points; non-trivial: all",
		func(c *hx.C) {
			r := drawObject(c)
			good := r.Tail()[7*32:]
			var p innerproduct.Proof
			if c.Bool("used") {
				c.Must(p.Decode(bytes.NewReader(drawObject(c).Tail()[7*32:])), "Decode")
			}
			c.Must(p.Decode(chop(c, good)), "Decode")
			if !samePoints(p.L, r.L) || !samePoints(p.R, r.R) || !ref.Eq(p.A, r.Aip) || !ref.Eq(p.B, r.Bip) {
				c.Fatalf("%d rounds: decoded to something else", len(r.L))
			}
			var w bytes.Buffer
			c.Must(p.Encode(&w), "Encode")
			if !bytes.Equal(w.Bytes(), good) {
				c.Fatalf("%d rounds: encoded again to other bytes", len(r.L))
			}
			if p.Encode(failing(c, c.Pick(len(good), "fail at"))) == nil {
				c.Fatalf("a failing writer is not reported")
			}
			var q innerproduct.Proof
			b := append([]byte(nil), good...)
			rd := io.Reader(nil)
			mustFail := true
			what := ""
			switch c.Pick(4, "bad") {
			case 0:
				k := c.Pick(len(b), "cut")
				b = b[:k]
				mustFail = k < 64 || k%64 != 0
				what = fmt.Sprintf("cut to %d", k)
			case 1:
				k := c.Int(1, 63, "extra")
				b = append(b, c.Bytes(k)...)
				what = fmt.Sprintf("%d more", k)
			case 2:
				k := c.Pick(len(b)+1, "fail at")
				rd = brokenReader(c, b, k)
				what = fmt.Sprintf("reader fails after %d", k)
			default:
				if len(r.L) == 0 {
					return
				}
				s := c.Pick(2*len(r.L), "slot")
				copy(b[64+32*s:], badPoint(c))
				what = fmt.Sprintf("bad point in slot %d", s)
			}
			if rd == nil {
				rd = chop(c, b)
			}
			if err := q.Decode(rd); err == nil && mustFail {
				c.Fatalf("%d rounds: %s: no error", len(r.L), what)
			}
			c.NT(len(r.L), what, hx.Short(good))
			c.Note("%d rounds, %s", len(r.L), what)
		})
}

func TestC08_Commitments(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 400000},
		"single commitments and lists of 0..40, rarely 300 or 1100, embedded in a longer stream: round trip against an independent encoder, exactly the encoding is consumed, blinding factors are not in it; cuts, undecodable points, prefixes that promise more, failing readers and writers; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(0, 40, "n")
			if c.Chance(200, "long") {
				n = hx.Choose(c, "n", 128, 255, 256, 257, 300, 1024, 1100)
			}
			var comms []pedersen.Commitment
			want := binary.BigEndian.AppendUint32(nil, uint32(n))
			for i := 0; i < n; i++ {
				cm := pedersen.Commitment{Value: anyPoint(c), BlindingFactor: rnd(c)}
				comms = append(comms, cm)
				want = append(want, cm.Value.Bytes()...)
			}
			single := c.Chance(4, "single")
			if single {
				if n == 0 {
					return
				}
				want = comms[0].Value.Bytes()
			}
			enc := func(w io.Writer) error {
				if single {
					return comms[0].Encode(w)
				}
				return pedersen.EncodeCommitments(w, comms)
			}
			dec := func(r io.Reader) ([]pedersen.Commitment, error) {
				if single {
					cm := pedersen.Commitment{Value: anyPoint(c)}
					err := cm.Decode(r)
					return []pedersen.Commitment{cm}, err
				}
				return pedersen.DecodeCommitments(r)
			}
			var w bytes.Buffer
			c.Must(enc(&w), "Encode")
			if !bytes.Equal(w.Bytes(), want) {
				c.Fatalf("%d commitments: wrong encoding", n)
			}
			for i := range comms {
				if bytes.Contains(w.Bytes(), comms[i].BlindingFactor.Bytes()) {
					c.Fatalf("a blinding factor is in the encoding")
				}
			}
			if enc(failing(c, c.Pick(len(want), "fail at"))) == nil {
				c.Fatalf("a failing writer is not reported")
			}
			tail := c.Bytes(c.Pick(70, "tail"))
			src := bytes.NewReader(append(append([]byte(nil), want...), tail...))
			var rd io.Reader = src
			if c.Bool("slow") {
				rd = iotest.OneByteReader(src)
			}
			got, err := dec(rd)
			c.Must(err, "Decode")
			wantV := values(comms)
			if single {
				wantV = wantV[:1]
			}
			if !samePoints(values(got), wantV) {
				c.Fatalf("%d commitments: decoded to something else", n)
			}
			if rest, _ := io.ReadAll(src); !bytes.Equal(rest, tail) {
				c.Fatalf("%d commitments: %d bytes left instead of %d", n, len(rest), len(tail))
			}
			// malformed
			b := append([]byte(nil), want...)
			rd = nil
			what := ""
			switch c.Pick(4, "bad") {
			case 0:
				b = b[:c.Pick(len(b), "cut")]
				what = fmt.Sprintf("cut to %d", len(b))
			case 1:
				if single || n == 0 {
					b = b[:c.Pick(len(b), "cut")]
				} else {
					s := c.Pick(n, "slot")
					copy(b[4+32*s:], badPoint(c))
					what = fmt.Sprintf("bad point in slot %d", s)
				}
			case 2:
				k := c.Pick(len(b), "fail at")
				rd = brokenReader(c, b, k)
				what = fmt.Sprintf("reader fails after %d", k)
			default:
				if single {
					b = badPoint(c)
				} else {
					k := uint32(n) + hx.Choose(c, "promise", uint32(1), 2, 100, 1<<16, 1<<20, 1<<22)
					binary.BigEndian.PutUint32(b, k)
					what = fmt.Sprintf("promises %d", k)
				}
			}
			if rd == nil {
				rd = bytes.NewReader(b)
			}
			if a := hx.Alloc(func() { _, err = dec(rd) }); a > 1<<20+200*uint64(len(b)) {
				c.Fatalf("%s: %d bytes of memory for an input of %d", what, a, len(b))
			}
			if err == nil {
				c.Fatalf("%d commitments: %s: no error", n, what)
			}
			c.NT(n, single, what)
			c.Note("%d commitments, single %v, then %s", n, single, what)
		})
}

func TestC08_NothingSecret(t *testing.T) {
	hx.Check(t, hx.N{Quick: 64, Thorough: 4000},
		"new proofs over 1..3 large amounts: neither encoding contains a blinding factor or an amount in either byte order, both are as long as the format says, and both decode to an equal proof; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(1, 3, "n")
			var list []S
			var secrets [][]byte
			for i := 0; i < n; i++ {
				v := c.Src.Uint64() | 1<<63
				list = append(list, amt(v))
				secrets = append(secrets, binary.BigEndian.AppendUint64(nil, v), binary.LittleEndian.AppendUint64(nil, v))
			}
			p, err := rangeproof.Prove(list, false)
			c.Must(err, "Prove")
			for i := range p.V {
				secrets = append(secrets, p.V[i].BlindingFactor.Bytes())
			}
			for i := range p.Blinders {
				secrets = append(secrets, p.Blinders[i].Bytes())
			}
			m := pow2(n)
			for _, commits := range []bool{true, false} {
				b := encode(&p, commits)
				if want := btoi(commits)*(4+32*m) + 9*32 + 64*(6+log2(m)); len(b) != want {
					c.Fatalf("%d bytes instead of %d", len(b), want)
				}
				for _, s := range secrets {
					if bytes.Contains(b, s) {
						c.Fatalf("%d amounts, commitments %v: %x is in the encoding", n, commits, s)
					}
				}
				q, err := decode(b, commits)
				c.Must(err, "Decode")
				if !q.Equals(p, commits) || !p.Equals(q, commits) {
					c.Fatalf("%d amounts, commitments %v: decoded to something else", n, commits)
				}
				if !bytes.Equal(encode(&q, commits), b) {
					c.Fatalf("%d amounts, commitments %v: encoded again to other bytes", n, commits)
				}
			}
			c.NT(n, secrets[0])
			c.Note("%d amounts", n)
		})
}

func TestC08_EarlierCopies(t *testing.T) {
	hx.Check(t, hx.N{Quick: 5000, Thorough: 120000},
		"a range proof and an inner-product proof decoded, copied by assignment, and the object decoded into once or more again, from whole or cut encodings: the copies, and the inner-product proofs and lists taken from the object, keep what they held; non-trivial: the second encoding is a different one",
		func(c *hx.C) {
			var p rangeproof.Proof
			var ip innerproduct.Proof
			type kept struct {
				p     rangeproof.Proof
				ip    innerproduct.Proof
				ptr   *innerproduct.Proof
				v     []pedersen.Commitment
				want  []byte
				wantP []byte
			}
			ipBytes := func(x *innerproduct.Proof) []byte {
				var w bytes.Buffer
				c.Must(x.Encode(&w), "Encode")
				return w.Bytes()
			}
			var all []kept
			diff := false
			for k := c.Int(2, 4, "times"); k > 0; k-- {
				o := drawObject(c)
				b, tail := o.Bytes(), o.Tail()[7*32:]
				cut := c.Chance(4, "cut")
				if cut {
					b, tail = b[:c.Pick(len(b), "at")], tail[:c.Pick(len(tail), "ip at")]
				}
				err := p.Decode(bytes.NewReader(b), true)
				err2 := ip.Decode(bytes.NewReader(tail))
				if !cut {
					c.Must(err, "Decode")
					c.Must(err2, "Decode")
				}
				for i, x := range all {
					if !bytes.Equal(encode(&x.p, true), x.want) || !bytes.Equal(ipBytes(&x.ip), x.wantP) || !bytes.Equal(ipBytes(x.ptr), x.wantP) {
						c.Fatalf("copy %d changed when the object was decoded into again (error %v)", i, err)
					}
					q := x.p
					q.V = x.v
					if !bytes.Equal(encode(&q, true), x.want) {
						c.Fatalf("the commitments taken from the object changed (copy %d)", i)
					}
				}
				if err == nil && err2 == nil && !cut {
					diff = diff || len(all) > 0 && !bytes.Equal(all[0].want, o.Bytes())
					all = append(all, kept{p, ip, p.IPProof, p.V, encode(&p, true), ipBytes(&ip)})
				}
			}
			if diff {
				c.NT(len(all), hx.Short(all[0].want))
			}
		})
}
