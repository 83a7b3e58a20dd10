package rp

import (
	"fmt"
	"strings"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"verif/harness/hx"
	"verif/harness/ref"
)

type ipCase struct {
	G, H     []P
	a, b, hf []S
	Q, P     P
}

func vecS(c *hx.C, n int, label string) []S {
	out := make([]S, n, n+c.Pick(4, label+".spare"))
	kind := c.Pick(5, label)
	for i := range out {
		switch kind {
		case 0:
			out[i] = ref.Int(0)
		case 1:
			out[i] = ref.Int(int64(c.Src.IntN(3)))
		case 2:
			out[i] = anyScalar(c)
		default:
			out[i] = rnd(c)
		}
	}
	return out
}

func vecP(c *hx.C, n int, label string) []P {
	out := make([]P, n, n+c.Pick(4, label+".spare"))
	kind := c.Pick(6, label)
	for i := range out {
		switch kind {
		case 0:
			out[i] = stock[0]
		case 1:
			out[i] = anyPoint(c)
		default:
			out[i] = ref.Gens(label, n)[i]
		}
	}
	return out
}

func ipSum(G, H []P, a, b, hf []S, Q P) P {
	hb := make([]S, len(b))
	for i := range b {
		hb[i] = ref.Mul(b[i], hf[i])
	}
	return ref.PAdd(ref.PAdd(ref.MExp(a, G), ref.MExp(hb, H)), ref.PMul(Q, ref.Dot(a, b)))
}

func drawIP(c *hx.C, n int) *ipCase {
	x := &ipCase{G: vecP(c, n, "G"), H: vecP(c, n, "H"), a: vecS(c, n, "a"), b: vecS(c, n, "b")}
	switch c.Pick(4, "hf") {
	case 0:
		x.hf = make([]S, n)
		for i := range x.hf {
			x.hf[i] = ref.Int(1)
		}
	case 1:
		x.hf = vecS(c, n, "hf.any")
	default:
		x.hf = ref.Pow(rnd(c), n)
	}
	x.Q = hx.Choose(c, "Q", rndP(c), ref.ValueBase(), ref.Zero())
	if c.Chance(6, "shared") { // the same memory handed in more than once
		if c.Bool("a and b") {
			x.b = x.a
		}
		if c.Bool("b and factors") {
			x.hf = x.b
		}
		if c.Bool("G and H") {
			x.H = x.G
		}
		if c.Bool("a and factors") {
			x.hf = x.a
		}
	}
	x.P = ipSum(x.G, x.H, x.a, x.b, x.hf, x.Q)
	return x
}

func (x *ipCase) generate() (*innerproduct.Proof, error) {
	return innerproduct.Generate(x.G, x.H, x.a, x.b, x.hf, x.Q)
}

func (x *ipCase) verify(p *innerproduct.Proof) bool {
	return p.Verify(x.G, x.H, p.L, p.R, x.hf, x.Q, x.P, len(x.G))
}

// refVerify: the independent verdict
func (x *ipCase) refVerify(p *innerproduct.Proof) bool {
	return ref.IPVerify(x.G, x.H, x.hf, x.Q, x.P, p.L, p.R, p.A, p.B)
}

func drawN(c *hx.C) int {
	if c.Chance(60, "long") {
		return hx.Choose(c, "n", 128, 128, 256, 512, 1024)
	}
	return hx.Choose(c, "n", 1, 2, 2, 4, 4, 8, 8, 16, 32, 64)
}

func snapS(v []S) []S { return append([]S(nil), v[:cap(v)]...) }
func snapP(v []P) []P { return append([]P(nil), v[:cap(v)]...) }

func equalP(a, b []P) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func TestC10_Complete(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1500, Thorough: 40000},
		"lengths 1..64, rarely 1024 (powers of two), any vectors (zero, small, extreme, random), bases (generators, repeated, neutral), factors and Q: the code's proof verifies in the code and in the independent verifier, the independent prover's proof verifies in the code, nothing handed in is modified; non-trivial: the inner product is not zero",
		func(c *hx.C) {
			n := drawN(c)
			x := drawIP(c, n)
			sG, sH, sa, sb, sf := snapP(x.G), snapP(x.H), snapS(x.a), snapS(x.b), snapS(x.hf)
			p, err := x.generate()
			if err != nil || p == nil {
				c.Fatalf("length %d: no proof: %v", n, err)
			}
			same := func() bool {
				return equalP(snapP(x.G), sG) && equalP(snapP(x.H), sH) && sameScalars(snapS(x.a), sa) && sameScalars(snapS(x.b), sb) &&
					sameScalars(snapS(x.hf), sf)
			}
			if !same() {
				c.Fatalf("length %d: generating modified the inputs", n)
			}
			l, r := snapP(p.L), snapP(p.R)
			if !x.verify(p) {
				c.Fatalf("length %d: the proof does not verify", n)
			}
			if !same() || !equalP(snapP(p.L), l) || !equalP(snapP(p.R), r) {
				c.Fatalf("length %d: verifying modified the inputs", n)
			}
			if len(p.L) != log2(n) || len(p.R) != log2(n) {
				c.Fatalf("length %d: %d rounds", n, len(p.L))
			}
			if !x.refVerify(p) {
				c.Fatalf("length %d: the independent verifier rejects", n)
			}
			var q innerproduct.Proof
			q.L, q.R, q.A, q.B = ref.IPProve(x.G, x.H, x.a, x.b, x.hf, x.Q)
			if !x.verify(&q) {
				c.Fatalf("length %d: an independent proof is rejected", n)
			}
			if !ref.IsZero(ref.Dot(x.a, x.b)) {
				c.NT(n, ref.Val(x.a[0]), ref.Val(x.b[0]))
			}
			c.Label(fmt.Sprint("n=", n))
			c.Note("length %d", n)
		})
}

func TestC10_Sound(t *testing.T) {
	hx.Check(t, hx.N{Quick: 3000, Thorough: 80000},
		"proofs with a component, the commitment, Q, a base, a factor or the order altered, for independent bases: rejected; on degenerate bases the verdict of the independent verifier counts; non-trivial: all",
		func(c *hx.C) {
			n := drawN(c)
			x := drawIP(c, n)
			p, err := x.generate()
			c.Must(err, "Generate")
			d := hx.Choose(c, "D", ref.Base(), rndP(c), x.Q, x.G[0])
			k := hx.Choose(c, "k", ref.Int(1), ref.Int(-1), rnd(c))
			i := c.Pick(n, "i")
			what := ""
			if c.Chance(3, "before") && !x.verify(p) {
				c.Fatalf("length %d: honest proof rejected", n)
			}
			alt := c.Pick(14, "alter")
			if alt >= 8 && len(p.L) == 0 {
				alt = c.Pick(8, "alter2")
			}
			switch alt {
			case 0:
				x.P = ref.PAdd(x.P, d)
				what = "commitment"
			case 1:
				x.Q = ref.PAdd(x.Q, d)
				what = "Q"
			case 2:
				x.G[i] = ref.PAdd(x.G[i], d)
				what = "G"
			case 3:
				x.H[i] = ref.PAdd(x.H[i], d)
				what = "H"
			case 4:
				x.hf[i] = ref.Add(x.hf[i], k)
				what = "factor"
			case 5:
				p.A = ref.Add(p.A, k)
				what = "a"
			case 6:
				p.B = ref.Add(p.B, k)
				what = "b"
			case 7:
				p.A, p.B = p.B, p.A
				what = "a and b swapped"
			case 8:
				j := c.Pick(len(p.L), "round")
				p.L[j] = ref.PAdd(p.L[j], d)
				what = fmt.Sprint("L", j)
			case 9:
				j := c.Pick(len(p.L), "round")
				p.R[j] = ref.PAdd(p.R[j], d)
				what = fmt.Sprint("R", j)
			case 10:
				p.L, p.R = p.R, p.L
				what = "L and R swapped"
			case 11:
				j := c.Pick(len(p.L), "round")
				p.L[j], p.R[j] = ref.PAdd(p.L[j], d), ref.PSub(p.R[j], d)
				what = fmt.Sprint("L and R shifted against each other in round ", j)
			case 12:
				j := (i + 1) % n
				x.G[i], x.G[j] = x.G[j], x.G[i]
				what = "order of G"
			default:
				p.A, p.B = ref.Mul(p.A, k), ref.Mul(p.B, ref.Inv(k))
				what = "a and b scaled"
			}
			want := x.refVerify(p)
			if got := x.verify(p); got != want {
				c.Fatalf("length %d, %s altered: verdict %v, independent verifier %v", n, what, got, want)
			}
			c.NT(n, what, alt)
			c.Label(fmt.Sprint("accepted ", want))
			c.Note("length %d, %s", n, what)
		})
}

func TestC10_Forged(t *testing.T) {
	hx.Check(t, hx.N{Quick: 2000, Thorough: 50000},
		"a prover claims an inner product other than the true one: by folding honestly, or by choosing an L or R after its challenge in the hope that the transcript leaves it out; rejected; non-trivial: all",
		func(c *hx.C) {
			n := hx.Choose(c, "n", 1, 2, 4, 4, 8, 8, 16, 32)
			x := &ipCase{G: ref.Gens("G", n), H: ref.Gens("H", n), Q: ref.ValueBase(), hf: ref.Pow(rnd(c), n)}
			for i := 0; i < n; i++ {
				x.a, x.b = append(x.a, drawScalar(c, "a")), append(x.b, drawScalar(c, "b"))
			}
			e := hx.Choose(c, "excess", ref.Int(1), ref.Int(-1), rnd(c))
			x.P = ref.PAdd(ipSum(x.G, x.H, x.a, x.b, x.hf, x.Q), ref.PMul(x.Q, e))
			var p innerproduct.Proof
			what := "honest folding"
			if n == 1 || c.Chance(6, "honest") {
				q, err := x.generate()
				c.Must(err, "Generate")
				p = *q
			} else {
				k := c.Pick(log2(n), "round")
				free := hx.Choose(c, "free", "L", "R") + fmt.Sprint(k)
				h := hides{names: map[string]bool{free: true}, by: c.Pick(4, "by")}
				switch c.Pick(4, "scope") {
				case 0:
					h.names[fmt.Sprint("L", k)], h.names[fmt.Sprint("R", k)] = true, true
				case 1:
					for i := 0; i < log2(n); i++ {
						h.names[free[:1]+fmt.Sprint(i)] = true
					}
				case 2:
					for i := 1; i < log2(n); i++ {
						h.names[fmt.Sprint("L", i)], h.names[fmt.Sprint("R", i)] = true, true
					}
				}
				if c.Bool("staged") {
					h.stages = "u" + strings.TrimLeft(free, "LR")
				}
				p.L, p.R, p.A, p.B = ref.IPProveLate(x.G, x.H, x.a, x.b, x.hf, x.Q, h.mangle, free, e)
				what = fmt.Sprintf("%s chosen late, left out %v at %q (%d)", free, h.names, h.stages, h.by)
			}
			if x.refVerify(&p) {
				panic("HARNESS-ERROR: reference accepts " + what)
			}
			if x.verify(&p) {
				c.Fatalf("length %d: %s: accepted for a wrong inner product", n, what)
			}
			c.NT(n, what)
			c.Note("length %d: %s", n, what)
		})
}

func TestC10_Sizes(t *testing.T) {
	hx.Check(t, hx.N{Quick: 3000, Thorough: 200000},
		"vectors of five independently drawn lengths 0..17: a proof is made if and only if all are the same power of two; a proof for one length is refused, without panic, for bases, factors or rounds of another; non-trivial: the lengths do not fit",
		func(c *hx.C) {
			n := c.Int(0, 17, "n")
			ln := func(l string) int {
				if c.Chance(4, l+".other") {
					return c.Int(0, 17, l)
				}
				return n
			}
			nG, nH, na, nb, nf := n, ln("H"), ln("a"), ln("b"), ln("hf")
			G, H, a, b, hf := ref.Gens("G", nG), ref.Gens("H", nH), vecS(c, na, "va"), vecS(c, nb, "vb"), vecS(c, nf, "vf")
			fit := n > 0 && n&(n-1) == 0 && nH == n && na == n && nb == n && nf == n
			p, err := innerproduct.Generate(G, H, a, b, hf, ref.ValueBase())
			if fit != (err == nil) {
				c.Fatalf("lengths G %d H %d a %d b %d factors %d: error %v", nG, nH, na, nb, nf, err)
			}
			if !fit {
				c.NT(nG, nH, na, nb, nf)
				return
			}
			sum := ipSum(G, H, a, b, hf, ref.ValueBase())
			// verifying with other sizes
			vG, vH, vf := ln("vG"), ln("vH"), ln("vhf")
			extraL, extraR := c.Pick(3, "L"), c.Pick(3, "R")
			q := &innerproduct.Proof{A: p.A, B: p.B}
			cut := func(v []P, k int) []P {
				switch {
				case k == 1 && len(v) > 0:
					return v[:len(v)-1]
				case k == 2:
					return append(append([]P(nil), v...), ref.Zero())
				}
				return v
			}
			q.L, q.R = cut(p.L, extraL), cut(p.R, extraR)
			hf2 := append(append([]S(nil), hf...), make([]S, 20)...)[:vf]
			// (zero vectors may fit more than one size)
			fits := ref.IPVerify(ref.Gens("G", vG), ref.Gens("H", vH), hf2, ref.ValueBase(), sum, q.L, q.R, q.A, q.B)
			got := q.Verify(ref.Gens("G", vG), ref.Gens("H", vH), q.L, q.R, hf2, ref.ValueBase(), sum, vG)
			if got != fits {
				c.Fatalf("length %d, verified with G %d H %d factors %d L %d R %d: %v", n, vG, vH, vf, len(q.L), len(q.R), got)
			}
			c.NT(n, vG, vH, vf, len(q.L), len(q.R))
			c.Note("length %d verified with G %d H %d factors %d L %d R %d", n, vG, vH, vf, len(q.L), len(q.R))
		})
}

func TestC10_Scalars(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1500, Thorough: 30000},
		"rounds (0..9) of honest proofs and of arbitrary points: the scalars offered for combining the check with others are those the independent verifier derives, asked for once or again, nothing for unequal numbers of L and R; the padding helper gives the distance to the next power of two for lengths up to 2^31; non-trivial: at least two rounds",
		func(c *hx.C) {
			k := c.Int(0, 9, "rounds")
			p := innerproduct.Proof{A: rnd(c), B: rnd(c), L: vecP(c, k, "L"), R: vecP(c, k, "R")}
			if c.Chance(6, "unequal") {
				p.R = append(p.R, rndP(c))
				sq, inv, w := p.VerifScalars()
				if len(sq)+len(inv)+len(w) != 0 {
					c.Fatalf("%d L, %d R: scalars offered", len(p.L), len(p.R))
				}
				return
			}
			sq, inv, w := ref.IPScalars(p.L, p.R)
			l, r := snapP(p.L), snapP(p.R)
			for i := 0; i < 2; i++ {
				gs, gi, gw := p.VerifScalars()
				if !sameScalars(gs, sq) || !sameScalars(gi, inv) || !sameScalars(gw, w) {
					c.Fatalf("%d rounds: other scalars (call %d)", k, i)
				}
				for j := range gs { // results belong to the caller
					gs[j].SetZero()
				}
			}
			if !equalP(snapP(p.L), l) || !equalP(snapP(p.R), r) {
				c.Fatalf("%d rounds: the proof was modified", k)
			}
			n := uint32(1)<<uint(c.Int(0, 31, "exp")) - uint32(c.Int(0, 3, "less"))
			if c.Bool("any") {
				n = uint32(c.Src.IntN(1 << 31))
			}
			if n >= 1 && n <= 1<<31 {
				want := uint64(1)
				for want < uint64(n) {
					want *= 2
				}
				if got := innerproduct.DiffNextPow2(n); uint64(got) != want-uint64(n) {
					c.Fatalf("padding of %d: %d, want %d", n, got, want-uint64(n))
				}
			}
			if k > 1 {
				c.NT(k, hx.Short(p.L[0].Bytes()))
			}
			c.Note("%d rounds, padding of %d", k, n)
		})
}
