package rp

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"verif/harness/hx"
	"verif/harness/ref"
)

// 1. the code's own prover on amounts out of range
func TestC06_ProverOutOfRange(t *testing.T) {
	hx.Check(t, hx.N{Quick: 240, Thorough: 12000},
		"lists of 1..8 amounts of which at least one is not in [0,2^64) (2^64 and above, negative, huge, low bits zero) given to the code's own prover; whatever comes out must not verify, nor after encoding; non-trivial: all",
		func(c *hx.C) {
			n := hx.Choose(c, "n", 1, 1, 1, 1, 2, 2, 2, 3, 4, 5, 8)
			bad := c.Pick(n, "bad")
			bad2 := c.Pick(n, "bad2")
			var list []S
			for i := 0; i < n; i++ {
				if i == bad || i == bad2 {
					list = append(list, drawOutside(c, "out"))
				} else {
					list = append(list, amt(drawAmount(c, "amount")))
				}
			}
			debug := n <= 2 && c.Chance(6, "debug")
			p, err := rangeproof.Prove(list, debug)
			if err != nil {
				c.Label("refused by the prover")
				c.NT(n, bad, bad2, ref.Val(list[bad]))
				return
			}
			// does a commitment of the proof really hide that amount?
			hidden := false
			for i := range p.V {
				if i < n && ref.Val(list[i]).BitLen() > 64 && ref.PEq(ref.Commit(list[i], p.V[i].BlindingFactor), p.V[i].Value) {
					hidden = true
				}
			}
			if !hidden {
				return
			}
			if ok, _ := rangeproof.Verify(p); ok {
				c.Fatalf("a proof for amount %v (position %d of %d) verifies", ref.Val(list[bad]), bad, n)
			}
			if accepts(encode(&p, true)) {
				c.Fatalf("a proof for amount %v (position %d of %d) verifies after encoding", ref.Val(list[bad]), bad, n)
			}
			c.NT(n, bad, bad2, ref.Val(list[bad]))
			c.Label("proof rejected")
			c.Note("amount %v at %d of %d", ref.Val(list[bad]), bad, n)
		})
}

func inner2(aL []S) S { return ref.Dot(aL, ref.Pow(ref.Int(2), ref.Bits)) }

// cheat sets up a witness that violates one constraint.
func cheat(c *hx.C, p *ref.Prover, m int) string {
	for i := 0; i < m; i++ {
		p.Values = append(p.Values, amt(drawAmount(c, "amount")))
	}
	aL, aR := ref.BitsOf(p.Values)
	pos := c.Pick(len(aL), "pos")
	j := pos / ref.Bits
	d := hx.Choose(c, "d", ref.Int(1), ref.Int(-1), ref.Int(2), rnd(c))
	seg := func() []S { return aL[j*ref.Bits : (j+1)*ref.Bits] }
	kind := c.Pick(7, "cheat")
	switch kind {
	case 0: // a digit that is no bit, amount follows
		aL[pos] = hx.Choose(c, "digit", ref.Int(2), ref.Int(-1), ref.Int(3), rnd(c))
		aR[pos] = ref.Sub(aL[pos], ref.Int(1))
		p.Values[j] = inner2(seg())
		p.AL, p.AR = aL, aR
		return fmt.Sprintf("digit %d of amount %d is no bit", pos%ref.Bits, j)
	case 1: // top digit carries an amount out of range
		v := drawOutside(c, "out")
		top := j*ref.Bits + ref.Bits - 1
		rest := ref.Sub(inner2(seg()), ref.Mul(aL[top], ref.Pow(ref.Int(2), ref.Bits)[63]))
		aL[top] = ref.Mul(ref.Sub(v, rest), ref.Inv(ref.Pow(ref.Int(2), ref.Bits)[63]))
		aR[top] = ref.Sub(aL[top], ref.Int(1))
		p.Values[j] = v
		p.AL, p.AR = aL, aR
		return fmt.Sprintf("top digit of amount %d carries %v", j, ref.Val(v))
	case 2: // aR is not aL-1
		aR[pos] = ref.Add(aR[pos], d)
		p.AL, p.AR = aL, aR
		return fmt.Sprintf("aR at %d", pos)
	case 3: // ... twice, cancelling
		q := (pos + 1 + c.Pick(len(aL)-1, "pos2")) % len(aL)
		aR[pos], aR[q] = ref.Add(aR[pos], d), ref.Sub(aR[q], d)
		p.AL, p.AR = aL, aR
		return fmt.Sprintf("aR at %d and %d", pos, q)
	case 4: // the amount is not the sum of its digits
		p.Values[j] = hx.Choose(c, "value", ref.Add(p.Values[j], d), drawOutside(c, "out"), ref.Neg(p.Values[j]))
		if ref.Val(p.Values[j]).BitLen() <= 64 {
			p.Values[j] = drawOutside(c, "out")
		}
		p.AL, p.AR = aL, aR
		return fmt.Sprintf("amount %d is %v", j, ref.Val(p.Values[j]))
	case 5: // two amounts off, cancelling
		k := (j + 1) % m
		big64 := ref.Big(new(big.Int).Lsh(big.NewInt(1), 64))
		if m == 1 {
			p.Values[0] = ref.Add(p.Values[0], big64)
		} else {
			p.Values[j], p.Values[k] = ref.Add(p.Values[j], big64), ref.Sub(p.Values[k], big64)
		}
		p.AL, p.AR = aL, aR
		return fmt.Sprintf("amounts %d and %d shifted against each other", j, k)
	default: // digits of one amount live in another's place
		k := (j + 1) % m
		if m == 1 {
			aL[pos] = ref.Add(aL[pos], ref.Int(2))
			aR[pos] = ref.Sub(aL[pos], ref.Int(1))
			p.Values[0] = inner2(aL)
			p.AL, p.AR = aL, aR
			return "digit"
		}
		p.Values[j], p.Values[k] = ref.Add(p.Values[j], p.Values[k]), ref.Int(0)
		p.Values[j] = ref.Add(p.Values[j], ref.Big(new(big.Int).Lsh(big.NewInt(1), 64)))
		p.AL, p.AR = aL, aR
		return fmt.Sprintf("amount %d moved to %d", k, j)
	}
}

func drawM(c *hx.C) int { return hx.Choose(c, "m", 1, 1, 1, 2, 2, 4) }

// 2. a prover that violates one constraint of the protocol
func TestC06_CheatingProver(t *testing.T) {
	hx.Check(t, hx.N{Quick: 800, Thorough: 60000},
		"an own prover follows the protocol with a witness that violates exactly one constraint (digit that is no bit, right vector not left minus one, amount not the sum of its digits, two errors that cancel within or across amounts), for 1..4 commitments, sending either the true inner product or the one the first equation wants, optionally with shifted mu/taux; the code must reject; non-trivial: all",
		func(c *hx.C) {
			m := drawM(c)
			p := &ref.Prover{Rand: func() S { return rnd(c) }}
			what := cheat(c, p, m)
			p.ForceT = c.Bool("forceT")
			r := p.Prove()
			if r.Verify() == nil {
				panic("HARNESS-ERROR: reference accepts " + what)
			}
			if accepts(r.Bytes()) {
				c.Fatalf("%d commitments, %s (force t: %v): accepted", m, what, p.ForceT)
			}
			c.NT(what, m, p.ForceT)
			c.Label(strings.Fields(what)[0])
			c.Note("%d commitments, %s, force t %v", m, what, p.ForceT)
		})
}

// hides tells whether a transcript leaves out or replaces a message.
type hides struct {
	names  map[string]bool
	stages string // "" = all
	by     int    // 0 nothing, 1 zeros, 2 the first message of its kind, 3 the previous message
}

func kindOf(name string) string { return strings.TrimRight(name, "0123456789") }

func (h hides) mangle(stage string, i int, msgs []ref.Message) []byte {
	m := msgs[i]
	if !h.names[m.Name] || h.stages != "" && !strings.Contains(h.stages, stage) {
		return m.B
	}
	switch h.by {
	case 1:
		return make([]byte, 32)
	case 2:
		for _, o := range msgs {
			if !h.names[o.Name] && kindOf(o.Name) == kindOf(m.Name) {
				return o.B
			}
		}
		return nil
	case 3:
		if i > 0 && !h.names[msgs[i-1].Name] {
			return msgs[i-1].B
		}
		return nil
	}
	return nil
}

// 3. a prover that chooses one message after the challenge that should bind it
func TestC06_LateChoice(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1600, Thorough: 100000},
		"an own prover for an out-of-range amount chooses one message (a commitment, A, S, T1, T2, any L or R) after the challenges, in the hope that the verifier's transcript leaves it out (alone, with its kind, with its group, at one challenge or at all, or replaced by zeros or another message) and solves for it; the code must reject; non-trivial: all",
		func(c *hx.C) {
			m := drawM(c)
			rounds := 6 + log2(m)
			p := &ref.Prover{Rand: func() S { return rnd(c) }}
			for i := 0; i < m; i++ {
				p.Values = append(p.Values, amt(drawAmount(c, "amount")))
			}
			p.Values[c.Pick(m, "bad")] = drawOutside(c, "out")
			p.AL, p.AR = ref.BitsOf(p.Values)
			free := ""
			switch c.Pick(8, "kind") {
			case 0, 1, 2:
				free = fmt.Sprint("V", c.Pick(m, "V"))
			case 3:
				free = "A"
			case 4:
				free = "S"
			case 5:
				free = hx.Choose(c, "T", "T1", "T2")
			case 6:
				free = fmt.Sprint("L", c.Pick(rounds, "round"))
			default:
				free = fmt.Sprint("R", c.Pick(rounds, "round"))
			}
			kind := kindOf(free)
			if strings.HasPrefix(free, "T") {
				kind = "T"
			}
			h := hides{names: map[string]bool{free: true}, by: c.Pick(4, "by")}
			all := func(k string, n int) {
				for i := 0; i < n; i++ {
					h.names[fmt.Sprint(k, i)] = true
				}
			}
			scope := c.Pick(4, "scope")
			switch {
			case scope == 0: // alone
			case scope == 1: // all of its kind
				switch kind {
				case "V":
					all("V", m)
				case "T":
					h.names["T1"], h.names["T2"] = true, true
				case "A", "S":
					h.names["A"], h.names["S"] = true, true
				default:
					all(kind, rounds)
				}
			case scope == 2: // with its neighbours
				var k int
				fmt.Sscan(strings.TrimLeft(free, "VLR"), &k)
				switch kind {
				case "V": // a suffix of the commitments
					for i := k; i < m; i++ {
						h.names[fmt.Sprint("V", i)] = true
					}
				case "L", "R":
					h.names[fmt.Sprint("L", k)], h.names[fmt.Sprint("R", k)] = true, true
				}
			default: // everything except the first, or everything
				switch kind {
				case "V":
					for i := 1; i < m; i++ {
						h.names[fmt.Sprint("V", i)] = true
					}
					if c.Bool("andA") {
						h.names["A"], h.names["S"] = true, true
					}
				case "L", "R":
					for i := 1; i < rounds; i++ {
						h.names[fmt.Sprint("L", i)], h.names[fmt.Sprint("R", i)] = true, true
					}
				}
			}
			p.Free = free
			when := "after all challenges"
			if (kind == "V" || kind == "A") && c.Bool("afterZ") {
				p.Free, p.FreeZ = "", free
				h.stages = "y"
				when = "after z"
				if c.Bool("never") {
					h.stages = "yxw"
				}
			} else if c.Bool("staged") {
				when = "after its challenge"
				switch kind {
				case "V", "A", "S":
					h.stages = "yx"
				case "T":
					h.stages = "x"
				default:
					h.stages = "u" + strings.TrimLeft(free, "LR") + " " // "u1 " does not contain "u10"
				}
			}
			p.Mangle = h.mangle
			r := p.Prove()
			if r.Verify() == nil {
				panic("HARNESS-ERROR: reference accepts late " + free)
			}
			if accepts(r.Bytes()) {
				c.Fatalf("%d commitments: %s chosen %s, with %v left out of the transcript (%d): accepted for an amount out of range", m, free, when, h.names, h.by)
			}
			c.NT(m, free, fmt.Sprint(h.names), h.by, when)
			c.Label(kind + " " + when)
			c.Note("%d commitments: %s %s, left out %v", m, free, when, h.names)
		})
}

// the same for many commitments, where only some of them may be bound
func TestC06_LateChoiceWide(t *testing.T) {
	hx.Check(t, hx.N{Quick: 200, Thorough: 8000},
		"as LateChoice with 4, 8 or 16 commitments, of which the transcript leaves out a suffix, a prefix, every other one or one, and the late message is one of those left out (or one of the L and R of the last rounds); the code must reject; non-trivial: all",
		func(c *hx.C) {
			m := hx.Choose(c, "m", 4, 8, 8, 16, 16)
			rounds := 6 + log2(m)
			p := &ref.Prover{Rand: func() S { return rnd(c) }}
			for i := 0; i < m; i++ {
				p.Values = append(p.Values, amt(drawAmount(c, "amount")))
			}
			p.Values[c.Pick(m, "bad")] = drawOutside(c, "out")
			p.AL, p.AR = ref.BitsOf(p.Values)
			h := hides{names: map[string]bool{}}
			var late []string
			hide := func(n string) { h.names[n] = true; late = append(late, n) }
			cut := hx.Choose(c, "cut", 1, 2, 3, 4, 5, 8, 9, 10, 12, m-1)
			if cut >= m {
				cut = m / 2
			}
			what := ""
			switch c.Pick(6, "scope") {
			case 0, 1, 2:
				what = fmt.Sprint("commitments from ", cut)
				for i := cut; i < m; i++ {
					hide(fmt.Sprint("V", i))
				}
			case 3:
				what = fmt.Sprint("commitments before ", cut)
				for i := 0; i < cut; i++ {
					hide(fmt.Sprint("V", i))
				}
			case 4:
				what = "every other commitment"
				for i := cut % 2; i < m; i += 2 {
					hide(fmt.Sprint("V", i))
				}
			default:
				k := hx.Choose(c, "round", 6, 7, 8, 9)
				if k >= rounds {
					k = rounds - 1
				}
				what = fmt.Sprint("rounds from ", k)
				for i := k; i < rounds; i++ {
					hide(fmt.Sprint("L", i))
					hide(fmt.Sprint("R", i))
				}
			}
			p.Free = late[c.Pick(len(late), "late")]
			if p.Free[0] == 'V' && c.Chance(3, "first only") {
				h.stages = "yx"
			}
			p.Mangle = h.mangle
			r := p.Prove()
			if r.Verify() == nil {
				panic("HARNESS-ERROR: reference accepts late " + p.Free)
			}
			if accepts(r.Bytes()) {
				c.Fatalf("%d commitments: %s chosen late, with %s left out of the transcript: accepted for an amount out of range", m, p.Free, what)
			}
			c.NT(m, p.Free, what, h.stages)
			c.Note("%d commitments: %s, left out %s", m, p.Free, what)
		})
}

// 4. the weight with which the two equations are combined is not predictable
func TestC06_CombinedEquations(t *testing.T) {
	hx.Check(t, hx.N{Quick: 240, Thorough: 12000},
		"proofs in which mu is off by k and taux by -w*k for guessable weights w (small numbers, their inverses, the challenges x, y, z, their squares and inverses, hashes of them and of parts of the transcript), so that a verifier adding up both equations with that weight would accept; a verifier that draws the weight at random draws at least 16 bytes; non-trivial: all",
		func(c *hx.C) {
			m := drawM(c)
			p := &ref.Prover{Rand: func() S { return rnd(c) }}
			for i := 0; i < m; i++ {
				p.Values = append(p.Values, amt(drawAmount(c, "amount")))
			}
			k := hx.Choose(c, "k", ref.Int(1), ref.Int(-1), rnd(c))
			p.ShiftMu = k
			what := ""
			if c.Bool("number") {
				weight := hx.Choose(c, "weight", ref.Int(1), ref.Int(-1), ref.Int(2), ref.Int(0), ref.Int(3), ref.Inv(ref.Int(2)),
					ref.Int(int64(c.Pick(1<<16, "small"))))
				p.ShiftTaux = ref.Neg(ref.Mul(weight, k))
				what = ref.Val(weight).String()
			} else {
				kind, which, parts := c.Pick(4, "kind"), c.Pick(3, "which"), c.Int(1, 31, "parts")
				what = fmt.Sprint(hx.Choose(c, "neg", "", "-"), []string{"challenge", "inverse", "square", "hash"}[kind], " ", which, " ", parts)
				p.Weigh = func(r *ref.Range, x, y, z S) S {
					ch := []S{x, y, z}[which]
					switch kind {
					case 1:
						ch = ref.Inv(ch)
					case 2:
						ch = ref.Mul(ch, ch)
					case 3:
						var b []byte
						for i, part := range []P{r.A, r.S, r.T1, r.T2} {
							if parts&(2<<i) != 0 {
								b = append(b, part.Bytes()...)
							}
						}
						if parts&1 != 0 {
							b = append(b, ch.Bytes()...)
						}
						ch = S{}
						ch.Derive(b)
					}
					if what[0] == '-' {
						ch = ref.Neg(ch)
					}
					return ch
				}
			}
			r := p.Prove()
			if r.Verify() == nil {
				panic("HARNESS-ERROR: reference accepts shifted mu")
			}
			src := &hx.Tampered{R: hx.NewStream("weight", ref.Val(r.T)), At: -1}
			rand.Reader = src
			if accepts(r.Bytes()) {
				c.Fatalf("mu off by %v and taux by the opposite times %v: accepted", ref.Val(k), what)
			}
			if src.N > 0 && src.N < 16 {
				c.Fatalf("the weight is made of %d random bytes", src.N)
			}
			c.NT(m, ref.Val(k), what)
			c.Note("%d commitments, weight %v", m, what)
		})
}

// alter changes one or two components of a proof.
func alter(c *hx.C, r *ref.Range) string {
	type pt struct {
		name string
		p    *P
	}
	type sc struct {
		name string
		s    *S
	}
	var pts []pt
	for i := range r.V {
		pts = append(pts, pt{fmt.Sprint("V", i), &r.V[i]})
	}
	nV := len(pts)
	pts = append(pts, pt{"A", &r.A}, pt{"S", &r.S}, pt{"T1", &r.T1}, pt{"T2", &r.T2})
	nFix := len(pts)
	for i := range r.L {
		pts = append(pts, pt{fmt.Sprint("L", i), &r.L[i]}, pt{fmt.Sprint("R", i), &r.R[i]})
	}
	scs := []sc{{"taux", &r.Taux}, {"mu", &r.Mu}, {"t", &r.T}, {"a", &r.Aip}, {"b", &r.Bip}}
	one := func(l string) pt { // each group as likely
		switch c.Pick(3, l+".group") {
		case 0:
			return pts[c.Pick(nV, l)]
		case 1:
			return pts[nV+c.Pick(nFix-nV, l)]
		default:
			return pts[nFix+c.Pick(len(pts)-nFix, l)]
		}
	}
	d := hx.Choose(c, "D", ref.Base(), ref.ValueBase(), rndP(c), ref.Gens("dusk.BulletProof.vec1", 1)[0])
	switch c.Pick(12, "alter") {
	case 0:
		x := one("point")
		*x.p = ref.PAdd(*x.p, d)
		return x.name + " shifted"
	case 1:
		x := one("point")
		*x.p = ref.PSub(ref.Zero(), *x.p)
		return x.name + " negated"
	case 2:
		x := one("point")
		*x.p = hx.Choose(c, "to", ref.Zero(), ref.Base(), rndP(c))
		return x.name + " replaced"
	case 3:
		x, y := one("point"), one("point2")
		*x.p, *y.p = *y.p, *x.p
		return x.name + " and " + y.name + " swapped"
	case 4:
		x, y := one("point"), one("point2")
		*x.p = *y.p
		return x.name + " is a copy of " + y.name
	case 5: // two points, cancelling
		x, y := one("point"), one("point2")
		*x.p = ref.PAdd(*x.p, d)
		*y.p = ref.PSub(*y.p, d)
		return x.name + " and " + y.name + " shifted against each other"
	case 6, 7:
		x := scs[c.Pick(len(scs), "scalar")]
		*x.s = hx.Choose(c, "to", ref.Add(*x.s, ref.Int(1)), ref.Sub(*x.s, ref.Int(1)), ref.Neg(*x.s), ref.Int(0), rnd(c), ref.Mul(*x.s, ref.Int(2)),
			ref.Add(*x.s, ref.Big(new(big.Int).Lsh(big.NewInt(1), uint(c.Pick(252, "bit"))))))
		return x.name + " changed"
	case 8:
		x, y := scs[c.Pick(len(scs), "scalar")], scs[c.Pick(len(scs), "scalar2")]
		*x.s, *y.s = *y.s, *x.s
		return x.name + " and " + y.name + " swapped"
	case 9:
		x, y := scs[c.Pick(len(scs), "scalar")], scs[c.Pick(len(scs), "scalar2")]
		k := hx.Choose(c, "k", ref.Int(1), rnd(c))
		*x.s = ref.Add(*x.s, k)
		*y.s = ref.Sub(*y.s, k)
		return x.name + " and " + y.name + " shifted against each other"
	case 10: // the product stays
		k := hx.Choose(c, "k", ref.Int(-1), ref.Int(2), rnd(c))
		r.Aip, r.Bip = ref.Mul(r.Aip, k), ref.Mul(r.Bip, ref.Inv(k))
		return "a and b scaled"
	default: // shape
		switch c.Pick(9, "shape") {
		case 0:
			r.V = r.V[:len(r.V)-1]
			return "last commitment dropped"
		case 1:
			r.V = r.V[1:]
			return "first commitment dropped"
		case 2:
			r.V = append(r.V, r.V[c.Pick(len(r.V), "v")])
			return "commitment duplicated at the end"
		case 3:
			extra := ref.Commit(drawOutside(c, "out"), rnd(c))
			n := hx.Choose(c, "extra", 1, len(r.V), 3*len(r.V))
			for i := 0; i < n; i++ {
				r.V = append(r.V, extra)
			}
			return fmt.Sprintf("%d commitments appended", n)
		case 4:
			r.V = append(append([]P(nil), r.V...), r.V...)
			return "commitments doubled"
		case 5:
			r.L, r.R = r.L[:len(r.L)-1], r.R[:len(r.R)-1]
			return "last L and R dropped"
		case 6:
			r.L, r.R = r.L[1:], r.R[1:]
			return "first L and R dropped"
		case 7:
			p := hx.Choose(c, "with", ref.Zero(), r.L[0])
			r.L, r.R = append(r.L, p), append(r.R, p)
			return "L and R appended"
		default:
			r.V, r.L, r.R = nil, nil, nil
			return "no commitments, no L, no R"
		}
	}
}

// 5. altered honest proofs
func TestC06_Altered(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1600, Thorough: 150000},
		"honest proofs of 1..16 commitments with one or two components altered (shifted, negated, replaced, swapped, copied, dropped, added, two changed so as to cancel); every result that differs from the honest proof must be rejected; non-trivial: the encoding changed",
		func(c *hx.C) {
			e, m := drawBase(c, 16)
			r := e.ref.Clone()
			what := alter(c, r)
			if c.Chance(4, "again") {
				what += ", " + alter2(c, r)
			}
			b := r.Bytes()
			if bytes.Equal(b, e.bytes) {
				return
			}
			if c.Chance(3, "before") && !accepts(e.bytes) {
				c.Fatalf("%d commitments: honest proof rejected", m)
			}
			if accepts(b) {
				c.Fatalf("%d commitments: %s: accepted", m, what)
			}
			// the same, straight on the object
			p, err := decode(e.bytes, true)
			c.Must(err, "decode")
			q, err := decode(r.Tail(), false)
			if err == nil && m <= 4 {
				q.V = p.V[:0:0]
				for _, v := range r.V {
					x := p.V[0]
					x.Value = v
					q.V = append(q.V, x)
				}
				if ok, _ := rangeproof.Verify(q); ok {
					c.Fatalf("%d commitments: %s: accepted with commitments set by hand", m, what)
				}
			}
			c.NT(m, what)
			c.Label(fmt.Sprint("m=", m))
			c.Note("%d commitments: %s", m, what)
		})
}

func alter2(c *hx.C, r *ref.Range) string {
	if len(r.V) == 0 || len(r.L) < 2 {
		return "nothing more"
	}
	return alter(c, r)
}

// 6. bytes that encode no group element
func TestC06_Undecodable(t *testing.T) {
	hx.Check(t, hx.N{Quick: 600, Thorough: 40000},
		"honest proofs in which the bytes of one point are replaced by bytes that encode no group element (non-canonical, negative, not on the curve), or one bit of the encoding flipped; never accepted; non-trivial: all",
		func(c *hx.C) {
			e, m := drawBase(c, 4)
			b := append([]byte(nil), e.bytes...)
			what := ""
			if c.Bool("flip") {
				i := c.Pick(len(b)*8, "bit")
				b[i/8] ^= 1 << uint(i%8)
				what = fmt.Sprint("bit ", i)
				// a scalar's encoding is read modulo the group order
				if p, err := ref.Parse(b); err == nil && bytes.Equal(p.Bytes(), e.bytes) {
					return
				}
			} else {
				slots := m + 4 + 2*len(e.ref.L)
				s := c.Pick(slots, "slot")
				off := 4 + 32*s
				if s >= m+4 {
					off += 5 * 32
				}
				copy(b[off:], badPoint(c))
				what = fmt.Sprint("bad point in slot ", s)
			}
			if c.Chance(3, "before") && !accepts(e.bytes) {
				c.Fatalf("%d commitments: honest proof rejected", m)
			}
			if accepts(b) {
				c.Fatalf("%d commitments, %s: accepted", m, what)
			}
			c.NT(m, what)
			c.Note("%d commitments, %s", m, what)
		})
}
