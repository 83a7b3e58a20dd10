package rp

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"verif/harness/hx"
	"verif/harness/ref"
)

func TestC09_OurVerifier(t *testing.T) {
	hx.Check(t, hx.N{Quick: 160, Thorough: 8000},
		"proofs made by the code for lists of 1..16 amounts, parsed and verified by the independent verifier; non-trivial: all",
		func(c *hx.C) {
			n := hx.Choose(c, "n", 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7, 8, 9, 16)
			var list []S
			var amounts []uint64
			for i := 0; i < n; i++ {
				a := drawAmount(c, "amount")
				amounts = append(amounts, a)
				list = append(list, amt(a))
			}
			p, err := rangeproof.Prove(list, false)
			c.Must(err, "Prove")
			r, err := ref.Parse(encode(&p, true))
			if err != nil {
				c.Fatalf("%v: the encoding is not in the published format: %v", amounts, err)
			}
			if err := r.Verify(); err != nil {
				c.Fatalf("%v: the independent verifier rejects: %v", amounts, err)
			}
			c.NT(amounts)
			c.Note("%v", amounts)
		})
}

func TestC09_OurProver(t *testing.T) {
	hx.Check(t, hx.N{Quick: 500, Thorough: 30000},
		"proofs made by the independent prover for 1..16 amounts, with random or degenerate randomness (zero blinding factors, zero masking vectors: neutral elements in the proof), accepted by the code; non-trivial: all",
		func(c *hx.C) {
			m := hx.Choose(c, "m", 1, 1, 1, 1, 2, 2, 2, 4, 4, 8, 16)
			p := &ref.Prover{Rand: func() S { return rnd(c) }}
			for i := 0; i < m; i++ {
				p.Values = append(p.Values, amt(drawAmount(c, "amount")))
			}
			kind := c.Pick(4, "randomness")
			switch kind {
			case 0:
				p.Blinds = make([]S, m)
			case 1:
				p.SL, p.SR = make([]S, ref.Bits*m), make([]S, ref.Bits*m)
			case 2:
				p.SL, p.SR = make([]S, ref.Bits*m), make([]S, ref.Bits*m)
				p.Blinds = make([]S, m)
				p.Rand = func() S { return ref.Int(0) }
			}
			r := p.Prove()
			if r.Verify() != nil {
				panic("HARNESS-ERROR: reference rejects its own proof")
			}
			if !accepts(r.Bytes()) {
				c.Fatalf("%d amounts (randomness %d): the code rejects a valid proof", m, kind)
			}
			c.NT(m, kind, ref.Val(p.Values[0]), r.A.Bytes())
			c.Label(fmt.Sprint("m=", m))
			c.Note("%d amounts, randomness %d", m, kind)
		})
}

func TestC09_SameVerdict(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1000, Thorough: 60000},
		"independent proofs, honest, by a cheating prover, or altered in 0..2 components, or with single bits flipped: the code and the independent verifier agree on whether they decode and verify; non-trivial: not the honest proof",
		func(c *hx.C) {
			m := hx.Choose(c, "m", 1, 1, 1, 1, 2, 2, 4)
			var r *ref.Range
			what := "pool"
			if c.Chance(4, "fresh") {
				p := &ref.Prover{Rand: func() S { return rnd(c) }, ForceT: c.Bool("forceT")}
				what = cheat(c, p, m)
				r = p.Prove()
			} else {
				e := base(m, c.Pick(poolPer, "pool"))
				c.Must(e.err, "honest proof")
				r = e.ref.Clone()
			}
			orig := r.Bytes()
			if c.Chance(3, "altered") {
				what += ", " + alter(c, r)
			}
			b := r.Bytes()
			if c.Chance(3, "flip") {
				i := c.Pick(len(b)*8, "bit")
				b[i/8] ^= 1 << uint(i%8)
				what += fmt.Sprint(", bit ", i)
			}
			q, refErr := ref.Parse(b)
			if refErr == nil {
				refErr = q.Verify()
			}
			if got := accepts(b); got != (refErr == nil) {
				c.Fatalf("%d commitments, %s: code %v, independent verifier %v", m, what, got, refErr)
			}
			if !bytes.Equal(b, orig) {
				c.NT(m, what)
			}
			c.Label(fmt.Sprint("accepted ", refErr == nil))
			c.Note("%d commitments, %s: %v", m, what, refErr)
		})
}
