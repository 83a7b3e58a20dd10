package rp

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"verif/harness/hx"
	"verif/harness/ref"
)

func cloneRange(r *ref.Range) *ref.Range {
	b := *r
	b.V = append([]P(nil), r.V...)
	b.L = append([]P(nil), r.L...)
	b.R = append([]P(nil), r.R...)
	return &b
}

func otherP(c *hx.C, p P) P {
	return hx.Choose(c, "point", ref.PAdd(p, ref.Base()), ref.PSub(ref.Zero(), p), ref.Zero(), anyPoint(c))
}

func otherS(c *hx.C, s S) S {
	return hx.Choose(c, "scalar", ref.Add(s, ref.Int(1)), ref.Neg(s), ref.Int(0), anyScalar(c), ref.Add(s, ref.Pow2(c.Pick(252, "bit"))))
}

func TestC26_RangeProofs(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 500000},
		"pairs of proof objects with 0..20 (300) commitments and 0..12 (72) rounds: copies, or differing in one commitment, A, S, T1, T2, taux, mu, t, a, b, one L or R, two values exchanged, shifted in opposite directions or negated, the number of commitments or rounds (also of L and R separately), or without inner-product proof; Equals with commitments is true exactly if the encodings with commitments agree, without exactly if those without do (blinding factors are never compared), in both directions, without panic; non-trivial: they differ",
		func(c *hx.C) {
			a := drawObject(c)
			if c.Chance(8, "many") {
				for i := c.Int(30, 300, "more"); i > 0; i-- {
					a.V = append(a.V, anyPoint(c))
				}
			}
			if c.Chance(8, "long") {
				for i := c.Int(10, 60, "more"); i > 0; i-- {
					a.L, a.R = append(a.L, anyPoint(c)), append(a.R, anyPoint(c))
				}
			}
			b := cloneRange(a)
			what := "copy"
			nv, nl := len(a.V), len(a.L)
			var dropL, dropR int // from the object after decoding
			noIP := false
			fields := []struct {
				name string
				p    *P
				s    *S
			}{{"A", &b.A, nil}, {"S", &b.S, nil}, {"T1", &b.T1, nil}, {"T2", &b.T2, nil}, {"taux", nil, &b.Taux},
				{"mu", nil, &b.Mu}, {"t", nil, &b.T}, {"a", nil, &b.Aip}, {"b", nil, &b.Bip}}
			switch kind := c.Pick(13, "change"); {
			case kind >= 10:
				ps, ss := []*P{&b.A, &b.S, &b.T1, &b.T2}, []*S{&b.Taux, &b.Mu, &b.T, &b.Aip, &b.Bip}
				for _, l := range [][]P{b.V, b.L, b.R} {
					for i := range l {
						ps = append(ps, &l[i])
					}
				}
				what = ref.Twist(c.Pick, ps, ss)
			case kind <= 3:
				f := fields[c.Pick(len(fields), "field")]
				if f.p != nil {
					*f.p = otherP(c, *f.p)
				} else {
					*f.s = otherS(c, *f.s)
				}
				what = f.name
			case kind == 4 && nv > 0:
				i := c.Pick(nv, "i")
				b.V[i] = otherP(c, b.V[i])
				what = fmt.Sprint("V", i)
			case kind == 5 && nl > 0:
				i := c.Pick(nl, "i")
				if c.Bool("L") {
					b.L[i] = otherP(c, b.L[i])
					what = fmt.Sprint("L", i)
				} else {
					b.R[i] = otherP(c, b.R[i])
					what = fmt.Sprint("R", i)
				}
			case kind == 6: // number of commitments
				if nv > 0 && c.Bool("less") {
					b.V = b.V[:c.Pick(nv, "keep")]
				} else {
					b.V = append(b.V, anyPoint(c))
				}
				what = fmt.Sprint("commitments ", len(b.V))
			case kind == 7: // number of rounds
				if nl > 0 && c.Bool("less") {
					k := c.Pick(nl, "keep")
					b.L, b.R = b.L[:k], b.R[:k]
				} else {
					b.L, b.R = append(b.L, anyPoint(c)), append(b.R, anyPoint(c))
				}
				what = fmt.Sprint("rounds ", len(b.L))
			case kind == 8 && nl > 0:
				if c.Bool("L") {
					dropL = c.Int(1, nl, "drop")
				} else {
					dropR = c.Int(1, nl, "drop")
				}
				what = fmt.Sprintf("L less %d, R less %d", dropL, dropR)
			case kind == 9:
				if c.Bool("nil") {
					noIP = true
					what = "no inner-product proof"
				} else if nv > 1 {
					i, j := c.Pick(nv, "i"), c.Pick(nv, "j")
					b.V[i], b.V[j] = b.V[j], b.V[i]
					what = fmt.Sprintf("V%d and V%d", i, j)
				}
			}
			dec := func(r *ref.Range) rangeproof.Proof {
				p, err := decode(r.Bytes(), true)
				c.Must(err, "Decode")
				for i := range p.V {
					p.V[i].BlindingFactor = rnd(c)
				}
				if c.Bool("blinders") {
					p.Blinders = []S{rnd(c)}
				}
				return p
			}
			pa, pb := dec(a), dec(b)
			bare := bytes.Equal(a.Tail(), b.Tail())
			if dropL > 0 || dropR > 0 {
				pb.IPProof.L, pb.IPProof.R = pb.IPProof.L[:nl-dropL], pb.IPProof.R[:nl-dropR]
				bare = false
			}
			if noIP {
				pb.IPProof = nil
				bare = false
			}
			full := bare && samePoints(a.V, b.V)
			for _, commits := range []bool{true, false} {
				want := bare
				if commits {
					want = full
				}
				if got := pa.Equals(pb, commits); got != want {
					c.Fatalf("%d commitments, %d rounds, %s, commitments compared %v: %v", nv, nl, what, commits, got)
				}
				if got := pb.Equals(pa, commits); got != want {
					c.Fatalf("%d commitments, %d rounds, %s, commitments compared %v: not symmetric", nv, nl, what, commits)
				}
				if !pa.Equals(pa, commits) || !pb.Equals(pb, commits) {
					c.Fatalf("%s: not equal to itself", what)
				}
			}
			if !noIP {
				want := bare || samePoints(pa.IPProof.L, pb.IPProof.L) && samePoints(pa.IPProof.R, pb.IPProof.R) &&
					ref.Eq(pa.IPProof.A, pb.IPProof.A) && ref.Eq(pa.IPProof.B, pb.IPProof.B)
				if pa.IPProof.Equals(*pb.IPProof) != want || pb.IPProof.Equals(*pa.IPProof) != want {
					c.Fatalf("%d rounds, %s: inner-product proofs should be equal: %v", nl, what, want)
				}
			}
			if !full {
				c.NT(nv, nl, what, hx.Short(a.Bytes()[4:]))
			}
			c.Label(what[:1])
			c.Note("%d commitments, %d rounds: %s", nv, nl, what)
		})
}

func TestC26_InnerProduct(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 500000},
		"pairs of inner-product proofs with independently chosen numbers (0..64) of L and R, copies or differing in one entry, swapped L and R, moved entries; Equals is true exactly if all of L, R, a and b are the same; non-trivial: they differ",
		func(c *hx.C) {
			var a innerproduct.Proof
			most := hx.Choose(c, "most", 8, 8, 8, 64)
			for i := c.Int(0, most, "L"); i > 0; i-- {
				a.L = append(a.L, anyPoint(c))
			}
			for i := c.Int(0, most, "R"); i > 0; i-- {
				a.R = append(a.R, anyPoint(c))
			}
			a.A, a.B = anyScalar(c), anyScalar(c)
			b := a
			b.L, b.R = append([]P(nil), a.L...), append([]P(nil), a.R...)
			kind := c.Pick(11, "change")
			switch {
			case kind >= 8:
				ps := []*P{}
				for _, l := range [][]P{b.L, b.R} {
					for i := range l {
						ps = append(ps, &l[i])
					}
				}
				ref.Twist(c.Pick, ps, []*S{&b.A, &b.B})
			case kind == 1 && len(b.L) > 0:
				i := c.Pick(len(b.L), "i")
				b.L[i] = otherP(c, b.L[i])
			case kind == 2 && len(b.R) > 0:
				i := c.Pick(len(b.R), "i")
				b.R[i] = otherP(c, b.R[i])
			case kind == 3:
				b.L, b.R = b.R, b.L
			case kind == 4:
				b.A, b.B = b.B, b.A
			case kind == 5 && len(b.L) > 0: // the same sequence of points, split elsewhere
				k := len(b.L) - 1
				b.R = append([]P{b.L[k]}, b.R...)
				b.L = b.L[:k]
			case kind == 6:
				if c.Bool("L") {
					b.L = append(b.L, ref.Zero())
				} else {
					b.R = append(b.R, ref.Zero())
				}
			case kind == 7:
				if c.Bool("a") {
					b.A = otherS(c, b.A)
				} else {
					b.B = otherS(c, b.B)
				}
			}
			want := samePoints(a.L, b.L) && samePoints(a.R, b.R) && ref.Eq(a.A, b.A) && ref.Eq(a.B, b.B)
			if a.Equals(b) != want || b.Equals(a) != want || !a.Equals(a) {
				c.Fatalf("change %d, %d L and %d R against %d and %d: equal %v and %v", kind, len(a.L), len(a.R), len(b.L), len(b.R), a.Equals(b), b.Equals(a))
			}
			if !want {
				c.NT(kind, len(a.L), len(a.R), len(b.L), len(b.R))
			}
			c.Note("change %d: %d L and %d R against %d and %d: %v", kind, len(a.L), len(a.R), len(b.L), len(b.R), want)
		})
}

func TestC26_Commitments(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 400000},
		"pairs of commitments, made by the code or set directly, to equal or different values with equal or different blinding factors: EqualValue compares the points, Equals points and blinding factors; a decoded commitment equals the original in value; non-trivial: they differ",
		func(c *hx.C) {
			var a pedersen.Commitment
			if c.Bool("made") {
				a = pedersen.New([]byte("equality")).CommitToScalar(drawScalar(c, "v"))
			} else {
				a = pedersen.Commitment{Value: anyPoint(c), BlindingFactor: anyScalar(c)}
			}
			b := a
			kind := c.Pick(4, "change")
			if kind&1 == 1 {
				b.Value = otherP(c, b.Value)
			}
			if kind&2 == 2 {
				b.BlindingFactor = otherS(c, b.BlindingFactor)
			}
			v := ref.PEq(a.Value, b.Value)
			full := v && ref.Eq(a.BlindingFactor, b.BlindingFactor)
			if a.EqualValue(b) != v || b.EqualValue(a) != v {
				c.Fatalf("change %d: EqualValue should be %v", kind, v)
			}
			if a.Equals(b) != full || b.Equals(a) != full {
				c.Fatalf("change %d: Equals should be %v", kind, full)
			}
			var w bytes.Buffer
			c.Must(a.Encode(&w), "Encode")
			var d pedersen.Commitment
			c.Must(d.Decode(&w), "Decode")
			if !d.EqualValue(a) || !a.EqualValue(d) {
				c.Fatalf("decoded commitment differs")
			}
			if !full {
				c.NT(kind, hx.Short(a.Value.Bytes()), hx.Short(a.BlindingFactor.Bytes()))
			}
			c.Note("change %d: values equal %v, all equal %v", kind, v, full)
		})
}

func TestC26_SharedMemory(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 200000},
		"proofs copied by assignment, so that they share the inner-product proof and the lists, then changed in one component, or with lists cut short or replaced, and inner-product proofs likewise: Equals is true exactly if the encodings agree, in both directions; non-trivial: they differ",
		func(c *hx.C) {
			o := drawObject(c)
			p, err := decode(o.Bytes(), true)
			c.Must(err, "Decode")
			q := p
			ip := *p.IPProof
			i := c.Pick(max(1, len(p.V)), "i")
			k := c.Pick(max(1, len(ip.L)), "k")
			what := hx.Choose(c, "change", "none", "A", "S", "T1", "T2", "V", "fewer V", "more V", "new IP", "ip A", "ip B", "fewer rounds", "L", "R", "L and R")
			vs := append([]pedersen.Commitment(nil), p.V...)
			switch what {
			case "A":
				q.A = anyPoint(c)
			case "S":
				q.S = anyPoint(c)
			case "T1":
				q.T1 = anyPoint(c)
			case "T2":
				q.T2 = anyPoint(c)
			case "V":
				if len(vs) > 0 {
					vs[i].Value = anyPoint(c)
				}
				q.V = vs
			case "fewer V":
				q.V = p.V[:i]
			case "more V":
				q.V = append(vs, pedersen.Commitment{Value: anyPoint(c)})
			case "ip A":
				ip.A = anyScalar(c)
			case "ip B":
				ip.B = anyScalar(c)
			case "fewer rounds":
				ip.L, ip.R = ip.L[:k], ip.R[:k]
			case "L", "R", "L and R":
				l, r := append([]P(nil), ip.L...), append([]P(nil), ip.R...)
				if len(l) > 0 {
					if what != "R" {
						l[k] = anyPoint(c)
					}
					if what != "L" {
						r[k] = anyPoint(c)
					}
				}
				if what != "R" {
					ip.L = l
				}
				if what != "L" {
					ip.R = r
				}
			}
			enc := func(x *innerproduct.Proof) []byte {
				var w bytes.Buffer
				c.Must(x.Encode(&w), "Encode")
				return w.Bytes()
			}
			wantIP := bytes.Equal(enc(p.IPProof), enc(&ip))
			if p.IPProof.Equals(ip) != wantIP || ip.Equals(*p.IPProof) != wantIP {
				c.Fatalf("%s: inner-product proofs equal: %v, want %v", what, !wantIP, wantIP)
			}
			if !wantIP || what == "new IP" {
				q.IPProof = &ip
			}
			for _, commits := range []bool{true, false} {
				want := bytes.Equal(encode(&p, commits), encode(&q, commits))
				if p.Equals(q, commits) != want || q.Equals(p, commits) != want {
					c.Fatalf("%s, commitments %v: equal %v, want %v", what, commits, !want, want)
				}
				if !want {
					c.NT(what, i, k, hx.Short(o.Tail()))
				}
			}
			c.Label(what)
		})
}
