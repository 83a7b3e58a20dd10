package rp

import (
	"math/big"
	"sort"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"verif/harness/hx"
	"verif/harness/ref"
)

func ints(v []S) []*big.Int {
	var out []*big.Int
	for _, s := range v {
		out = append(out, ref.Val(s))
	}
	return out
}

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, ref.L) }

func TestC13_Vectors(t *testing.T) {
	hx.Check(t, hx.N{Quick: 150000, Thorough: 3000000},
		"one of the 12 operations on vectors of length 0..9 (sometimes 60..130, rarely around 256, 512 and 1024) of any scalars, zero, 1, -1 and extremes in particular, second operand of another length one time in five; result compared with integer arithmetic modulo the group order, operands and the memory behind them compared before and after, the result overwritten and operands compared again; non-trivial: length at least 1",
		func(c *hx.C) {
			n := c.Int(0, 9, "n")
			if c.Chance(20, "long") {
				n = c.Int(60, 130, "n")
				if c.Chance(12, "very long") {
					n = hx.Choose(c, "n", 256, 512, 1024) + c.Int(-3, 3, "off")
				}
			}
			mk := func(n int) []S {
				m := make([]S, n+c.Pick(3, "spare"))
				kind := c.Pick(4, "entries")
				for i := range m {
					switch kind {
					case 0:
						m[i] = ref.Int(int64(c.Src.IntN(3)) - 1)
					case 1:
						m[i] = rnd(c)
					default:
						m[i] = anyScalar(c)
					}
				}
				return m[:n]
			}
			a := mk(n)
			n2 := n
			if c.Chance(5, "mismatch") {
				n2 = c.Int(0, 11, "n2")
			}
			b := mk(n2)
			if n == n2 && c.Chance(8, "alias") {
				b = a
			}
			k := drawScalar(c, "k")
			if n > 0 && c.Chance(6, "k from a") {
				k = a[c.Pick(n, "k")]
			}
			sa, sb, sk := snapS(a), snapS(b), k
			A, B, K := ints(a), ints(b), ref.Val(k)
			var got []S
			var want []*big.Int
			var err error
			wantErr := false
			shares := false
			op := hx.Choose(c, "op", "Add", "Sub", "Neg", "AddScalar", "SubScalar", "MulScalar", "InnerProduct", "Hadamard",
				"ScalarPowers", "ScalarPowersSum", "FromScalar", "SplitScalars")
			each := func(f func(i int) *big.Int) {
				for i := range A {
					want = append(want, mod(f(i)))
				}
			}
			z := func() *big.Int { return new(big.Int) }
			switch op {
			case "Add":
				got, err = vector.Add(a, b)
				if wantErr = n != n2; !wantErr {
					each(func(i int) *big.Int { return z().Add(A[i], B[i]) })
				}
			case "Sub":
				got, err = vector.Sub(a, b)
				if wantErr = n != n2; !wantErr {
					each(func(i int) *big.Int { return z().Sub(A[i], B[i]) })
				}
			case "Hadamard":
				got, err = vector.Hadamard(a, b)
				if wantErr = n != n2; !wantErr {
					each(func(i int) *big.Int { return z().Mul(A[i], B[i]) })
				}
			case "Neg":
				got = vector.Neg(a)
				each(func(i int) *big.Int { return z().Neg(A[i]) })
			case "AddScalar":
				got = vector.AddScalar(a, k)
				each(func(i int) *big.Int { return z().Add(A[i], K) })
			case "SubScalar":
				got = vector.SubScalar(a, k)
				each(func(i int) *big.Int { return z().Sub(A[i], K) })
			case "MulScalar":
				got = vector.MulScalar(a, k)
				each(func(i int) *big.Int { return z().Mul(A[i], K) })
			case "FromScalar":
				got = vector.FromScalar(k, uint32(n))
				each(func(i int) *big.Int { return K })
			case "ScalarPowers":
				got = vector.ScalarPowers(k, uint32(n))
				each(func(i int) *big.Int { return z().Exp(K, big.NewInt(int64(i)), ref.L) })
			case "ScalarPowersSum":
				got = []S{vector.ScalarPowersSum(k, uint64(n))}
				s := z()
				for i := 0; i < n; i++ {
					s.Add(s, z().Exp(K, big.NewInt(int64(i)), ref.L))
				}
				want = []*big.Int{mod(s)}
			case "InnerProduct":
				var s S
				s, err = vector.InnerProduct(a, b)
				if wantErr = n != n2; !wantErr {
					got = []S{s}
					t := z()
					for i := range A {
						t.Add(t, z().Mul(A[i], B[i]))
					}
					want = []*big.Int{mod(t)}
				}
			case "SplitScalars":
				at := c.Int(0, n+2, "at")
				if c.Chance(10, "huge") {
					at = 1<<32 - 1 - c.Pick(3, "at")
				}
				var l, r []S
				l, r, err = vector.SplitScalars(a, uint32(at))
				wantErr = at >= n
				if !wantErr && err == nil {
					if len(l) != at || len(r) != n-at {
						c.Fatalf("split of %d at %d: %d and %d", n, at, len(l), len(r))
					}
					got = append(append([]S(nil), l...), r...)
					want = A
				}
				shares = true
			}
			if wantErr {
				if err == nil {
					c.Fatalf("%s on lengths %d and %d: no error", op, n, n2)
				}
			} else {
				if err != nil {
					c.Fatalf("%s on lengths %d and %d: %v", op, n, n2, err)
				}
				if len(got) != len(want) {
					c.Fatalf("%s on length %d: %d entries instead of %d", op, n, len(got), len(want))
				}
				for i := range got {
					if ref.Val(got[i]).Cmp(want[i]) != 0 {
						c.Fatalf("%s on length %d: entry %d is %v, not %v (a %v, b %v, k %v)", op, n, i, ref.Val(got[i]), want[i], A, B, K)
					}
				}
			}
			same := func() bool { return sameScalars(snapS(a), sa) && sameScalars(snapS(b), sb) && k == sk }
			if !same() {
				c.Fatalf("%s on lengths %d and %d: an operand was modified", op, n, n2)
			}
			if !shares && len(got) > 0 {
				for i := range got {
					got[i] = ref.Int(int64(77 + i))
				}
				if !same() {
					c.Fatalf("%s on length %d: the result shares memory with an operand", op, n)
				}
			}
			if n > 0 {
				c.NT(op, n, n2, wantErr, A[0], K)
			}
			c.Label(op)
			c.Note("%s on lengths %d and %d, k %v", op, n, n2, K)
		})
}

func TestC13_Points(t *testing.T) {
	hx.Check(t, hx.N{Quick: 15000, Thorough: 200000},
		"multi-exponentiation of 0..40, rarely 1027, scalars and points (zero scalars, neutral and repeated points, terms that double or cancel the sum so far; lengths that differ; required sizes N*M below, at and above the length) and splitting of point vectors; compared with an independent multi-exponentiation; non-trivial: length at least 1",
		func(c *hx.C) {
			n := c.Int(0, 9, "n")
			if c.Chance(8, "long") {
				n = c.Int(10, 40, "n")
				if c.Chance(20, "very long") {
					n = hx.Choose(c, "n3", 60, 64, 128, 256, 270, 512, 1024) + c.Int(0, 3, "n3+")
				}
			}
			n2 := n
			if c.Chance(5, "mismatch") {
				n2 = c.Int(0, 11, "n2")
			}
			a := make([]S, n, n+2)
			for i := range a {
				a[i] = anyScalar(c)
			}
			b := make([]P, n2, n2+2)
			for i := range b {
				b[i] = anyPoint(c)
			}
			if n == n2 && n > 1 && c.Chance(4, "related") {
				// a term that doubles or cancels what there is so far, or repeats the last one
				i := hx.Choose(c, "term", n-1, 1, c.Int(1, n-1, "any"))
				switch c.Pick(3, "relation") {
				case 0:
					a[i], b[i] = ref.Int(1), ref.MExp(a[:i], b[:i])
				case 1:
					a[i], b[i] = ref.Int(-1), ref.MExp(a[:i], b[:i])
				default:
					a[i], b[i] = a[i-1], b[i-1]
				}
			}
			sa, sb := snapS(a), snapP(b)
			if c.Chance(3, "split") {
				at := c.Int(0, n2+2, "at")
				l, r, err := vector.SplitPoints(b, uint32(at))
				if (at >= n2) != (err != nil) {
					c.Fatalf("split of %d points at %d: error %v", n2, at, err)
				}
				if err == nil && (len(l) != at || len(r) != n2-at || !equalP(append(append([]P(nil), l...), r...), sb[:n2])) {
					c.Fatalf("split of %d points at %d is wrong", n2, at)
				}
				c.NT("split", n2, at)
				return
			}
			N, M := n, 1
			switch c.Pick(6, "N") {
			case 0:
				N = c.Int(0, n+2, "N")
			case 1:
				N, M = c.Int(0, 6, "N"), c.Int(0, 6, "M")
			}
			wantErr := n != n2 || n < N*M
			got, err := vector.Exp(a, b, N, M)
			if wantErr != (err != nil) {
				c.Fatalf("Exp of %d scalars and %d points for %dx%d: error %v", n, n2, N, M, err)
			}
			if err == nil && !ref.PEq(got, ref.MExp(a, b)) {
				c.Fatalf("Exp of %d scalars and points for %dx%d is wrong", n, N, M)
			}
			if !sameScalars(snapS(a), sa) || !equalP(snapP(b), sb) {
				c.Fatalf("Exp modified an operand")
			}
			if n > 0 {
				c.NT(n, n2, N, M, ref.Val(a[0]))
			}
			c.Note("Exp of %d and %d for %dx%d", n, n2, N, M)
		})
}

func TestC13_LongSums(t *testing.T) {
	hx.Check(t, hx.N{Quick: 800, Thorough: 30000},
		"multi-exponentiation of 40..1100 terms (around powers of two more often), sparse, small or random scalars over few or many points, with several terms that double, cancel or repeat what there is so far or the terms before; compared with an independent multi-exponentiation; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(40, 300, "n")
			if c.Bool("power") {
				n = hx.Choose(c, "n2", 64, 128, 256, 512, 1024) + c.Int(-2, 3, "n2+")
			}
			a, b := make([]S, n), make([]P, n)
			few := hx.Choose(c, "points", 1, 2, 5, 1000)
			pts := make([]P, min(few, 40))
			for i := range pts {
				pts[i] = anyPoint(c)
			}
			kind := c.Pick(3, "scalars")
			for i := range a {
				switch {
				case kind == 0 && c.Src.IntN(8) > 0:
					a[i] = ref.Int(0)
				case kind <= 1:
					a[i] = ref.Int(int64(c.Src.IntN(5)) - 2)
				default:
					a[i] = rnd(c)
				}
				b[i] = pts[c.Src.IntN(len(pts))]
			}
			var rel []int
			for k := c.Int(0, 3, "relations"); k > 0; k-- {
				rel = append(rel, hx.Choose(c, "term", n-1, c.Int(1, n-1, "any"), c.Int(n/2, n-1, "late")))
			}
			sort.Ints(rel)
			for _, i := range rel {
				switch c.Pick(4, "relation") {
				case 0:
					a[i], b[i] = ref.Int(1), ref.MExp(a[:i], b[:i])
				case 1:
					a[i], b[i] = ref.Int(-1), ref.MExp(a[:i], b[:i])
				case 2:
					a[i], b[i] = ref.Neg(a[i-1]), b[i-1]
				default:
					a[i], b[i] = a[i-1], b[i-1]
				}
			}
			got, err := vector.Exp(a, b, n, 1)
			c.Must(err, "Exp")
			if !ref.PEq(got, ref.MExp(a, b)) {
				c.Fatalf("Exp of %d terms (kind %d, %d points, relations at %v) is wrong", n, kind, few, rel)
			}
			c.NT(n, kind, few, rel)
			c.Note("%d terms (kind %d, %d points, relations at %v)", n, kind, few, rel)
		})
}

func TestC14_Bits(t *testing.T) {
	hx.Check(t, hx.N{Quick: 150000, Thorough: 2000000},
		"amounts in [0,2^64) (edges, powers of two and neighbours, random): both vectors compared entry by entry with the integer's bits; the self-check accepts it, rejects other amounts (neighbours, flipped bits, plus or minus 2^64, negated) and altered entries (other bit, other scalar, left, right or both); non-trivial: amount above 1",
		func(c *hx.C) {
			v := drawAmount(c, "v")
			in := new(big.Int).SetUint64(v)
			bc := rangeproof.BitCommit(in)
			if in.Cmp(new(big.Int).SetUint64(v)) != 0 {
				c.Fatalf("%d: the caller's amount was changed", v)
			}
			if len(bc.AL) != 64 || len(bc.AR) != 64 {
				c.Fatalf("%d: %d and %d entries", v, len(bc.AL), len(bc.AR))
			}
			for i := 0; i < 64; i++ {
				bit := int64(v >> uint(i) & 1)
				if !ref.Eq(bc.AL[i], ref.Int(bit)) {
					c.Fatalf("%d: left entry %d is %v", v, i, ref.Val(bc.AL[i]))
				}
				if !ref.Eq(bc.AR[i], ref.Int(bit-1)) {
					c.Fatalf("%d: right entry %d is %v", v, i, ref.Val(bc.AR[i]))
				}
			}
			if err := bc.Debug(in); err != nil {
				c.Fatalf("%d: the self-check fails: %v", v, err)
			}
			two64 := new(big.Int).Lsh(big.NewInt(1), 64)
			var other *big.Int
			switch c.Pick(6, "other") {
			case 0:
				other = new(big.Int).Add(in, big.NewInt(1))
			case 1:
				other = new(big.Int).Sub(in, big.NewInt(1))
			case 2:
				other = new(big.Int).SetUint64(v ^ 1<<c.Pick(64, "bit"))
			case 3:
				other = new(big.Int).Add(in, new(big.Int).Mul(two64, big.NewInt(int64(c.Int(1, 3, "k")))))
			case 4:
				other = new(big.Int).Sub(in, two64)
			default:
				other = new(big.Int).Neg(in)
			}
			if other.Cmp(in) != 0 && bc.Debug(other) == nil {
				c.Fatalf("decomposition of %d passes the self-check for %v", v, other)
			}
			i := c.Pick(64, "entry")
			side := c.Pick(3, "side")
			al, ar := bc.AL[i], bc.AR[i]
			if side != 1 {
				bc.AL[i] = hx.Choose(c, "to", ref.Sub(ref.Int(1), al), ref.Add(al, ref.Int(2)), ref.Int(-1), ref.Neg(ref.Add(al, ref.Int(1))), rnd(c))
			}
			if side != 0 {
				bc.AR[i] = hx.Choose(c, "to", ref.Sub(ref.Int(-1), ar), ref.Add(ar, ref.Int(2)), ref.Int(1), rnd(c))
				if side == 2 {
					bc.AR[i] = ref.Sub(bc.AL[i], ref.Int(1))
				}
			}
			if !ref.Eq(al, bc.AL[i]) || !ref.Eq(ar, bc.AR[i]) {
				if bc.Debug(in) == nil {
					c.Fatalf("%d: entry %d altered to %v/%v passes the self-check", v, i, ref.Val(bc.AL[i]), ref.Val(bc.AR[i]))
				}
			}
			if v > 1 {
				c.NT(v)
			}
			c.Note("%d: other %v, entry %d", v, other, i)
		})
}
