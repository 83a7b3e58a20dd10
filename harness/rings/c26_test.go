package rings

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"verif/harness/hx"
	"verif/harness/ref"
)

// obj makes a signature object from a description whose rows may be of any
// length (Signature.Decode needs rows of equal length, so ragged objects are
// only made for the keys).
func obj(c *hx.C, r *ref.Ring) mlsag.Signature {
	s, err := fromRef(r)
	c.Must(err, "Decode")
	return *s
}

func TestC26_Signatures(t *testing.T) {
	hx.Check(t, hx.N{Quick: 16000, Thorough: 500000},
		"pairs of signature objects with 0..12 (150) members of 1..5 (70) keys: equal copies, two values exchanged, shifted in opposite directions or negated, or differing in the challenge, one response, one key, the order, the number of members, of responses or of keys of one or all members: Equals with keys is true exactly if the encodings with keys and the numbers of keys agree, without keys exactly if the encodings without keys agree, in both directions, and an object equals itself; messages are not part of it; non-trivial: the objects differ",
		func(c *hx.C) {
			n, k := c.Int(0, 12, "members"), c.Int(1, 5, "keys")
			if c.Chance(20, "large") {
				n = c.Int(13, 150, "members")
			} else if c.Chance(20, "long") {
				k = c.Int(6, 70, "keys")
			}
			if n == 0 {
				k = 1
			}
			a := drawRing(c, n, k)
			a.Msg = c.Bytes(3)
			b := a.Clone()
			what := "copy"
			i, j := c.Pick(max(n, 1), "i"), c.Pick(max(k, 1), "j")
			switch kind := c.Pick(18, "change"); {
			case kind >= 14:
				ps, ss := []*P{}, []*S{&b.C}
				for m := range b.K {
					for l := range b.K[m] {
						ps, ss = append(ps, &b.K[m][l]), append(ss, &b.R[m][l])
					}
				}
				what = ref.Twist(c.Pick, ps, ss)
			case kind == 1:
				b.C = hx.Choose(c, "c", ref.Add(b.C, ref.Pow2(c.Pick(252, "bit"))), ref.Neg(b.C), anyScalar(c))
				what = "challenge"
			case kind == 2 && n > 0:
				b.R[i][j] = hx.Choose(c, "r", ref.Add(b.R[i][j], ref.Pow2(c.Pick(252, "bit"))), ref.Neg(b.R[i][j]), anyScalar(c))
				what = fmt.Sprintf("response %d of member %d", j, i)
			case (kind == 3 || kind == 4) && n > 0:
				b.K[i][j] = hx.Choose(c, "k", ref.PAdd(b.K[i][j], ref.Base()), ref.PSub(ref.Zero(), b.K[i][j]), stock[c.Pick(len(stock), "to")])
				what = fmt.Sprintf("key %d of member %d", j, i)
			case kind == 5 && n > 1:
				m := (i + 1 + c.Pick(n-1, "m")) % n
				if c.Bool("keys") {
					b.K[i], b.K[m] = b.K[m], b.K[i]
				} else {
					b.R[i], b.R[m] = b.R[m], b.R[i]
				}
				what = fmt.Sprintf("members %d and %d swapped", i, m)
			case kind == 6 && n > 0: // one member less
				if c.Bool("keys") {
					b.K = b.K[:n-1]
				} else {
					b.R = b.R[:n-1]
				}
				what = "last member dropped"
			case kind == 7 && n > 0:
				b.R, b.K = b.R[:n-1], b.K[:n-1]
				what = "last member and responses dropped"
			case kind == 8 && n > 0: // keys of one member
				if c.Bool("more") {
					b.K[i] = append(append([]P{}, b.K[i]...), stock[0])
				} else {
					b.K[i] = b.K[i][:k-1]
				}
				what = fmt.Sprintf("member %d has %d keys", i, len(b.K[i]))
			case kind == 9 && n > 0: // responses of all
				for m := range b.R {
					b.R[m] = append(append([]S{}, b.R[m]...), rnd(c))
				}
				what = "one response more each"
			case kind == 10 && k > 1 && n > 0:
				for m := range b.R {
					b.R[m] = b.R[m][:k-1]
				}
				what = "one response less each"
			case kind == 11:
				b.K = nil
				what = "no keys"
			case kind == 12:
				b.K = append(b.K, drawMember(c, k))
				what = "one member's keys more"
			case kind == 13 && n > 1: // the boundary between two members moves
				b.K[0], b.K[1] = append(append([]P{}, b.K[0]...), b.K[1][0]), b.K[1][1:]
				what = "a key moves to its neighbour"
			}
			if c.Bool("msg") {
				b.Msg = c.Bytes(4)
			}
			shape := func(r *ref.Ring) string {
				s := fmt.Sprint(len(r.K))
				for _, m := range r.K {
					s += fmt.Sprint(",", len(m))
				}
				return s
			}
			sa, sb := obj(c, a), obj(c, b)
			bare := bytes.Equal(a.Bytes(false), b.Bytes(false))
			full := bare && shape(a) == shape(b)
			for m := 0; full && m < len(a.K); m++ {
				full = bytes.Equal(rowBytes(a.K[m]), rowBytes(b.K[m]))
			}
			for _, keys := range []bool{true, false} {
				want := bare
				if keys {
					want = full
				}
				if got := sa.Equals(sb, keys); got != want {
					c.Fatalf("%d members of %d keys, %s, keys compared %v: %v", n, k, what, keys, got)
				}
				if got := sb.Equals(sa, keys); got != want {
					c.Fatalf("%d members of %d keys, %s, keys compared %v: not symmetric", n, k, what, keys)
				}
				if !sa.Equals(sa, keys) || !sb.Equals(sb, keys) {
					c.Fatalf("%s: not equal to itself", what)
				}
			}
			if !full {
				c.NT(n, k, what, hx.Short(a.Bytes(true)))
			}
			c.Label(what[:min(len(what), 8)])
			c.Note("%d members of %d keys: %s", n, k, what)
		})
}

func TestC26_Vectors(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 500000},
		"pairs of key vectors and of response vectors of 0..12 (300) entries: copies, two values exchanged, shifted in opposite directions or negated, one entry changed, entries swapped, one more, one less, a prefix, unrelated: Equals is true exactly if the encodings agree, in both directions; key vectors given as decoys or not; non-trivial: they differ",
		func(c *hx.C) {
			n := c.Int(0, 12, "n")
			if c.Chance(20, "large") {
				n = c.Int(13, 300, "n")
			}
			isKeys := c.Bool("keys")
			var ps, qs []P
			var ss, ts []S
			for i := 0; i < n; i++ {
				ps, ss = append(ps, drawMember(c, 1)[0]), append(ss, anyScalar(c))
			}
			qs, ts = append(qs, ps...), append(ts, ss...)
			what := "copy"
			switch kind := c.Pick(9, "change"); {
			case kind >= 6:
				var a []*P
				var b []*S
				for i := range qs {
					a, b = append(a, &qs[i]), append(b, &ts[i])
				}
				if isKeys {
					b = nil
				} else {
					a = nil
				}
				what = ref.Twist(c.Pick, a, b)
			case kind == 1 && n > 0:
				i := c.Pick(n, "i")
				qs[i] = hx.Choose(c, "to", ref.PAdd(qs[i], ref.Base()), stock[c.Pick(len(stock), "p")], ref.PSub(ref.Zero(), qs[i]))
				ts[i] = hx.Choose(c, "to", ref.Add(ts[i], ref.Pow2(c.Pick(252, "bit"))), anyScalar(c), ref.Neg(ts[i]))
				what = fmt.Sprint("entry ", i)
			case kind == 2 && n > 1:
				i, j := c.Pick(n, "i"), c.Pick(n, "j")
				qs[i], qs[j], ts[i], ts[j] = qs[j], qs[i], ts[j], ts[i]
				what = fmt.Sprint("swap ", i, " ", j)
			case kind == 3:
				qs, ts = append(qs, hx.Choose(c, "p", ref.Zero(), stock[1])), append(ts, hx.Choose(c, "s", ref.Int(0), rnd(c)))
				what = "one more"
			case kind == 4 && n > 0:
				m := c.Pick(n, "keep")
				qs, ts = qs[:m], ts[:m]
				what = fmt.Sprint("only the first ", m)
			}
			var want, ab, ba, aa bool
			if isKeys {
				want = bytes.Equal(rowBytes(ps), rowBytes(qs))
				a, b := pubKeys(ps), pubKeys(qs)
				ab, ba, aa = a.Equals(b), b.Equals(a), a.Equals(a) && b.Equals(b)
			} else {
				want = len(ss) == len(ts)
				for i := 0; want && i < len(ss); i++ {
					want = ref.Eq(ss[i], ts[i])
				}
				var a, b mlsag.Responses
				for i := range ss {
					a.AddResponse(ss[i])
				}
				for i := range ts {
					b.AddResponse(ts[i])
				}
				ab, ba, aa = a.Equals(b), b.Equals(a), a.Equals(a) && b.Equals(b)
			}
			if ab != want || ba != want || !aa {
				c.Fatalf("keys %v, %d entries, %s: equal %v and %v, to itself %v", isKeys, n, what, ab, ba, aa)
			}
			if !want {
				c.NT(isKeys, n, what)
			}
			c.Note("keys %v, %d entries, %s: %v", isKeys, n, what, want)
		})
}

func TestC26_SharedMemory(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 200000},
		"objects copied by assignment, so that they share memory, then changed in one place, lengthened, shortened or not at all: signatures whose list of members is replaced, key vectors and response vectors: Equals is true exactly if the encodings agree, in both directions; non-trivial: they differ",
		func(c *hx.C) {
			n, k := c.Int(1, 6, "members"), c.Int(1, 4, "keys")
			r := drawRing(c, n, k)
			a := obj(c, r)
			kind := c.Pick(3, "object")
			change := c.Pick(5, "change")
			i := c.Pick(n, "i")
			var want, ab, ba bool
			switch kind {
			case 0:
				b := a
				keys := append([]mlsag.PubKeys(nil), a.PubKeys...)
				switch change {
				case 1:
					b.PubKeys = a.PubKeys[:i]
				case 2:
					b.PubKeys = append(a.PubKeys[:n:n], pubKeys(drawMember(c, k)))
				case 3:
					keys[i] = pubKeys(drawMember(c, k))
					b.PubKeys = keys
				case 4:
					keys[i], keys[0] = keys[0], keys[i]
					b.PubKeys = keys
				}
				want = bytes.Equal(sigBytes(&a, true), sigBytes(&b, true))
				ab, ba = a.Equals(b, true), b.Equals(a, true)
				if !a.Equals(b, false) || !b.Equals(a, false) {
					c.Fatalf("equal but for the keys: not equal without them")
				}
			case 1:
				var x mlsag.PubKeys
				for _, p := range r.K[i] {
					x.AddPubKey(p)
				}
				y := x
				for ; change > 0; change-- {
					y.AddPubKey(stock[c.Src.IntN(len(stock))])
				}
				want = bytes.Equal(pkBytes(x), pkBytes(y))
				ab, ba = x.Equals(y), y.Equals(x)
			default:
				x := mlsag.Responses(append([]S(nil), r.R[i]...))
				y := x
				if change == 1 {
					y = x[:k-1]
				} else if change == 2 {
					y.AddResponse(rnd(c))
				} else if change == 3 && k > 1 {
					y = x[1:]
				}
				want = len(x) == len(y)
				for j := 0; want && j < len(x); j++ {
					want = ref.Eq(x[j], y[j])
				}
				ab, ba = x.Equals(y), y.Equals(x)
			}
			if ab != want || ba != want {
				c.Fatalf("object %d, change %d: equal %v, %v instead of %v", kind, change, ab, ba, want)
			}
			if !want {
				c.NT(kind, change, n, k, i)
			}
		})
}
