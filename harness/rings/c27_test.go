package rings

import (
	"crypto/rand"
	"fmt"
	"math"
	"math/big"
	"sort"
	"testing"

	"verif/harness/hx"
	"verif/harness/ref"
)

// nonces are those the signer used, computed with its secrets.
func nonces(r *ref.Ring, images []P, secrets []S) []S {
	at := position(r, pubOf(secrets))
	if at < 0 {
		return nil
	}
	ch := r.Challenges(ref.HonestHash, images)[at]
	var out []S
	for i, x := range secrets {
		out = append(out, ref.Add(r.R[at][i], ref.Mul(ch, x)))
	}
	return out
}

// fresh complains about values that are zero, repeated, or close to each
// other; all of them are meant to be random scalars.
func fresh(vals []S) string {
	type at struct {
		v *big.Int
		i int
	}
	var l []at
	for i, s := range vals {
		if ref.IsZero(s) {
			return fmt.Sprintf("value %d is zero", i)
		}
		l = append(l, at{ref.Val(s), i})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v.Cmp(l[j].v) < 0 })
	for i := range l {
		if i == 0 {
			continue
		}
		d := new(big.Int).Sub(l[i].v, l[i-1].v)
		if d.Sign() == 0 {
			return fmt.Sprintf("values %d and %d are the same", l[i-1].i, l[i].i)
		}
		if d.BitLen() < 180 {
			return fmt.Sprintf("values %d and %d differ by %v only", l[i-1].i, l[i].i, d)
		}
	}
	// each bit about half the time
	if n := len(vals); n >= 100 {
		dev := 7.1 * math.Sqrt(float64(n)) / 2
		for b := uint(0); b < 252; b++ {
			k := 0
			for _, a := range l {
				k += int(a.v.Bit(int(b)))
			}
			if math.Abs(float64(k)-float64(n)/2) > dev {
				return fmt.Sprintf("bit %d is set in %d of %d", b, k, n)
			}
		}
	}
	return ""
}

func TestC27_Nonces(t *testing.T) {
	hx.Check(t, hx.N{Quick: 500, Thorough: 40000},
		"histories of 20..60 signatures of both schemes in rings of 1..6 by one or several secrets, with messages, decoys and commitment keys repeated or not; the signers' nonces are computed with their secrets: none is zero, none repeats or comes close to another, to a response or to a secret, and (100 or more) every bit is set half the time; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(20, 60, "signatures")
			var keys [][]S
			for i := c.Int(1, 3, "keys"); i > 0; i-- {
				keys = append(keys, []S{rnd(c), rnd(c)})
			}
			keys = append(keys, []S{keys[0][1], keys[0][0]}, []S{keys[0][0], rnd(c)})
			msgs := [][]byte{nil, c.Msg("m"), c.Bytes(32)}
			rings := distinctMembers(c, 5, 2)
			var all []S
			what := []string{}
			for i := 0; i < n; i++ {
				s := eachScheme(c)
				k := keys[c.Src.IntN(len(keys))][:s.keys]
				m := msgs[c.Src.IntN(len(msgs))]
				if c.Src.IntN(4) == 0 {
					m = c.Bytes(5)
				}
				var decoys [][]P
				for _, d := range rings[:c.Src.IntN(len(rings)+1)] {
					decoys = append(decoys, d[:s.keys])
				}
				r, im, err := s.sign(k, decoys, m)
				c.Must(err, "sign")
				ns := nonces(r, im, k)
				if ns == nil {
					c.Fatalf("%s: the signer is not in the ring once", s.name)
				}
				for j := range ns {
					all = append(all, ns[j])
					what = append(what, fmt.Sprintf("nonce %d of signature %d (%s, ring of %d)", j, i, s.name, len(r.K)))
				}
				for _, row := range r.R {
					all = append(all, row...)
					for range row {
						what = append(what, fmt.Sprintf("a response of signature %d (%s)", i, s.name))
					}
				}
			}
			secret := map[S]bool{}
			for _, k := range keys {
				for _, x := range k {
					if !secret[x] {
						secret[x] = true
						all = append(all, x)
						what = append(what, "a secret key")
					}
				}
			}
			if msg := fresh(all); msg != "" {
				var a, b int
				if k, _ := fmt.Sscanf(msg, "values %d and %d", &a, &b); k == 2 {
					msg += fmt.Sprintf(": %s; %s", what[a], what[b])
				} else if k, _ := fmt.Sscanf(msg, "value %d", &a); k == 1 {
					msg += ": " + what[a]
				}
				c.Fatalf("%d signatures: %s", n, msg)
			}
			c.NT(n, len(keys), ref.Val(keys[0][0]))
			c.Note("%d signatures by %d key pairs, %d values compared", n, len(keys), len(all))
		})
}

func TestC27_NonceBits(t *testing.T) {
	hx.Check(t, hx.N{Quick: 64, Thorough: 3000},
		"300 signatures of one scheme by one signer over one message in rings of 1..3: the nonces alone are non-zero, far from each other, and every bit is set half the time; non-trivial: all",
		func(c *hx.C) {
			s := eachScheme(c)
			secrets := s.secrets(c)
			n := c.Int(1, 3, "ring")
			decoys := distinctMembers(c, n-1, s.keys)
			msg := c.Msg("msg")
			per := make([][]S, s.keys)
			for i := 0; i < 300; i++ {
				r, im, err := s.sign(secrets, decoys, msg)
				c.Must(err, "sign")
				for j, v := range nonces(r, im, secrets) {
					per[j] = append(per[j], v)
				}
			}
			for j := range per {
				if msg := fresh(per[j]); msg != "" {
					c.Fatalf("%s: ring of %d: nonces of key %d: %s", s.name, n, j, msg)
				}
			}
			c.NT(s.name, n, ref.Val(secrets[0]))
			c.Note("%s: ring of %d", s.name, n)
		})
}

func TestC27_NonceSource(t *testing.T) {
	hx.Check(t, hx.N{Quick: 2000, Thorough: 60000},
		"the same signature twice with the same bytes from crypto/rand, and once with others, in rings of 1..8: the nonces and the decoys' responses are the same, then all different, so they come from crypto/rand and nowhere else; non-trivial: all",
		func(c *hx.C) {
			s := eachScheme(c)
			secrets := s.secrets(c)
			n := c.Int(1, 8, "ring")
			decoys := distinctMembers(c, n-1, s.keys)
			msg := c.Msg("msg")
			make1 := func(stream string) (*ref.Ring, []S) {
				rand.Reader = hx.NewStream(stream, ref.Val(secrets[0]), n)
				r, im, err := s.sign(secrets, decoys, msg)
				c.Must(err, "sign")
				return r, nonces(r, im, secrets)
			}
			a, na := make1("one")
			b, nb := make1("one")
			d, nd := make1("other")
			for i := range na {
				if !ref.Eq(na[i], nb[i]) {
					c.Fatalf("%s: ring of %d: nonce %d is not determined by the randomness drawn", s.name, n, i)
				}
				if ref.Eq(na[i], nd[i]) {
					c.Fatalf("%s: ring of %d: nonce %d does not depend on the randomness drawn", s.name, n, i)
				}
			}
			for i := range a.R {
				for j := range a.R[i] {
					if !ref.Eq(a.R[i][j], b.R[i][j]) {
						c.Fatalf("%s: ring of %d: a response is not determined by the randomness drawn", s.name, n)
					}
				}
			}
			if ref.Eq(a.C, d.C) {
				c.Fatalf("%s: ring of %d: the same challenge from different randomness", s.name, n)
			}
			c.NT(s.name, n, ref.Val(secrets[0]))
			c.Note("%s: ring of %d", s.name, n)
		})
}
