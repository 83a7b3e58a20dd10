package rings

import (
	"testing"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"verif/harness/hx"
	"verif/harness/ref"
)

func eachScheme(c *hx.C) scheme { return hx.Choose(c, "scheme", mlsagS, blsagS) }

func TestC17_Images(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 300000},
		"two signatures, of either scheme, over rings of 1..12 with any messages, decoys and commitment keys, by one secret or by two related or unrelated ones (x and -x, x+1, 2x, the other's commitment key): images equal exactly when the secrets do, equal to x*Hp(xG) computed independently and by CalculateKeyImage, and neither signature verifies with the other's image if they differ; non-trivial: all",
		func(c *hx.C) {
			type made struct {
				s  scheme
				r  *ref.Ring
				im []P
			}
			x := drawSecret(c, "x")
			y := x
			rel := c.Pick(6, "related")
			switch rel {
			case 0, 1:
			case 2:
				y = ref.Neg(x)
			case 3:
				y = ref.Add(x, ref.Int(1))
				if ref.IsZero(y) {
					y = ref.Int(5)
				}
			case 4:
				y = ref.Add(x, x)
			default:
				y = rnd(c)
			}
			z := drawSecret(c, "z")
			msg := c.Msg("msg")
			sign := func(x, z S) made {
				s := eachScheme(c)
				n := decoys(c, 11)
				var decoys [][]P
				for i := n; i > 0; i-- {
					decoys = append(decoys, drawMember(c, s.keys))
				}
				if c.Bool("other msg") {
					msg = c.Msg("msg2")
				}
				if c.Bool("other commitment key") {
					z = drawSecret(c, "z2")
				}
				r, im, err := s.sign([]S{x, z}[:s.keys], decoys, msg)
				c.Must(err, "sign")
				return made{s, r, im}
			}
			other := z
			if rel == 5 && c.Bool("crossed") {
				other, y = x, z // the keys of the first in the other order
			}
			a, b := sign(x, z), sign(y, other)
			for k, m := range []made{a, b} {
				v := []S{x, y}[k]
				if !ref.PEq(m.im[0], ref.KeyImage(v)) {
					c.Fatalf("%s: ring of %d, message %s: image is not x*Hp(xG)", m.s.name, len(m.r.K), hx.Short(m.r.Msg))
				}
				pub := ref.PMul(ref.Base(), v)
				if !ref.PEq(m.im[0], mlsag.CalculateKeyImage(v, pub)) {
					c.Fatalf("CalculateKeyImage differs from the image of the signature")
				}
				if !m.s.verify(m.r, m.im) {
					c.Fatalf("%s: ring of %d: honest signature rejected", m.s.name, len(m.r.K))
				}
			}
			if same := ref.PEq(a.im[0], b.im[0]); same != ref.Eq(x, y) {
				c.Fatalf("same key %v, same image %v", ref.Eq(x, y), same)
			}
			if !ref.Eq(x, y) && (a.s.verify(a.r, b.im) || b.s.verify(b.r, a.im)) {
				c.Fatalf("verifies with the image of another key")
			}
			c.NT(rel, a.s.name, b.s.name, len(a.r.K), len(b.r.K), ref.Val(x))
			c.Label(a.s.name + "/" + b.s.name)
			c.Note("%s ring %d, %s ring %d, relation %d", a.s.name, len(a.r.K), b.s.name, len(b.r.K), rel)
		})
}

func TestC17_Substituted(t *testing.T) {
	hx.Check(t, hx.N{Quick: 5000, Thorough: 300000},
		"signatures of either scheme for rings of 1..10 verified with another image: moved by the base, by itself, by any hash point of a member; negated, doubled, neutral, the image of a member's other key; rejected; non-trivial: all",
		func(c *hx.C) {
			s := eachScheme(c)
			secrets := s.secrets(c)
			decoys := distinctMembers(c, decoys(c, 9), s.keys)
			r, im, err := s.sign(secrets, decoys, c.Msg("msg"))
			c.Must(err, "sign")
			if c.Bool("before") && !s.verify(r, im) {
				c.Fatalf("%s: ring of %d: does not verify", s.name, len(r.K))
			}
			m := c.Pick(len(r.K), "member")
			d := hx.Choose(c, "by", ref.Base(), im[0], ref.HashP(r.K[m][0].Bytes()), r.K[m][0], stock[0])
			k := hx.Choose(c, "times", ref.Int(1), ref.Int(-1), ref.Int(8), rnd(c))
			bad := ref.PAdd(im[0], ref.PMul(d, k))
			switch c.Pick(5, "kind") {
			case 0:
				bad = ref.Zero()
			case 1:
				bad = ref.PMul(d, secrets[0])
			case 2:
				bad = ref.KeyImage(secrets[s.keys-1])
			}
			if ref.PEq(bad, im[0]) {
				return
			}
			if s.verify(r, []P{bad}) {
				c.Fatalf("%s: ring of %d: verifies with another image", s.name, len(r.K))
			}
			c.NT(s.name, len(r.K), hx.Short(bad.Bytes()))
			c.Note("%s: ring of %d", s.name, len(r.K))
		})
}

func TestC17_CooperatingSigner(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 300000},
		"an own signer who knows its secret but wants another image: of another secret, over another base, or chosen after the challenge, in rings of 1..8 (2..8 for the last) at any position, optionally hoping that the challenge leaves something out at one or all members; rejected; non-trivial: all",
		func(c *hx.C) { forgeTest(c, eachScheme(c), 3, 4, 6, 7) })
}

func TestC17_LoneSigner(t *testing.T) {
	hx.Check(t, hx.N{Quick: 300, Thorough: 3000},
		"an own signer, alone in its ring, chooses its image after the challenge; known finding C17-single-member-ring; non-trivial: all",
		func(c *hx.C) {
			s := eachScheme(c)
			g := &ref.RingSigner{Rand: func() S { return rnd(c) }, Msg: c.Msg("msg"), Secrets: s.secrets(c), LateImage: true}
			r := g.Sign()
			if ref.PEq(g.OutImages[0], ref.KeyImage(g.Secrets[0])) {
				panic("HARNESS-ERROR: the image is the true one")
			}
			if s.verify(r, g.OutImages) {
				c.Known("C17-single-member-ring", "%s: ring of one accepted with an image that is not its key's", s.name)
			}
			c.NT(s.name, len(g.Msg), ref.Val(g.Secrets[0]))
			c.Note("%s", s.name)
		})
}
