package rings

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
	"verif/harness/hx"
	"verif/harness/ref"
)

// alterRing changes one thing of a signature (or its images).
func alterRing(c *hx.C, s scheme, r *ref.Ring, images []P) (what string, out []P) {
	out = append([]P(nil), images...)
	n := len(r.K)
	i, k := c.Pick(n, "member"), c.Pick(len(r.K[0]), "key")
	j := (i + 1 + c.Pick(max(1, n-1), "member2")) % n
	d := hx.Choose(c, "D", ref.Base(), rndP(c), images[0])
	switch c.Pick(14, "alter") {
	case 0: // message
		r.Msg = c.AlterMsg(r.Msg, "msg")
		what = "message"
	case 1:
		out[0] = hx.Choose(c, "image", ref.PAdd(out[0], d), ref.PSub(ref.Zero(), out[0]), ref.Zero(), ref.Base(), ref.PAdd(out[0], out[0]), rndP(c))
		what = "key image"
	case 2, 3:
		r.K[i][k] = hx.Choose(c, "key to", ref.PAdd(r.K[i][k], d), ref.PSub(ref.Zero(), r.K[i][k]), ref.Zero(), rndP(c))
		what = fmt.Sprintf("key %d of member %d of %d", k, i, n)
	case 4, 5:
		r.R[i][k] = hx.Choose(c, "response to", ref.Add(r.R[i][k], ref.Int(1)), ref.Neg(r.R[i][k]), ref.Int(0), rnd(c))
		what = fmt.Sprintf("response %d of member %d of %d", k, i, n)
	case 6:
		r.C = hx.Choose(c, "challenge to", ref.Add(r.C, ref.Int(1)), ref.Neg(r.C), ref.Int(0), ref.Int(1), rnd(c))
		what = "challenge"
	case 7: // order of members, with their responses
		r.K[i], r.K[j] = r.K[j], r.K[i]
		r.R[i], r.R[j] = r.R[j], r.R[i]
		what = fmt.Sprintf("members %d and %d of %d swapped", i, j, n)
	case 8: // without their responses
		r.K[i], r.K[j] = r.K[j], r.K[i]
		what = fmt.Sprintf("keys of members %d and %d of %d swapped", i, j, n)
	case 9:
		r.R[i], r.R[j] = r.R[j], r.R[i]
		what = fmt.Sprintf("responses of members %d and %d of %d swapped", i, j, n)
	case 10: // rotation
		q := c.Pick(n, "by")
		r.K = append(append([][]P{}, r.K[q:]...), r.K[:q]...)
		r.R = append(append([][]S{}, r.R[q:]...), r.R[:q]...)
		what = fmt.Sprintf("ring of %d rotated by %d", n, q)
	case 11: // a member dropped
		if n == 1 {
			r.C = ref.Add(r.C, ref.Int(1))
			return "challenge", out
		}
		r.K = append(append([][]P{}, r.K[:i]...), r.K[i+1:]...)
		r.R = append(append([][]S{}, r.R[:i]...), r.R[i+1:]...)
		what = fmt.Sprintf("member %d of %d dropped", i, n)
	case 12: // a member added or doubled
		row, res := drawMember(c, s.keys), []S{}
		for range row {
			res = append(res, rnd(c))
		}
		// repeating the whole ring changes nothing of what was signed
		if n > 1 && c.Bool("double") {
			row, res = r.K[i], r.R[i]
		}
		r.K = append(append(append([][]P{}, r.K[:i]...), row), r.K[i:]...)
		r.R = append(append(append([][]S{}, r.R[:i]...), res), r.R[i:]...)
		what = fmt.Sprintf("member added at %d of %d", i, n)
	default: // two changes that might cancel
		x := hx.Choose(c, "x", ref.Int(1), rnd(c))
		r.R[i][k] = ref.Add(r.R[i][k], x)
		if c.Bool("key") {
			r.K[i][k] = ref.PSub(r.K[i][k], ref.PMul(ref.Base(), x))
		} else {
			r.R[j][k] = ref.Sub(r.R[j][k], x)
		}
		what = fmt.Sprintf("two changes at members %d and %d of %d", i, j, n)
	}
	return
}

func alteredTest(c *hx.C, s scheme) {
	secrets := s.secrets(c)
	msg := c.Msg("msg")
	r, images, err := s.sign(secrets, distinctMembers(c, decoys(c, 8), s.keys), msg)
	c.Must(err, "sign")
	if c.Bool("before") && !s.verify(r, images) {
		c.Fatalf("%s: honest signature rejected", s.name)
	}
	b := r.Clone()
	what, im := alterRing(c, s, b, images)
	same := bytes.Equal(b.Bytes(true), r.Bytes(true)) && bytes.Equal(b.Msg, r.Msg) && ref.PEq(im[0], images[0])
	if same {
		if !s.verify(b, im) {
			c.Fatalf("%s: nothing altered (%s), but rejected", s.name, what)
		}
		return
	}
	if s.verify(b, im) {
		c.Fatalf("%s: %s altered: accepted", s.name, what)
	}
	c.NT(what, len(msg))
	c.Note("%s: %s", s.name, what)
}

func TestC16_Altered(t *testing.T) {
	hx.Check(t, hx.N{Quick: 8000, Thorough: 500000},
		"the code's signatures for rings of 1..9 (rarely up to 260) different members with one thing altered: message, image, any key, any response, challenge, order (with or without responses, rotation), a member dropped, added or doubled, two changes that might cancel; rejected; non-trivial: something changed",
		func(c *hx.C) { alteredTest(c, mlsagS) })
}

func TestC21_Altered(t *testing.T) {
	hx.Check(t, hx.N{Quick: 10000, Thorough: 700000},
		"the code's signatures for rings of 1..9 (rarely up to 260) different members with one thing altered: message, image, any key, any response, challenge, order (with or without responses, rotation), a member dropped, added or doubled, two changes that might cancel; rejected; non-trivial: something changed",
		func(c *hx.C) { alteredTest(c, blsagS) })
}

// believed: a verifier's hash that leaves something out.
type believed struct {
	msg    bool // the message
	l, r   int  // index of the left/right point left out, -1 none, -2 all
	at     int  // at which member: -1 all, -2 all but the signer
	signer int
}

func (b believed) String() string {
	return fmt.Sprintf("msg %v l %d r %d at %d", b.msg, b.l, b.r, b.at)
}

func (b believed) hash(pos int, msg []byte, ls, rs []P) S {
	if b.at >= 0 && pos != b.at || b.at == -2 && pos == b.signer {
		return ref.HonestHash(pos, msg, ls, rs)
	}
	drop := func(v []P, k int) []P {
		if k == -2 {
			return nil
		}
		var out []P
		for i := range v {
			if i != k {
				out = append(out, v[i])
			}
		}
		return out
	}
	if b.msg {
		msg = nil
	}
	return ref.HonestHash(pos, msg, drop(ls, b.l), drop(rs, b.r))
}

// forgeTest: a signer who lacks something, or hopes that the verifier's
// challenge leaves something out.
func forgeTest(c *hx.C, s scheme, kinds ...int) {
	n := 1 + decoys(c, 7)
	g := &ref.RingSigner{Rand: func() S { return rnd(c) }, Decoys: distinctMembers(c, n-1, s.keys), Pos: c.Pick(n, "pos"), Msg: c.Msg("msg")}
	g.Secrets = s.secrets(c)
	bel := believed{l: -1, r: -1, at: -1, signer: g.Pos}
	at := func() {
		bel.at = hx.Choose(c, "at", -1, g.Pos, 0, n-1)
	}
	what := ""
	wrong := func(k int) { // the k-th secret is not the one of the key shown
		g.Pub = pubOf(g.Secrets)
		g.Pub[k] = stock[len(stock)-1-k]
	}
	if kinds == nil {
		kinds = []int{0, 1, 2, 3, 4, 5, 6, 7}
	}
	switch hx.Choose(c, "forgery", kinds...) {
	case 0:
		k := c.Pick(s.keys, "lacks")
		wrong(k)
		what = fmt.Sprintf("signer lacks secret %d", k)
		if c.Bool("belief") {
			bel.l = k
			bel.r = hx.Choose(c, "r", -1, k)
			at()
		}
	case 1: // knows none: all random
		for k := 0; k < s.keys; k++ {
			wrong(k)
		}
		what = "signer knows nothing"
		if c.Bool("belief") {
			bel.l, bel.r = -2, hx.Choose(c, "r", -1, -2)
			at()
		}
	case 2: // another message
		g.Present = c.AlterMsg(g.Msg, "shown")
		if c.Bool("other") {
			g.Present = c.Bytes(32)
		}
		if len(g.Present) == 0 { // that is what leaving it out looks like
			g.Present = []byte{1}
			if bytes.Equal(g.Msg, g.Present) {
				g.Present[0]++
			}
		}
		bel.msg = true
		bel.at = hx.Choose(c, "at", -1, 0, n-1)
		what = "message chosen after signing"
	case 3: // image of another secret, right key
		y := rnd(c)
		k := ref.PMul(ref.Base(), g.Secrets[0])
		g.Images = []P{ref.PMul(ref.HashP(k.Bytes()), y)}
		bel.r = hx.Choose(c, "r", -1, 0, -2)
		at()
		what = "image of another secret"
	case 4: // image chosen afterwards
		if n == 1 {
			n = 2
			g.Decoys = distinctMembers(c, 1, s.keys)
			g.Pos = c.Pick(2, "pos2")
			bel.signer = g.Pos
		}
		g.LateImage = true
		bel.r, bel.at = -2, hx.Choose(c, "at", -2, 0, n-1, -1)
		what = "image chosen afterwards"
	case 5: // the secrets in the wrong places
		if s.keys < 2 {
			wrong(0)
		} else {
			for ref.Eq(g.Secrets[0], g.Secrets[1]) {
				g.Secrets[0] = rnd(c)
			}
			g.Pub = pubOf(g.Secrets)
			g.Secrets = append([]S(nil), g.Secrets...)
			g.Secrets[0], g.Secrets[1] = g.Secrets[1], g.Secrets[0]
			k := g.Pub[0]
			g.Images = []P{ref.PMul(ref.HashP(k.Bytes()), g.Secrets[0])}
		}
		what = "secrets swapped"
	case 6: // key and image both of another secret
		y := rnd(c)
		g.Pub = pubOf(g.Secrets)
		g.Images = []P{ref.PMul(ref.HashP(g.Pub[0].Bytes()), y)}
		g.Secrets = append([]S(nil), g.Secrets...)
		g.Secrets[0] = y
		bel.l = hx.Choose(c, "l", -1, 0, -2)
		at()
		what = "signs with another secret and its image"
	default: // the image of another base
		g.Images = []P{ref.PMul(hx.Choose(c, "base", ref.Base(), ref.HashP(g.Msg), ref.HashP(nil), stock[0]), g.Secrets[0])}
		bel.r = hx.Choose(c, "r", -1, 0)
		at()
		what = "image over another base"
	}
	if bel.l >= 0 && c.Chance(4, "both") {
		bel.r = bel.l
	}
	g.Hash = bel.hash
	r := g.Sign()
	if r.Verify(g.OutImages) {
		panic("HARNESS-ERROR: reference accepts: " + what)
	}
	if s.verify(r, g.OutImages) {
		c.Fatalf("%s: ring of %d, signer at %d: %s (hoping the challenge leaves out %v): accepted", s.name, n, g.Pos, what, bel)
	}
	c.NT(what, n, g.Pos, bel.String())
	c.Label(what)
	c.Note("%s: ring of %d, signer at %d: %s, leaving out %v", s.name, n, g.Pos, what, bel)
}

func TestC16_Forged(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 400000},
		"an own signer that lacks a secret, shows another message, uses another image or chooses it afterwards, in rings of 1..8 at any position, optionally hoping that the challenge leaves out the message or one of the hashed points at one or all members; rejected; non-trivial: all",
		func(c *hx.C) { forgeTest(c, mlsagS) })
}

func TestC21_Forged(t *testing.T) {
	hx.Check(t, hx.N{Quick: 8000, Thorough: 500000},
		"an own signer that lacks the secret, shows another message, uses another image or chooses it afterwards, in rings of 1..8 at any position, optionally hoping that the challenge leaves out the message or one of the hashed points at one or all members; rejected; non-trivial: all",
		func(c *hx.C) { forgeTest(c, blsagS) })
}

func longMessages(t *testing.T, s scheme) {
	hx.Check(t, hx.N{Quick: 2500, Thorough: 100000},
		"a signature (0..2 decoys) on a message of 600 bytes to 128 KiB, shown with one that differs from it in one byte, in where it ends, by an inserted or missing byte or by two exchanged blocks, mostly at or next to a multiple of a power of two; verification fails; non-trivial: all",
		func(c *hx.C) {
			a, b, what := c.LongPair("msg")
			r, im, err := s.sign(s.secrets(c), distinctMembers(c, c.Pick(3, "decoys"), s.keys), a)
			c.Must(err, "sign")
			r.Msg = b
			if s.verify(r, im) {
				c.Fatalf("%s: accepted for the other message", what)
			}
			c.NT(what)
			c.Note("%s", what)
		})
}

func TestC16_LongMessages(t *testing.T) { longMessages(t, mlsagS) }
func TestC21_LongMessages(t *testing.T) { longMessages(t, blsagS) }

func TestC16_LateKey(t *testing.T) {
	hx.Check(t, hx.N{Quick: 300, Thorough: 5000},
		"an own signer without the second secret chooses its second key after the challenge, which does not hash the ring; known finding C16-late-second-key; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(1, 6, "ring")
			g := &ref.RingSigner{Rand: func() S { return rnd(c) }, Decoys: distinctMembers(c, n-1, 2), Pos: c.Pick(n, "pos"), Msg: c.Msg("msg")}
			g.Secrets = []S{drawSecret(c, "x"), rnd(c)}
			g.LateKey = true
			r := g.Sign()
			if verifyM(r, g.OutImages) {
				c.Known("C16-late-second-key", "ring of %d, signer at %d: second key chosen after the challenge, its secret unknown: accepted", n, g.Pos)
			}
			c.NT(n, g.Pos, len(g.Msg))
			c.Note("ring of %d, signer at %d", n, g.Pos)
		})
}

func TestC16_SameVerdict(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 400000},
		"signatures by an own signer for 1..4 keys per member and 1..4 images, honest or altered, verified with the right, fewer or more images: the code and the independent verifier agree; non-trivial: all",
		func(c *hx.C) {
			k := c.Int(1, 4, "keys")
			n := c.Int(1, 6, "ring")
			g := &ref.RingSigner{Rand: func() S { return rnd(c) }, Decoys: distinctMembers(c, n-1, k), Pos: c.Pick(n, "pos"), Msg: c.Msg("msg")}
			for i := 0; i < k; i++ {
				g.Secrets = append(g.Secrets, drawSecret(c, "x"))
			}
			g.NImages = c.Int(1, k, "images")
			r := g.Sign()
			images := g.OutImages
			what := "honest"
			switch c.Pick(6, "then") {
			case 5:
				images = append([]P(nil), images...)
				what = closeRing(c, r, images, c.Bool("flip"))
			case 0:
				what, images = alterRing(c, scheme{keys: k}, r, images)
			case 1:
				images = append(append([]P(nil), images...), hx.Choose(c, "extra", images[0], rndP(c), ref.Zero(), ref.KeyImage(g.Secrets[k-1])))
				what = "image added"
			case 2:
				images = images[:len(images)-1]
				what = "image dropped"
			case 3:
				images = append([]P(nil), images...)
				i, j := c.Pick(len(images), "i"), c.Pick(len(images), "j")
				images[i], images[j] = images[j], images[i]
				what = "images swapped"
			}
			want := r.Verify(images)
			if got := verifyM(r, images); got != want {
				c.Fatalf("ring of %d, %d keys, %d images, %s: code %v, independent verifier %v", n, k, len(images), what, got, want)
			}
			c.NT(n, k, len(images), what)
			c.Label(fmt.Sprint("accepted ", want))
			c.Note("ring of %d, %d keys, %d images, %s: %v", n, k, len(images), what, want)
		})
}

func TestC16_Dimensions(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 400000},
		"signatures whose members have different numbers of keys, whose numbers of members and responses differ, with 0..6 images, also nil; refused without panic unless they fit; non-trivial: they do not fit",
		func(c *hx.C) {
			k := c.Int(1, 4, "keys")
			n := c.Int(0, 5, "responses")
			r := &ref.Ring{C: rnd(c), Msg: c.Msg("msg")}
			for i := 0; i < n; i++ {
				var row []S
				for j := 0; j < k; j++ {
					row = append(row, rnd(c))
				}
				r.R = append(r.R, row)
			}
			for i := c.Int(0, 5, "members"); i > 0; i-- {
				r.K = append(r.K, drawMember(c, hx.Choose(c, "len", k, k, k, 0, 1, k+1)))
			}
			var images []P
			for i := c.Int(0, 6, "images"); i > 0; i-- {
				images = append(images, stock[i])
			}
			s, err := fromRef(r)
			if err != nil {
				c.Fatalf("%d responses of %d: %v", n, k, err)
			}
			ok, err := s.Verify(images)
			if ok {
				c.Fatalf("garbage accepted")
			}
			if !r.Fits(images) && err == nil {
				c.Fatalf("%d response vectors, %d members, %d images: no error", n, len(r.K), len(images))
			}
			if !r.Fits(images) {
				c.NT(n, len(r.K), k, len(images), len(r.Bytes(true)))
			}
			c.Note("%d response vectors of %d, %d members, %d images", n, k, len(r.K), len(images))
		})
}

// a valid signature that stops to fit, at one place or everywhere
func TestC16_Misfits(t *testing.T) {
	hx.Check(t, hx.N{Quick: 4000, Thorough: 250000},
		"valid signatures by an own signer (rings of 1..5, 1..3 keys) to which one thing is added or taken away: a response or key of one or all members (in front or at the end), a row of responses, a member, images beyond the number of keys; refused with an error; non-trivial: all",
		func(c *hx.C) {
			k := c.Int(1, 3, "keys")
			n := c.Int(1, 5, "ring")
			g := &ref.RingSigner{Rand: func() S { return rnd(c) }, Decoys: distinctMembers(c, n-1, k), Pos: c.Pick(n, "pos"), Msg: c.Msg("msg")}
			for i := 0; i < k; i++ {
				g.Secrets = append(g.Secrets, drawSecret(c, "x"))
			}
			g.NImages = c.Int(1, k, "images")
			r := g.Sign()
			images := append([]P(nil), g.OutImages...)
			if !verifyM(r, images) {
				c.Fatalf("ring of %d, %d keys, %d images: rejected", n, k, len(images))
			}
			var at []int // of these members
			if c.Bool("all") {
				for i := range r.K {
					at = append(at, i)
				}
			} else {
				at = []int{c.Pick(n, "at")}
			}
			front, more := c.Bool("front"), c.Bool("more")
			what := ""
			ragged := false
			switch c.Pick(5, "what") {
			case 0:
				what = "responses"
				ragged = len(at) < n
				for _, i := range at {
					row := r.R[i]
					switch {
					case more && front:
						row = append([]S{rnd(c)}, row...)
					case more:
						row = append(append([]S{}, row...), hx.Choose(c, "new", row[0], rnd(c), ref.Int(0)))
					case front:
						row = row[1:]
					default:
						row = row[:len(row)-1]
					}
					r.R[i] = row
				}
			case 1:
				what = "keys"
				for _, i := range at {
					row := r.K[i]
					switch {
					case more && front:
						row = append([]P{rndP(c)}, row...)
					case more:
						row = append(append([]P{}, row...), hx.Choose(c, "new", row[0], rndP(c), ref.Zero()))
					case front:
						row = row[1:]
					default:
						row = row[:len(row)-1]
					}
					r.K[i] = row
				}
			case 2:
				what = "response rows"
				i := at[0]
				if more {
					r.R = append(r.R, r.R[i])
				} else {
					r.R = append(append([][]S{}, r.R[:i]...), r.R[i+1:]...)
				}
			case 3:
				what = "members"
				i := at[0]
				if more {
					r.K = append(r.K, r.K[i])
				} else {
					r.K = append(append([][]P{}, r.K[:i]...), r.K[i+1:]...)
				}
			default:
				what, more = "images", true
				for len(images) <= k {
					images = append(images, hx.Choose(c, "new", images[0], rndP(c), ref.Zero()))
				}
			}
			if more {
				what = "more " + what
			} else {
				what = "fewer " + what
			}
			rows := r.R
			if ragged { // cannot be encoded: put in place
				r.R = nil
				for range rows {
					r.R = append(r.R, make([]S, k))
				}
			}
			if len(r.R) > 0 && len(r.R[0]) == 0 {
				return // cannot be encoded
			}
			s, err := fromRef(r)
			c.Must(err, "Decode")
			if ragged && !setResponses(s, rows) {
				return
			}
			ok, err := s.Verify(images)
			if ok || err == nil {
				c.Fatalf("ring of %d, %d keys, %d images: %s at %v: %v, no error", n, k, len(images), what, at, ok)
			}
			c.NT(n, k, what, len(at))
			c.Label(what)
			c.Note("ring of %d, %d keys, %d images: %s at %v", n, k, len(images), what, at)
		})
}

// setResponses replaces the responses of a signature by vectors of different
// lengths, which no decoder makes, if it keeps them the way it is known to.
func setResponses(s *mlsag.Signature, rows [][]S) bool {
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf([]mlsag.Responses{}) {
			p := (*[]mlsag.Responses)(v.Field(i).Addr().UnsafePointer())
			*p = nil
			for _, row := range rows {
				*p = append(*p, append(mlsag.Responses{}, row...))
			}
			return true
		}
	}
	return false
}

func TestC21_SameVerdict(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 400000},
		"signatures by an own signer for rings of 1..8, honest, altered, or with keys or responses missing or added so that their numbers differ (also none): the code and the independent verifier agree, without panic; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(1, 8, "ring")
			g := &ref.RingSigner{Rand: func() S { return rnd(c) }, Decoys: distinctMembers(c, n-1, 1), Pos: c.Pick(n, "pos"), Msg: c.Msg("msg")}
			g.Secrets = []S{drawSecret(c, "x")}
			r := g.Sign()
			images := g.OutImages
			what := "honest"
			switch c.Pick(7, "then") {
			case 6:
				images = append([]P(nil), images...)
				what = closeRing(c, r, images, c.Bool("flip"))
			case 0:
				what, images = alterRing(c, blsagS, r, images)
			case 1:
				r.K = r.K[:c.Pick(n, "keep")]
				what = fmt.Sprintf("%d keys", len(r.K))
			case 2:
				r.R = r.R[:c.Pick(n, "keep")]
				what = fmt.Sprintf("%d responses", len(r.R))
			case 3:
				for k := c.Int(1, 3, "more"); k > 0; k-- {
					if c.Bool("key") {
						r.K = append(r.K, drawMember(c, 1))
					} else {
						r.R = append(r.R, []S{rnd(c)})
					}
				}
				what = fmt.Sprintf("%d keys, %d responses", len(r.K), len(r.R))
			case 4:
				r.K, r.R = nil, nil
				what = "nothing"
				if c.Bool("zero") {
					r.C = ref.Int(0)
				}
			}
			want := len(r.K) == len(r.R) && r.Verify(images)
			if got := verifyB(r, images); got != want {
				c.Fatalf("ring of %d, %s: code %v, independent verifier %v", n, what, got, want)
			}
			c.NT(n, what)
			c.Label(fmt.Sprint("accepted ", want))
			c.Note("ring of %d, %s: %v", n, what, want)
		})
}

// closeRing makes the last member and the images neutral, so that the closing
// challenge depends on nothing but the last responses, and sets it, apart from
// one bit if flip is given.
func closeRing(c *hx.C, r *ref.Ring, images []P, flip bool) string {
	n, neutral := len(r.K), ref.Zero()
	var ls, rs []P
	r.K[n-1] = append([]P(nil), r.K[n-1]...)
	for i := range r.K[n-1] {
		r.K[n-1][i] = ref.Zero()
		ls = append(ls, ref.PMul(ref.Base(), r.R[n-1][i]))
	}
	for i := range images {
		images[i] = ref.Zero()
		rs = append(rs, ref.PMul(ref.HashP(neutral.Bytes()), r.R[n-1][i]))
	}
	r.C = ref.HonestHash(n-1, r.Msg, ls, rs)
	if !flip {
		return "closed by a neutral member"
	}
	bit := c.Pick(252, "bit")
	r.C = hx.Choose(c, "way", ref.Add(r.C, ref.Pow2(bit)), ref.Sub(r.C, ref.Pow2(bit)), ref.Neg(r.C))
	return fmt.Sprintf("closed by a neutral member, challenge off at bit %d", bit)
}

// in a ring of one nobody needs the secret of the key: it is chosen afterwards
func TestC21_LoneKey(t *testing.T) {
	hx.Check(t, hx.N{Quick: 200, Thorough: 2000},
		"an own signer who holds no secret key makes up the key of a ring of one after the challenge; known finding C21-ring-of-one; non-trivial: all",
		func(c *hx.C) {
			// c = H(m, L, R) for any L, R; s random; K = (L - sG)/c; I = (R - s Hp(K))/c
			msg := c.Msg("msg")
			L, R := rndP(c), rndP(c)
			ch := ref.HonestHash(0, msg, []P{L}, []P{R})
			s := rnd(c)
			K := ref.PMul(ref.PSub(L, ref.PMul(ref.Base(), s)), ref.Inv(ch))
			I := ref.PMul(ref.PSub(R, ref.PMul(ref.HashP(K.Bytes()), s)), ref.Inv(ch))
			r := &ref.Ring{C: ch, R: [][]S{{s}}, K: [][]P{{K}}, Msg: msg}
			if verifyB(r, []P{I}) {
				c.Known("C21-ring-of-one", "key and image of a ring of one chosen after the challenge, no secret known: accepted")
			}
			c.NT(hx.Short(msg))
			c.Note("message %s", hx.Short(msg))
		})
}

func changesNothing(t *testing.T, s scheme) {
	hx.Check(t, hx.N{Quick: 1500, Thorough: 60000},
		"signatures, honest or altered, verified up to three times: the verdict stays the same and the signature, its ring, the message and the images too, as does the memory behind the lists; non-trivial: all",
		func(c *hx.C) {
			secrets := s.secrets(c)
			r, im, err := s.sign(secrets, distinctMembers(c, c.Pick(6, "decoys"), s.keys), c.Msg("msg"))
			c.Must(err, "sign")
			what := "honest"
			if c.Bool("altered") {
				what, im = alterRing(c, s, r, im)
			}
			want := r.Verify(im)
			var state func() string
			var verify func() bool
			msg := append(append([]byte(nil), r.Msg...), "behind"...)
			pts := func(l []P) (t string) {
				for _, p := range l {
					t += string(p.Bytes()) + ","
				}
				return
			}
			if s.name == "mlsag" {
				sig, err := fromRef(r)
				if err != nil {
					return
				}
				sig.Msg = msg[:len(r.Msg)]
				im = append(append([]P(nil), im...), rndP(c), rndP(c))[:len(im)]
				keys := append(append([]mlsag.PubKeys(nil), sig.PubKeys...), pubKeys(drawMember(c, 2)))
				sig.PubKeys = keys[:len(keys)-1]
				state = func() string {
					t := string(sigBytes(sig, true)) + string(msg) + pts(im[:len(im)+2])
					for _, k := range keys {
						t += string(pkBytes(k))
					}
					return t + fmt.Sprint(len(sig.Msg), len(sig.PubKeys))
				}
				verify = func() bool { ok, _ := sig.Verify(im); return ok }
			} else {
				sig := blsag.RingSignature{I: im[0], C: r.C}
				for i := range r.K {
					sig.PubKeys = append(sig.PubKeys, r.K[i][0])
				}
				for i := range r.R {
					sig.S = append(sig.S, r.R[i][0])
				}
				n, m := len(sig.PubKeys), len(sig.S)
				sig.PubKeys, sig.S = append(sig.PubKeys, rndP(c))[:n], append(sig.S, rnd(c))[:m]
				state = func() string {
					t := pts(sig.PubKeys[:n+1]) + string(msg) + pts([]P{sig.I}) + string(sig.C.Bytes())
					for _, x := range sig.S[:m+1] {
						t += string(x.Bytes())
					}
					return t
				}
				verify = func() bool { return blsag.Verify(msg[:len(r.Msg)], sig) }
			}
			before := state()
			first := verify()
			for k := c.Pick(3, "again"); ; k-- {
				if state() != before {
					c.Fatalf("%s, ring of %d, %s: verifying changed what it was given", s.name, len(r.K), what)
				}
				if k == 0 {
					break
				}
				if verify() != first {
					c.Fatalf("%s, ring of %d, %s: another verdict", s.name, len(r.K), what)
				}
			}
			if first != want {
				c.Fatalf("%s, ring of %d, %s: verdict %v", s.name, len(r.K), what, first)
			}
			c.NT(what, len(r.K), hx.Short([]byte(before)))
			c.Label(fmt.Sprint(first))
		})
}

func TestC16_ChangesNothing(t *testing.T) { changesNothing(t, mlsagS) }
func TestC21_ChangesNothing(t *testing.T) { changesNothing(t, blsagS) }
