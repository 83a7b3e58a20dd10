package rings

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
	"verif/harness/hx"
	"verif/harness/ref"
)

func within(c *hx.C, b []byte, what string, f func()) {
	if a := hx.Alloc(f); a > 1<<20+400*uint64(len(b)) {
		c.Fatalf("%s: %d bytes of memory for an input of %d", what, a, len(b))
	}
}

func TestC28_Mlsag(t *testing.T) {
	hx.Check(t, hx.N{Quick: 16000, Thorough: 600000},
		"encodings of mlsag signatures, honest or of any shape, and random bytes, corrupted in 1..4 steps, decoded with or without keys; whatever decodes is verified with 0..4 images, its own keys or others of any number and length, compared and encoded: no panic, no hang, memory in proportion, nothing accepted unless it encodes like the honest signature; non-trivial: it decoded",
		func(c *hx.C) {
			secrets := mlsagS.secrets(c)
			msg := c.Msg("msg")
			h, im, err := signM(secrets, distinctMembers(c, c.Pick(5, "decoys"), 2), msg)
			c.Must(err, "sign")
			keys := c.Bool("keys")
			honest := c.Bool("honest")
			src := h
			if !honest {
				src = drawRing(c, c.Int(0, 6, "n"), c.Int(1, 4, "k"))
			}
			b, what := hx.Mangle(c, src.Bytes(keys), h.Bytes(true), h.Bytes(false))
			var s mlsag.Signature
			within(c, b, what, func() { err = s.Decode(bytes.NewReader(b), keys) })
			if err != nil {
				c.Label("refused")
				return
			}
			c.Label("decoded")
			s.Msg = msg
			if !keys || c.Chance(4, "other keys") {
				s.PubKeys = nil
				if c.Bool("own") {
					for _, k := range h.K {
						s.PubKeys = append(s.PubKeys, pubKeys(k))
					}
				} else {
					for k := c.Int(0, 6, "members"); k > 0; k-- {
						s.PubKeys = append(s.PubKeys, pubKeys(drawMember(c, c.Int(0, 3, "len"))))
					}
				}
			}
			images := im
			if c.Chance(3, "other images") {
				images = nil
				for k := c.Int(0, 4, "images"); k > 0; k-- {
					images = append(images, stock[c.Src.IntN(len(stock))])
				}
			}
			ok, err := s.Verify(images)
			if ok != (err == nil) {
				c.Fatalf("%s: verified %v, error %v", what, ok, err)
			}
			enc := sigBytes(&s, true)
			if r, err := toRef(&s); err == nil && len(r.K) == len(r.R) {
				// the whole ring repeated walks the same way again (see C16)
				if n := len(h.K); len(r.K) > n && len(r.K)%n == 0 {
					rep := true
					for i := n; i < len(r.K); i++ {
						rep = rep && bytes.Equal(rowBytes(r.K[i]), rowBytes(r.K[i-n])) && fmt.Sprint(r.R[i]) == fmt.Sprint(r.R[i-n])
					}
					if rep {
						r.K, r.R = r.K[:n], r.R[:n]
						enc = r.Bytes(true)
					}
				}
			}
			if ok && !(bytes.Equal(enc, h.Bytes(true)) && len(images) == 1 && ref.PEq(images[0], im[0])) {
				c.Fatalf("%s: accepted", what)
			}
			c.Must(s.Encode(io.Discard, true), "Encode")
			hs, err := fromRef(h)
			c.Must(err, "Decode")
			_ = s.Equals(*hs, true)
			_ = hs.Equals(s, true)
			_ = hs.Equals(s, false)
			c.NT(what, hx.Short(b), len(s.PubKeys), len(images))
			c.Note("%s: decoded, accepted %v", what, ok)
		})
}

func TestC28_MlsagParts(t *testing.T) {
	hx.Check(t, hx.N{Quick: 20000, Thorough: 600000},
		"key and response vectors decoded from corrupted or random bytes with a count that need not fit (up to 2^22): no panic, no hang, memory in proportion, and what decodes encodes to the bytes read (keys); non-trivial: it decoded",
		func(c *hx.C) {
			row := drawMember(c, c.Int(0, 8, "n"))
			b, what := hx.Mangle(c, rowBytes(row))
			n := hx.Choose(c, "count", uint32(len(b)/32), uint32(len(b)/32), 0, 1, 2, 1<<16, 1<<22)
			var err error
			if c.Bool("keys") {
				var p mlsag.PubKeys
				within(c, b, what, func() { err = p.Decode(bytes.NewReader(b), n) })
				if err != nil {
					return
				}
				if !bytes.HasPrefix(ref.Canonical(b), pkBytes(p)) || p.Len() != int(n) {
					c.Fatalf("%s: decoded to something else", what)
				}
				_ = p.Equals(mlsag.PubKeys{})
				c.NT("keys", what, n)
			} else {
				var p mlsag.Responses
				within(c, b, what, func() { err = p.Decode(bytes.NewReader(b), n) })
				if err != nil {
					return
				}
				if p.Len() != int(n) {
					c.Fatalf("%s: %d instead of %d", what, p.Len(), n)
				}
				_ = p.Equals(nil)
				c.NT("responses", what, n)
			}
			c.Note("%s, count %d", what, n)
		})
}

func TestC28_Blsag(t *testing.T) {
	hx.Check(t, hx.N{Quick: 12000, Thorough: 500000},
		"blsag signatures read from corrupted bytes (image, challenge, responses, keys; points that do not decode are left neutral) with any numbers of responses and keys, also none: no panic, nothing accepted unless it is the honest signature; non-trivial: the numbers or contents differ from the honest one",
		func(c *hx.C) {
			msg := c.Msg("msg")
			h, im, err := signB(blsagS.secrets(c), distinctMembers(c, c.Pick(5, "decoys"), 1), msg)
			c.Must(err, "sign")
			ser := func(r *ref.Ring, image P) []byte {
				b := append([]byte(nil), image.Bytes()...)
				b = append(b, r.C.Bytes()...)
				for i := range r.K {
					b = append(append(b, r.R[i][0].Bytes()...), r.K[i][0].Bytes()...)
				}
				return b
			}
			good := ser(h, im[0])
			b, what := hx.Mangle(c, good)
			pt := func(b []byte) P {
				if p, ok := ref.DecodeP(b); ok {
					return p
				}
				return ref.Zero()
			}
			s := blsag.RingSignature{I: ref.Zero(), C: ref.Int(0)}
			if len(b) >= 32 {
				s.I, b = pt(b[:32]), b[32:]
			}
			if len(b) >= 32 {
				s.C, b = ref.DecodeS(b[:32]), b[32:]
			}
			for len(b) >= 32 {
				s.S, b = append(s.S, ref.DecodeS(b[:32])), b[32:]
				if len(b) >= 32 {
					s.PubKeys, b = append(s.PubKeys, pt(b[:32])), b[32:]
				}
			}
			if c.Chance(4, "lengths") {
				if c.Bool("keys") {
					s.PubKeys = s.PubKeys[:c.Pick(len(s.PubKeys)+1, "keep")]
				} else {
					s.S = s.S[:c.Pick(len(s.S)+1, "keep")]
				}
			}
			ok := blsag.Verify(msg, s)
			// the whole ring repeated walks the same way again (see C21)
			if n := len(h.K); len(s.S) > n && len(s.S)%n == 0 && len(s.S) == len(s.PubKeys) {
				rep := true
				for i := n; i < len(s.S); i++ {
					rep = rep && s.S[i].Equals(&s.S[i-n]) && s.PubKeys[i].Equals(&s.PubKeys[i-n])
				}
				if rep {
					c.Label("ring repeated")
					s.S, s.PubKeys = s.S[:n], s.PubKeys[:n]
				}
			}
			same := len(s.S) == len(h.R) && len(s.PubKeys) == len(h.K)
			if same {
				r := &ref.Ring{C: s.C}
				for i := range s.S {
					r.R, r.K = append(r.R, []S{s.S[i]}), append(r.K, []P{s.PubKeys[i]})
				}
				same = bytes.Equal(ser(r, s.I), good)
			}
			if ok && !same {
				c.Fatalf("%s: accepted with %d keys and %d responses", what, len(s.PubKeys), len(s.S))
			}
			if !ok && same {
				c.Fatalf("%s: the honest signature is rejected", what)
			}
			if !same {
				c.NT(what, len(s.S), len(s.PubKeys))
			}
			c.Note("%s: %d keys, %d responses", what, len(s.PubKeys), len(s.S))
		})
}

func TestC28_NoTarget(t *testing.T) {
	hx.Check(t, hx.N{Quick: 2000, Thorough: 40000},
		"honest and corrupted encodings decoded into an object that is not there (a nil signature, key vector or response vector): an error, no panic; non-trivial: the bytes are well formed",
		func(c *hx.C) {
			src := drawRing(c, c.Int(0, 4, "n"), c.Int(1, 4, "k"))
			keys := c.Bool("keys")
			b, what := src.Bytes(keys), "as it was"
			if c.Chance(3, "mangled") {
				b, what = hx.Mangle(c, b, src.Bytes(!keys))
			}
			var err error
			which := c.Pick(3, "object")
			switch which {
			case 0:
				err = (*mlsag.Signature)(nil).Decode(bytes.NewReader(b), keys)
			case 1:
				err = (*mlsag.PubKeys)(nil).Decode(bytes.NewReader(b), uint32(c.Int(0, 4, "count")))
			default:
				err = (*mlsag.Responses)(nil).Decode(bytes.NewReader(b), uint32(c.Int(0, 4, "count")))
			}
			if err == nil {
				c.Fatalf("%s: decoded into nothing (%d) without an error", what, which)
			}
			if what == "as it was" {
				c.NT(which, hx.Short(b))
			}
		})
}
