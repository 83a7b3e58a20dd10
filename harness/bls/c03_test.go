package bls

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"verif/harness/hx"
)

// ------------------------------------------------- arithmetic in F_p and F_p²

var fp, _ = new(big.Int).SetString("65000549695646603732796438742359905742825358107623003571877145026864184071783", 10)

func fm(a *big.Int) *big.Int { return new(big.Int).Mod(a, fp) }

// f2 is x*i + y
type f2 struct{ x, y *big.Int }

func (a f2) mul(b f2) f2 {
	x := new(big.Int).Add(new(big.Int).Mul(a.x, b.y), new(big.Int).Mul(a.y, b.x))
	y := new(big.Int).Sub(new(big.Int).Mul(a.y, b.y), new(big.Int).Mul(a.x, b.x))
	return f2{fm(x), fm(y)}
}
func (a f2) add(b f2) f2 {
	return f2{fm(new(big.Int).Add(a.x, b.x)), fm(new(big.Int).Add(a.y, b.y))}
}
func (a f2) inv() f2 {
	n := new(big.Int).Add(new(big.Int).Mul(a.x, a.x), new(big.Int).Mul(a.y, a.y))
	n.ModInverse(fm(n), fp)
	return f2{fm(new(big.Int).Neg(new(big.Int).Mul(a.x, n))), fm(new(big.Int).Mul(a.y, n))}
}
func (a f2) eq(b f2) bool { return a.x.Cmp(b.x) == 0 && a.y.Cmp(b.y) == 0 }

// sqrt: p = 3 mod 4, complex method.
func (a f2) sqrt() (f2, bool) {
	n := fm(new(big.Int).Add(new(big.Int).Mul(a.x, a.x), new(big.Int).Mul(a.y, a.y)))
	s := new(big.Int).ModSqrt(n, fp)
	if s == nil {
		return f2{}, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), fp)
	for _, sg := range []*big.Int{s, fm(new(big.Int).Neg(s))} {
		d := fm(new(big.Int).Mul(new(big.Int).Add(a.y, sg), half))
		re := new(big.Int).ModSqrt(d, fp)
		if re == nil || re.Sign() == 0 {
			continue
		}
		im := new(big.Int).ModInverse(fm(new(big.Int).Lsh(re, 1)), fp)
		im = fm(im.Mul(im, a.x))
		r := f2{im, re}
		if r.mul(r).eq(a) {
			return r, true
		}
	}
	return f2{}, false
}

var twistB = f2{big.NewInt(0), big.NewInt(3)}.mul(f2{big.NewInt(1), big.NewInt(3)}.inv())

func b32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

func g2Bytes(x, y f2) []byte {
	out := []byte{1}
	for _, v := range []*big.Int{x.x, x.y, y.x, y.y} {
		out = append(out, b32(v)...)
	}
	return out
}

// twistPoint makes the encoding of a random point of the twist, which is in
// the prime-order group with negligible probability.
func twistPoint(c *hx.C) []byte {
	x := f2{fm(new(big.Int).SetBytes(c.Bytes(40))), fm(new(big.Int).SetBytes(c.Bytes(40)))}
	if c.Chance(3, "small x") {
		x = f2{big.NewInt(int64(c.Pick(3, "xi"))), big.NewInt(int64(c.Pick(200, "x")))}
	}
	for {
		if y, ok := x.mul(x).mul(x).add(twistB).sqrt(); ok {
			return g2Bytes(x, y)
		}
		x.y = fm(new(big.Int).Add(x.y, big.NewInt(1)))
	}
}

// inGroup multiplies by the order with additions only; the library's own
// scalar multiplication reduces the factor and cannot tell.
func inGroup(p *bn256.G2) bool {
	r := new(bn256.G2).Set(p)
	for i := bn256.Order.BitLen() - 2; i >= 0; i-- {
		r = new(bn256.G2).Add(r, r)
		if bn256.Order.Bit(i) == 1 {
			r = new(bn256.G2).Add(r, p)
		}
	}
	return len(r.Marshal()) == 1
}

// ---------------------------------------------------------------- round trips

func TestC03_RoundTrip(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1600, Thorough: 50000},
		"public keys, raw key sums, aggregated keys (1..4 members), signatures and unsafe signatures through every encoder/decoder pair, decoded into fresh and into used objects; non-trivial: every case, counted per object",
		func(c *hx.C) {
			n := c.Int(1, 4, "n")
			ks := drawKeys(c, n, c.Chance(5, "repeat"))
			if c.Bool("fresh") {
				ks[0] = newKey(1000, nil)
			}
			msg := c.Msg("msg")
			used := drawKeys(c, 1, false)[0]

			// public keys
			pk := ks[0].pk
			if c.Chance(3, "sum") && n > 1 {
				pk = ks[0].pk.Aggregate(ks[1].pk)
			}
			enc := pk.Marshal()
			check := func(what string, got, want []byte) {
				if !bytes.Equal(got, want) {
					c.Fatalf("%s gives %s instead of %s", what, hx.Short(got), hx.Short(want))
				}
			}
			if !bytes.Equal(g2(enc).Marshal(), enc) {
				c.Fatalf("key encoding is not canonical")
			}
			p1, err := bls.UnmarshalPk(enc)
			c.Must(err, "UnmarshalPk")
			check("UnmarshalPk", p1.Marshal(), enc)
			p2, err := bls.UnmarshalPk(used.b)
			c.Must(err, "UnmarshalPk")
			c.Must(p2.Unmarshal(enc), "Unmarshal into a used key")
			check("Unmarshal into a used key", p2.Marshal(), enc)
			txt, err := pk.MarshalText()
			c.Must(err, "MarshalText")
			dec, err := b64.DecodeString(string(txt))
			if err != nil || !bytes.Equal(dec, enc) {
				c.Fatalf("text encoding is not the base64 of the binary one: %v", err)
			}
			p3, err := bls.UnmarshalPk(used.b)
			c.Must(err, "UnmarshalPk")
			c.Must(p3.UnmarshalText(txt), "UnmarshalText")
			check("UnmarshalText", p3.Marshal(), enc)
			check("key after encoding", pk.Marshal(), enc)

			// aggregated keys
			apk := buildApk(c, ks)
			enc = apk.Marshal()
			a1, err := bls.UnmarshalApk(enc)
			c.Must(err, "UnmarshalApk")
			check("UnmarshalApk", a1.Marshal(), enc)
			check("Apk.Copy", apk.Copy().Marshal(), enc)
			txt, err = apk.MarshalText()
			c.Must(err, "Apk.MarshalText")
			a2 := bls.NewApk(used.pk)
			c.Must(a2.UnmarshalText(txt), "Apk.UnmarshalText")
			check("Apk.UnmarshalText", a2.Marshal(), enc)
			a3 := bls.NewApk(used.pk)
			c.Must(a3.Unmarshal(enc), "Apk.Unmarshal")
			check("Apk.Unmarshal", a3.Marshal(), enc)

			// signatures
			var ps []part
			for _, k := range ks {
				ps = append(ps, part{k, msg})
			}
			sig := buildSig(c, ps)
			enc, comp := sig.Marshal(), sig.Compress()
			if len(enc) != 64 || len(comp) != 33 {
				c.Fatalf("signature encodings have %d and %d bytes", len(enc), len(comp))
			}
			other, err := bls.Sign(used.sk, used.pk, msg)
			c.Must(err, "Sign")
			for name, f := range map[string]func() (*bls.Signature, error){
				"UnmarshalSignature":             func() (*bls.Signature, error) { return bls.UnmarshalSignature(enc) },
				"UnmarshalSignature(compressed)": func() (*bls.Signature, error) { return bls.UnmarshalSignature(comp) },
				"Unmarshal into a used one":      func() (*bls.Signature, error) { s := other.Copy(); return s, s.Unmarshal(enc) },
				"Unmarshal(compressed)":          func() (*bls.Signature, error) { s := other.Copy(); return s, s.Unmarshal(comp) },
				"Decompress":                     func() (*bls.Signature, error) { s := other.Copy(); return s, s.Decompress(comp) },
				"Copy":                           func() (*bls.Signature, error) { return sig.Copy(), nil },
			} {
				s, err := f()
				c.Must(err, name)
				check("signature: "+name, s.Marshal(), enc)
				check("signature: "+name+", compressed", s.Compress(), comp)
			}
			u, err := bls.UnsafeSign(ks[0].sk, msg)
			c.Must(err, "UnsafeSign")
			for _, k := range ks[1:] {
				v, err := bls.UnsafeSign(k.sk, msg)
				c.Must(err, "UnsafeSign")
				u = bls.UnsafeAggregate(u, v)
			}
			enc, comp = u.Marshal(), u.Compress()
			u1 := new(bls.UnsafeSignature)
			c.Must(u1.Unmarshal(enc), "UnsafeSignature.Unmarshal")
			check("unsafe signature", u1.Marshal(), enc)
			u2 := usigFrom(c, g1(other.Marshal()))
			c.Must(u2.Decompress(comp), "UnsafeSignature.Decompress")
			check("unsafe signature, compressed", u2.Marshal(), enc)
			c.NT(ids(ks), hx.Short(enc))
			c.Note("keys %s, message %s", ids(ks), hx.Short(msg))
		})
}

// -------------------------------------------------------------- malformed input

func TestC03_MalformedKeys(t *testing.T) {
	hx.Check(t, hx.N{Quick: 3000, Thorough: 100000},
		"encodings of public keys that are cut short, random, off the curve, on the twist but outside the prime-order group, the neutral element in both forms, or with a wrong tag, given to every key decoder (binary, text, aggregating), and texts with an illegal character, decoded into used objects; non-trivial: every case, counted per kind and bytes",
		func(c *hx.C) {
			k := drawKeys(c, 1, false)[0]
			used := drawKeys(c, 1, false)[0]
			good := k.b
			var bad []byte
			kind := c.Pick(9, "kind")
			switch kind {
			case 0:
				bad = append([]byte(nil), good[:c.Pick(len(good), "cut")]...)
			case 1:
				bad = c.Bytes(c.Int(0, 140, "len"))
				if len(bad) > 0 && c.Bool("tag") {
					bad[0] = 1
				}
			case 2: // one coordinate changed: off the curve
				bad = append([]byte(nil), good...)
				bad[1+c.Pick(128, "byte")] ^= 1 << c.Pick(8, "bit")
			case 3:
				bad = twistPoint(c)
			case 4: // a key plus a point of the twist outside the group
				p := new(bn256.G2).Add(g2(good), g2(twistPoint(c)))
				bad = p.Marshal()
			case 5:
				bad = Opt(c, []byte{0}, append([]byte{1}, make([]byte, 128)...), make([]byte, 129), append([]byte{0}, good...))
			case 6:
				bad = append([]byte(nil), good...)
				bad[0] = byte(2 + c.Pick(254, "tag"))
			case 7: // a small multiple of a point outside the group
				p := new(bn256.G2).Set(g2(twistPoint(c)))
				q := p
				for i := c.Int(1, 6, "times"); i > 0; i-- {
					q = new(bn256.G2).Add(q, p)
				}
				bad = q.Marshal()
			case 8: // a point of cofactor order
				p := g2(twistPoint(c))
				r := new(bn256.G2).Set(p)
				for i := bn256.Order.BitLen() - 2; i >= 0; i-- {
					r = new(bn256.G2).Add(r, r)
					if bn256.Order.Bit(i) == 1 {
						r = new(bn256.G2).Add(r, p)
					}
				}
				bad = r.Marshal()
			}
			// a model decides whether these bytes are a key after all
			if p := new(bn256.G2); true {
				if _, err := p.Unmarshal(bad); err == nil && len(p.Marshal()) > 1 && inGroup(p) {
					return
				}
			}
			txt := []byte(b64.EncodeToString(bad))
			apk := bls.NewApk(used.pk)
			apkB := append([]byte(nil), apk.Marshal()...)
			pk, err := bls.UnmarshalPk(used.b)
			c.Must(err, "UnmarshalPk")
			desc := fmt.Sprintf("kind %d: %s", kind, hx.Short(bad))
			if r, err := bls.UnmarshalPk(bad); err == nil || r != nil {
				c.Fatalf("UnmarshalPk accepts %s", desc)
			}
			if r, err := bls.UnmarshalApk(bad); err == nil || r != nil {
				c.Fatalf("UnmarshalApk accepts %s", desc)
			}
			if pk.Unmarshal(bad) == nil {
				c.Fatalf("PublicKey.Unmarshal accepts %s", desc)
			}
			if pk.UnmarshalText(txt) == nil {
				c.Fatalf("PublicKey.UnmarshalText accepts %s", desc)
			}
			if pk.UnmarshalText(append([]byte("!"), txt...)) == nil {
				c.Fatalf("PublicKey.UnmarshalText accepts what is not base64")
			}
			// the text of a good key with a character that has no place in it
			gtxt := []byte(b64.EncodeToString(good))
			at, ch := c.Pick(len(gtxt)+1, "at"), hx.Choose(c, "char", byte('!'), byte('='), byte('+'), byte('/'), byte(' '), byte('*'), byte(0), byte(0xff), byte('.'))
			if c.Chance(3, "at end") {
				at = len(gtxt)
			}
			btxt := append(append(append([]byte(nil), gtxt[:at]...), ch), gtxt[at:]...)
			if at < len(gtxt) && c.Bool("replace") {
				btxt = append([]byte(nil), gtxt...)
				btxt[at] = ch
			}
			if pk.UnmarshalText(btxt) == nil || apk.UnmarshalText(btxt) == nil {
				c.Fatalf("UnmarshalText accepts a text with %q at %d of %d", ch, at, len(btxt))
			}
			if !bytes.Equal(pk.Marshal(), used.b) {
				c.Fatalf("refused bytes changed the key: %s", desc)
			}
			if apk.AggregateBytes(bad) == nil {
				c.Fatalf("Apk.AggregateBytes accepts %s", desc)
			}
			if apk.Unmarshal(bad) == nil || apk.UnmarshalText(txt) == nil {
				c.Fatalf("Apk decoder accepts %s", desc)
			}
			if !bytes.Equal(apk.Marshal(), apkB) {
				c.Fatalf("refused bytes changed the aggregated key: %s", desc)
			}
			c.Label(fmt.Sprint("kind", kind))
			c.NT(kind, hx.Short(bad), len(bad))
			c.Note("%s", desc)
		})
}

// Opt draws one of the values.
func Opt(c *hx.C, vals ...[]byte) []byte { return vals[c.Pick(len(vals), "opt")] }

func TestC03_MalformedSignatures(t *testing.T) {
	hx.Check(t, hx.N{Quick: 5000, Thorough: 200000},
		"signature bytes that are cut short, random, off the curve or have no square root, given to every decoder, decoded into used objects; non-trivial: every refused string, counted per kind and bytes",
		func(c *hx.C) {
			k := drawKeys(c, 1, false)[0]
			msg := c.Bytes(8)
			sig, err := bls.Sign(k.sk, k.pk, msg)
			c.Must(err, "Sign")
			good, comp := sig.Marshal(), sig.Compress()
			var bad []byte
			kind := c.Pick(6, "kind")
			switch kind {
			case 0:
				bad = append([]byte(nil), good[:c.Pick(len(good), "cut")]...)
			case 1:
				bad = c.Bytes(c.Int(0, 70, "len"))
			case 2:
				bad = append([]byte(nil), good...)
				bad[c.Pick(64, "byte")] ^= 1 << c.Pick(8, "bit")
			case 3:
				bad = append([]byte(nil), comp[:c.Pick(len(comp), "cut")]...)
			case 4:
				bad = append([]byte(nil), comp...)
				bad[c.Pick(32, "byte")] ^= 1 << c.Pick(8, "bit")
			case 5:
				bad = c.Bytes(33)
			}
			used, err := bls.Sign(ks0(c).sk, ks0(c).pk, []byte("used"))
			c.Must(err, "Sign")
			usedB := append([]byte(nil), used.Marshal()...)
			// the model: 33 bytes are a compressed point, other lengths need 64
			_, errC := bn256.Decompress(bad)
			_, errU := new(bn256.G1).Unmarshal(bad)
			desc := fmt.Sprintf("kind %d: %s", kind, hx.Short(bad))
			refused := false
			if (len(bad) == 33 && errC != nil) || (len(bad) != 33 && errU != nil) {
				refused = true
				if r, err := bls.UnmarshalSignature(bad); err == nil || r != nil {
					c.Fatalf("UnmarshalSignature accepts %s", desc)
				}
				if used.Unmarshal(bad) == nil {
					c.Fatalf("Signature.Unmarshal accepts %s", desc)
				}
				if used.AggregateBytes(bad) == nil {
					c.Fatalf("Signature.AggregateBytes accepts %s", desc)
				}
			}
			if errC != nil {
				refused = true
				if used.Decompress(bad) == nil {
					c.Fatalf("Signature.Decompress accepts %s", desc)
				}
				u := usigFrom(c, g1(usedB))
				if u.Decompress(bad) == nil {
					c.Fatalf("UnsafeSignature.Decompress accepts %s", desc)
				}
				if !bytes.Equal(u.Marshal(), usedB) {
					c.Fatalf("refused bytes changed the unsafe signature: %s", desc)
				}
				if bls.VerifyCompressed([]*bn256.G2{k.tw.b}, [][]byte{msg}, bad, c.Bool("allow")) == nil {
					c.Fatalf("VerifyCompressed accepts %s", desc)
				}
			}
			if errU != nil {
				refused = true
				u := usigFrom(c, g1(usedB))
				if u.Unmarshal(bad) == nil {
					c.Fatalf("UnsafeSignature.Unmarshal accepts %s", desc)
				}
				if !bytes.Equal(u.Marshal(), usedB) {
					c.Fatalf("refused bytes changed the unsafe signature: %s", desc)
				}
			}
			if !bytes.Equal(used.Marshal(), usedB) {
				c.Fatalf("refused bytes changed the signature: %s", desc)
			}
			if refused {
				c.NT(kind, hx.Short(bad), len(bad))
			}
			c.Label(fmt.Sprint("kind", kind))
			c.Note("%s", desc)
		})
}
