package bls

import (
	"bytes"
	"crypto/sha3"
	"encoding/base64"
	"fmt"
	"io"
	"math/big"
	"testing"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"verif/harness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// ------------------------------------------------------------- group algebra

func g1(b []byte) *bn256.G1 {
	p := new(bn256.G1)
	if _, err := p.Unmarshal(b); err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	return p
}

func g2(b []byte) *bn256.G2 {
	p := new(bn256.G2)
	if _, err := p.Unmarshal(b); err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	return p
}

func mod(k *big.Int) *big.Int { return new(big.Int).Mod(k, bn256.Order) }

// twin is a key x held as x*G1 and x*G2, so that signatures by it can be
// computed without knowing x. Nothing is ever computed in place.
type twin struct {
	a *bn256.G1
	b *bn256.G2
}

func (t twin) mul(k *big.Int) twin {
	k = mod(k)
	return twin{new(bn256.G1).ScalarMult(t.a, k), new(bn256.G2).ScalarMult(t.b, k)}
}
func (t twin) add(o twin) twin {
	return twin{add1(t.a, o.a), new(bn256.G2).Add(t.b, o.b)}
}
func (t twin) neg() twin { return twin{new(bn256.G1).Neg(t.a), new(bn256.G2).Neg(t.b)} }

func add1(a, b *bn256.G1) *bn256.G1 { return new(bn256.G1).Add(a, b) }

func scalarTwin(k *big.Int) twin {
	k = mod(k)
	return twin{new(bn256.G1).ScalarBaseMult(k), new(bn256.G2).ScalarBaseMult(k)}
}

// the published hash functions
func hashInt(b []byte) *big.Int {
	h := sha3.Sum256(b)
	return new(big.Int).SetBytes(h[:])
}

// coefficient of a member key in an aggregated key
func (t twin) t() *big.Int { return hashInt(t.b.Marshal()) }

// what key t contributes to an aggregated key
func (t twin) weighted() twin { return t.mul(t.t()) }

// signature of the (possibly aggregated) key on msg
func (t twin) sign(msg []byte) *bn256.G1 { return new(bn256.G1).ScalarMult(t.a, mod(hashInt(msg))) }

func sum1(l ...*bn256.G1) *bn256.G1 {
	s := new(bn256.G1).ScalarBaseMult(new(big.Int))
	for _, p := range l {
		s = add1(s, p)
	}
	return s
}

func apkOf(ts ...twin) twin {
	s := scalarTwin(new(big.Int))
	for _, t := range ts {
		s = s.add(t.weighted())
	}
	return s
}

func same1(a, b *bn256.G1) bool { return bytes.Equal(a.Marshal(), b.Marshal()) }

// -------------------------------------------------------------------- keys

type key struct {
	id int
	pk *bls.PublicKey
	sk *bls.SecretKey
	tw twin
	b  []byte // marshalled pk
}

// chosen feeds a wanted number to a reader of 32-byte candidates first.
type chosen struct {
	first []byte
	rest  io.Reader
}

func (r *chosen) Read(p []byte) (int, error) {
	if len(r.first) > 0 {
		n := copy(p, r.first)
		r.first = r.first[n:]
		return n, nil
	}
	return r.rest.Read(p)
}

var calibration = []byte("calibration")

// newKey makes a key pair and learns its twin from one signature.
func newKey(id int, r io.Reader) *key {
	pk, sk, err := bls.GenKeyPair(r)
	if err != nil {
		panic(err)
	}
	k := &key{id: id, pk: pk, sk: sk, b: append([]byte(nil), pk.Marshal()...)}
	u, err := bls.UnsafeSign(sk, calibration)
	if err != nil {
		panic(err)
	}
	inv := new(big.Int).ModInverse(mod(hashInt(calibration)), bn256.Order)
	k.tw = twin{new(bn256.G1).ScalarMult(g1(u.Marshal()), inv), g2(k.b)}
	return k
}

// honest tells whether the key's signatures are what the scheme defines:
// the twin's halves have the same logarithm.
func (k *key) honest() bool {
	one := scalarTwin(big.NewInt(1))
	return bytes.Equal(bn256.Pair(k.tw.a, one.b).Marshal(), bn256.Pair(one.a, k.tw.b).Marshal())
}

const poolSize = 12

var pool []*key

func keyPool(c *hx.C) []*key {
	if pool == nil {
		hx.WithRand(func() {
			for i := 0; i < poolSize; i++ {
				var r io.Reader
				switch i {
				case 8, 9: // tiny secrets
					b := make([]byte, 32)
					b[31] = byte(i - 7)
					r = &chosen{b, hx.NewStream("bls tiny", i)}
				case 10: // close to the order
					b := new(big.Int).Sub(bn256.Order, big.NewInt(977)).Bytes()
					r = &chosen{b, hx.NewStream("bls big", i)}
				}
				pool = append(pool, newKey(i, r))
			}
		}, "bls pool")
	}
	for _, k := range pool {
		if !k.honest() {
			c.Fatalf("signatures of key %d do not belong to its public key", k.id)
		}
		break // all of them are looked at by TestC04_Formula
	}
	return pool
}

// drawKeys draws n keys, different unless repeat is set.
func drawKeys(c *hx.C, n int, repeat bool) []*key {
	p := keyPool(c)
	idx := c.Src.Perm(len(p))
	out := make([]*key, n)
	for i := range out {
		out[i] = p[idx[i%len(idx)]]
	}
	if repeat && n > 1 {
		out[c.Pick(n, "rep.i")] = out[c.Pick(n, "rep.j")]
	}
	if c.Chance(5, "fresh key") {
		out[c.Pick(n, "fresh.i")] = newKey(100+int(c.Src.Uint32()), nil)
	}
	return out
}

func ids(ks []*key) string {
	s := ""
	for _, k := range ks {
		s += fmt.Sprint(k.id%1000, " ")
	}
	return s
}

// ------------------------------------------------------------------ routes

// wipe overwrites encodings after use: they belong to the caller, and neither
// the object they came from nor the one made of them depends on them.
type wipe [][]byte

func (w *wipe) keep(b []byte) []byte {
	*w = append(*w, b)
	return b
}

func (w *wipe) done() {
	for _, b := range *w {
		for i := range b {
			b[i] ^= 0xa5
		}
	}
}

// pkVia passes a public key through a random chain of encodings.
func pkVia(c *hx.C, pk *bls.PublicKey) *bls.PublicKey {
	var w wipe
	defer w.done()
	switch c.Pick(5, "pk via") {
	case 0, 1:
		return pk
	case 2:
		r, err := bls.UnmarshalPk(w.keep(pk.Marshal()))
		c.Must(err, "UnmarshalPk")
		return r
	case 3:
		txt, err := pk.MarshalText()
		c.Must(err, "MarshalText")
		r := new(bls.PublicKey)
		c.Must(r.UnmarshalText(w.keep(txt)), "UnmarshalText")
		return r
	default:
		r := new(bls.PublicKey)
		c.Must(r.Unmarshal(w.keep(pk.Marshal())), "Unmarshal")
		return r
	}
}

func apkVia(c *hx.C, a *bls.Apk) *bls.Apk {
	var w wipe
	defer w.done()
	switch c.Pick(6, "apk via") {
	case 0, 1, 2:
		return a
	case 3:
		return a.Copy()
	case 4:
		r, err := bls.UnmarshalApk(w.keep(a.Marshal()))
		c.Must(err, "UnmarshalApk")
		return r
	default:
		txt, err := a.MarshalText()
		c.Must(err, "Apk.MarshalText")
		r := &bls.Apk{PublicKey: &bls.PublicKey{}}
		c.Must(r.UnmarshalText(w.keep(txt)), "Apk.UnmarshalText")
		return r
	}
}

func sigVia(c *hx.C, s *bls.Signature) *bls.Signature {
	var w wipe
	defer w.done()
	switch c.Pick(8, "sig via") {
	case 0, 1, 2:
		return s
	case 3:
		return s.Copy()
	case 4:
		r, err := bls.UnmarshalSignature(w.keep(s.Marshal()))
		c.Must(err, "UnmarshalSignature")
		return r
	case 5:
		r := new(bls.Signature)
		c.Must(r.Decompress(w.keep(s.Compress())), "Decompress")
		return r
	case 6:
		r := new(bls.Signature)
		c.Must(r.Unmarshal(w.keep(s.Compress())), "Unmarshal(compressed)")
		return r
	default:
		r, err := bls.UnmarshalSignature(w.keep(s.Compress()))
		c.Must(err, "UnmarshalSignature(compressed)")
		return r
	}
}

func usigVia(c *hx.C, s *bls.UnsafeSignature) *bls.UnsafeSignature {
	var w wipe
	defer w.done()
	switch c.Pick(4, "usig via") {
	case 0, 1:
		return s
	case 2:
		r := new(bls.UnsafeSignature)
		c.Must(r.Unmarshal(w.keep(s.Marshal())), "UnsafeSignature.Unmarshal")
		return r
	default:
		r := new(bls.UnsafeSignature)
		c.Must(r.Decompress(w.keep(s.Compress())), "UnsafeSignature.Decompress")
		return r
	}
}

// buildApk aggregates keys by a random route. Partial sums must not be
// neutral, which pool keys never produce.
func buildApk(c *hx.C, ks []*key) *bls.Apk {
	if c.Chance(3, "list") {
		var l []*bls.PublicKey
		for _, k := range ks {
			l = append(l, pkVia(c, k.pk))
		}
		a, err := bls.AggregateApk(l)
		c.Must(err, "AggregateApk")
		return apkVia(c, a)
	}
	a := bls.NewApk(pkVia(c, ks[0].pk))
	for _, k := range ks[1:] {
		a = apkVia(c, a)
		if c.Bool("bytes") {
			c.Must(a.AggregateBytes(k.pk.Marshal()), "Apk.AggregateBytes")
		} else {
			c.Must(a.Aggregate(pkVia(c, k.pk)), "Apk.Aggregate")
		}
	}
	return apkVia(c, a)
}

// signOne makes the signature of one key with its factor.
func signOne(c *hx.C, k *key, msg []byte) *bls.Signature {
	s, err := bls.Sign(k.sk, pkVia(c, k.pk), msg)
	c.Must(err, "Sign")
	return sigVia(c, s)
}

// part is something to be added to a signature: a key's signature on a message.
type part struct {
	k   *key
	msg []byte
}

// buildSig aggregates the parts by a random route and grouping.
func buildSig(c *hx.C, ps []part) *bls.Signature {
	if len(ps) == 1 {
		return signOne(c, ps[0].k, ps[0].msg)
	}
	if len(ps) > 2 && c.Chance(3, "group") {
		cut := c.Int(1, len(ps)-1, "cut")
		l, r := buildSig(c, ps[:cut]), buildSig(c, ps[cut:])
		if same1(g1(l.Marshal()), g1(r.Marshal())) {
			c.Label("equal halves")
		}
		return sigVia(c, aggregate(c, l, r))
	}
	s := signOne(c, ps[0].k, ps[0].msg)
	for _, p := range ps[1:] {
		s = sigVia(c, s)
		if c.Chance(3, "add") {
			u, err := bls.UnsafeSign(p.k.sk, p.msg)
			c.Must(err, "UnsafeSign")
			c.Must(s.Add(pkVia(c, p.k.pk), usigVia(c, u)), "Add")
			continue
		}
		s = aggregate(c, s, signOne(c, p.k, p.msg))
	}
	return sigVia(c, s)
}

func aggregate(c *hx.C, l, r *bls.Signature) *bls.Signature {
	switch c.Pick(4, "agg") {
	case 0:
		c.Must(l.AggregateBytes(r.Marshal()), "AggregateBytes")
		return l
	case 1:
		c.Must(l.AggregateBytes(r.Compress()), "AggregateBytes(compressed)")
		return l
	case 2:
		return l.Aggregate(r)
	default:
		l.Aggregate(r)
		return l
	}
}

// msgs draws n different messages.
func drawMsgs(c *hx.C, n int) [][]byte {
	out := make([][]byte, 0, n)
	seen := map[string]bool{}
	for len(out) < n {
		m := c.Msg("msg")
		if len(out) > 0 && c.Chance(3, "related") { // prefix, extension or near miss of an earlier one
			o := out[c.Pick(len(out), "of")]
			switch c.Pick(3, "how") {
			case 0:
				m = append(append([]byte{}, o...), 0)
			case 1:
				m = append([]byte{}, o[:len(o)/2]...)
			default:
				m = append([]byte{}, o...)
				if len(m) > 0 {
					m[c.Pick(len(m), "byte")] ^= 1 << c.Pick(8, "bit")
				}
			}
		}
		for seen[string(m)] {
			m = append(m, byte(c.Src.Uint32()))
		}
		seen[string(m)] = true
		out = append(out, m)
	}
	return out
}

func sigFrom(c *hx.C, p *bn256.G1) *bls.Signature {
	s, err := bls.UnmarshalSignature(p.Marshal())
	c.Must(err, "UnmarshalSignature")
	return s
}

func usigFrom(c *hx.C, p *bn256.G1) *bls.UnsafeSignature {
	s := new(bls.UnsafeSignature)
	c.Must(s.Unmarshal(p.Marshal()), "UnsafeSignature.Unmarshal")
	return s
}

var b64 = base64.RawURLEncoding
