package bls

import (
	"bytes"
	"testing"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"verif/harness/hx"
)

func within(c *hx.C, b []byte, what string, f func()) {
	if a := hx.Alloc(f); a > 1<<20+400*uint64(len(b)) {
		c.Fatalf("%s: %d bytes of memory for an input of %d", what, a, len(b))
	}
}

func TestC28_Keys(t *testing.T) {
	hx.Check(t, hx.N{Quick: 5000, Thorough: 200000},
		"encodings of public and aggregated keys corrupted in 1..4 steps, points of the twist outside the group, and random bytes, given to all key decoders in binary and as text; whatever decodes verifies an honest signature, alone and in a batch with arbitrary companions: no panic, memory in proportion, accepted only if it encodes like the signer's key; non-trivial: every string, counted per bytes",
		func(c *hx.C) {
			ks := drawKeys(c, 2, false)
			k, other := ks[0], ks[1]
			msg := c.Msg("msg")
			usig, err := bls.UnsafeSign(k.sk, msg)
			c.Must(err, "UnsafeSign")
			sig, err := bls.Sign(k.sk, k.pk, msg)
			c.Must(err, "Sign")
			honestApk := bls.NewApk(k.pk).Marshal()
			src := k.b
			if c.Bool("apk") {
				src = honestApk
			}
			b, what := hx.Mangle(c, src, other.b, twistPoint(c))
			txt := []byte(b64.EncodeToString(b))
			if c.Chance(4, "text") {
				txt, _ = hx.Mangle(c, txt, b)
			}
			var pk *bls.PublicKey
			var apk *bls.Apk
			within(c, b, what, func() { pk, err = bls.UnmarshalPk(b) })
			if (pk == nil) != (err != nil) {
				c.Fatalf("%s: UnmarshalPk returns %v and %v", what, pk, err)
			}
			within(c, b, what, func() { apk, err = bls.UnmarshalApk(b) })
			if (apk == nil) != (err != nil) {
				c.Fatalf("%s: UnmarshalApk returns %v and %v", what, apk, err)
			}
			agg := bls.NewApk(other.pk)
			_ = agg.AggregateBytes(b)
			tk, err := bls.UnmarshalPk(other.b)
			c.Must(err, "UnmarshalPk")
			if tk.UnmarshalText(txt) != nil && !bytes.Equal(tk.Marshal(), other.b) {
				c.Fatalf("%s: refused text changed the key", what)
			}
			fresh := new(bls.PublicKey)
			_ = fresh.UnmarshalText(txt)
			if pk != nil {
				c.Label("key decoded")
				if bls.VerifyUnsafe(pk, msg, usig) == nil && !bytes.Equal(pk.Marshal(), k.b) {
					c.Fatalf("%s: another key's signature is accepted", what)
				}
				if bls.VerifyUnsafeBatch([]*bls.PublicKey{pk, pk}, [][]byte{msg, append([]byte("x"), msg...)}, usig) == nil {
					c.Fatalf("%s: batch accepted", what)
				}
				_ = bls.NewApk(pk)
			}
			if bls.NewApk(nil) != nil {
				c.Fatalf("an aggregate of no key")
			}
			if apk != nil {
				c.Label("aggregated key decoded")
				if bls.Verify(apk, msg, sig) == nil && !bytes.Equal(apk.Marshal(), honestApk) {
					c.Fatalf("%s: signature of another aggregated key accepted", what)
				}
				if bls.VerifyBatch([]*bls.Apk{apk}, [][]byte{msg, msg}, sig) == nil || bls.VerifyBatch(nil, nil, sig) == nil {
					c.Fatalf("%s: malformed batch accepted", what)
				}
			}
			if bls.Verify(agg, msg, sig) == nil {
				c.Fatalf("%s: aggregated into a key, it verifies", what)
			}
			c.NT(hx.Short(b), len(b))
			c.Note("%s: key %v, aggregated key %v", what, pk != nil, apk != nil)
		})
}

func TestC28_Signatures(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 300000},
		"plain, compressed and unweighted signatures corrupted in 1..4 steps, points made up, and random bytes, given to all signature decoders; whatever decodes is verified, aggregated, compressed and encoded: no panic, memory in proportion, accepted only if it is the honest signature; non-trivial: every string, counted per bytes",
		func(c *hx.C) {
			k := drawKeys(c, 1, false)[0]
			msg := c.Msg("msg")
			usig, err := bls.UnsafeSign(k.sk, msg)
			c.Must(err, "UnsafeSign")
			sig, err := bls.Sign(k.sk, k.pk, msg)
			c.Must(err, "Sign")
			apk := bls.NewApk(k.pk)
			all := [][]byte{sig.Marshal(), sig.Compress(), usig.Marshal(), usig.Compress(), make([]byte, 64), make([]byte, 33)}
			b, what := hx.Mangle(c, all[c.Pick(len(all), "which")], all...)
			isSig := func(x []byte) bool { return bytes.Equal(x, all[0]) }
			isU := func(x []byte) bool { return bytes.Equal(x, all[2]) }

			var s *bls.Signature
			within(c, b, what, func() { s, err = bls.UnmarshalSignature(b) })
			if (s == nil) != (err != nil) {
				c.Fatalf("%s: UnmarshalSignature returns %v and %v", what, s, err)
			}
			d := sigFrom(c, g1(all[0]))
			objs := []*bls.Signature{s}
			if d.Decompress(b) == nil {
				c.Label("decompressed")
				objs = append(objs, d)
			}
			for _, o := range objs {
				if o == nil {
					continue
				}
				c.Label("signature decoded")
				if bls.Verify(apk, msg, o) == nil && !isSig(o.Marshal()) {
					c.Fatalf("%s: accepted", what)
				}
				if bls.VerifyBatch([]*bls.Apk{apk, apk}, [][]byte{msg, append([]byte("x"), msg...)}, o) == nil {
					c.Fatalf("%s: accepted in a batch", what)
				}
				// the neutral element does not survive compression (see C03)
				if !bytes.Equal(o.Marshal(), make([]byte, 64)) {
					if x := sigFrom(c, g1(all[0])); x.Decompress(o.Compress()) != nil || !bytes.Equal(x.Marshal(), o.Marshal()) {
						c.Fatalf("%s: a decoded signature is lost by compression", what)
					}
				} else {
					_ = o.Compress()
				}
				sum := sig.Copy().Aggregate(o)
				if bls.Verify(apk, msg, sum) == nil && !isSig(sum.Marshal()) {
					c.Fatalf("%s: sum accepted", what)
				}
			}
			x := sig.Copy()
			if x.AggregateBytes(b) != nil && !isSig(x.Marshal()) {
				c.Fatalf("%s: refused bytes changed the aggregate", what)
			}

			u := new(bls.UnsafeSignature)
			var us []*bls.UnsafeSignature
			if u.Unmarshal(b) == nil {
				us = append(us, u)
			}
			v := new(bls.UnsafeSignature)
			if v.Decompress(b) == nil {
				us = append(us, v)
			}
			for _, o := range us {
				c.Label("unweighted signature decoded")
				if bls.VerifyUnsafe(k.pk, msg, o) == nil && !isU(o.Marshal()) {
					c.Fatalf("%s: unweighted signature accepted", what)
				}
				_ = bls.UnsafeAggregate(o, usig)
				if _, err := bls.UnsafeBatch(o, usig); err != nil {
					c.Fatalf("%s: UnsafeBatch: %v", what, err)
				}
				if err := sig.Copy().Add(k.pk, o); err != nil {
					c.Fatalf("%s: Add: %v", what, err)
				}
			}
			if bls.VerifyCompressed([]*bn256.G2{g2(k.b)}, [][]byte{msg}, b, c.Bool("allow")) == nil {
				w := new(bls.UnsafeSignature)
				if w.Decompress(b) != nil || !isU(w.Marshal()) {
					c.Fatalf("%s: VerifyCompressed accepts", what)
				}
			}
			c.NT(hx.Short(b), len(b))
			c.Note("%s: %d decoded as signature, %d as unweighted signature", what, len(objs), len(us))
		})
}
