package bls

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"verif/harness/hx"
)

// large sets of different keys: one stock per process

var stock []*key

func manyKeys(n int) []*key {
	if stock == nil {
		hx.WithRand(func() {
			for i := 0; i < 300; i++ {
				stock = append(stock, newKey(1000+i, nil))
			}
		}, "bls stock")
	}
	return stock[:n]
}

func manySize(c *hx.C) int {
	return hx.Choose(c, "size", c.Int(41, 70, "n"), c.Int(63, 66, "n"), c.Int(71, 150, "n"), c.Int(127, 130, "n"), c.Int(150, 300, "n"), c.Int(255, 258, "n"))
}

func manyMsgs(c *hx.C, n int) [][]byte {
	var out [][]byte
	pre, post := c.Bytes(c.Pick(60, "pre")), c.Bytes(c.Pick(60, "post"))
	for i := 0; i < n; i++ {
		out = append(out, []byte(fmt.Sprintf("%s%03d%s", pre, i, post)))
	}
	c.Src.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func large(t *testing.T, n hx.N, desc string, honest bool) {
	hx.Check(t, n, desc, func(c *hx.C) {
		n := manySize(c)
		ks := append([]*key(nil), manyKeys(n)...)
		c.Src.Shuffle(n, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		bad := -1 // whose signature is missing, or is on another message
		other := false
		if !honest {
			bad = hx.Choose(c, "at", c.Pick(n, "at"), n-1, 0, n/2, min(64, n-1), min(128, n-1), min(256, n-1), min(255, n-1))
			other = c.Bool("another message")
		}
		zero := new(bn256.G1).ScalarBaseMult(new(big.Int))
		kind := c.Pick(3, "kind")
		ms := manyMsgs(c, n)
		if kind == 0 {
			for i := range ms {
				ms[i] = ms[0]
			}
		}
		s := zero
		var pks []*bls.PublicKey
		var apks []*bls.Apk
		var real *bls.Signature
		var unsafe []*bls.UnsafeSignature
		for i, k := range ks {
			pks = append(pks, k.pk)
			if kind == 1 {
				apks = append(apks, bls.NewApk(k.pk))
			}
			m := ms[i]
			if i == bad {
				if !other {
					continue
				}
				m = c.AlterMsg(m, "other")
			}
			if !honest {
				tw := k.tw
				if kind < 2 {
					tw = tw.weighted()
				}
				s = add1(s, tw.sign(m))
				continue
			}
			// honest signatures are made by the code
			if kind == 2 {
				u, err := bls.UnsafeSign(k.sk, m)
				c.Must(err, "UnsafeSign")
				unsafe = append(unsafe, u)
				continue
			}
			x, err := bls.Sign(k.sk, k.pk, m)
			c.Must(err, "Sign")
			if real == nil {
				real = x
			} else {
				real.Aggregate(x)
			}
		}
		var err error
		what := ""
		switch kind {
		case 0:
			apk, e := bls.AggregateApk(pks)
			c.Must(e, "AggregateApk")
			var tws []twin
			for _, k := range ks {
				tws = append(tws, k.tw)
			}
			if !bytes.Equal(apk.Marshal(), apkOf(tws...).b.Marshal()) {
				c.Fatalf("aggregated key of %d is not the sum of the weighted member keys", n)
			}
			if !honest {
				real = sigFrom(c, s)
			}
			what = "Verify"
			err = bls.Verify(apk, ms[0], real)
		case 1:
			if !honest {
				real = sigFrom(c, s)
			}
			what = "VerifyBatch"
			err = bls.VerifyBatch(apks, ms, real)
		default:
			u := usigFrom(c, s)
			if honest {
				u, err = bls.UnsafeBatch(unsafe...)
				c.Must(err, "UnsafeBatch")
			}
			what = "VerifyUnsafeBatch"
			err = bls.VerifyUnsafeBatch(pks, ms, u)
		}
		if honest && err != nil {
			c.Fatalf("%s of %d: %v", what, n, err)
		}
		if !honest && err == nil {
			c.Fatalf("%s of %d accepted, signature %d is missing (on another message: %v)", what, n, bad, other)
		}
		c.Label(what)
		c.NT(what, n, bad, other)
		c.Note("%s of %d, without %d", what, n, bad)
	})
}

func TestC01_Large(t *testing.T) {
	large(t, hx.N{Quick: 96, Thorough: 4000},
		"41..300 different keys (mostly next to powers of two): multi-signatures on one message, batches and unweighted batches of as many messages, signed and aggregated by the code, verify; non-trivial: all", true)
}

func TestC02_Large(t *testing.T) {
	large(t, hx.N{Quick: 160, Thorough: 6000},
		"as many keys, and the signature that all but one of them (any, the first, the last, the 64th, ...) made, or one of them made for another message: rejected; non-trivial: all", false)
}

func TestC04_Large(t *testing.T) {
	hx.Check(t, hx.N{Quick: 96, Thorough: 4000},
		"41..300 different keys: keys and signatures aggregated in one go or in pieces, as objects or bytes, compared with the formula; non-trivial: all",
		func(c *hx.C) {
			n := manySize(c)
			ks := append([]*key(nil), manyKeys(n)...)
			c.Src.Shuffle(n, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			msg := c.Msg("msg")
			var tws []twin
			for _, k := range ks {
				tws = append(tws, k.tw)
			}
			want := apkOf(tws...)
			if !bytes.Equal(buildApk(c, ks).Marshal(), want.b.Marshal()) {
				c.Fatalf("aggregated key of %d is not the sum of the weighted member keys", n)
			}
			var ps []part
			for _, j := range c.Src.Perm(n) {
				ps = append(ps, part{ks[j], msg})
			}
			if !bytes.Equal(buildSig(c, ps).Marshal(), want.sign(msg).Marshal()) {
				c.Fatalf("aggregated signature of %d is not the sum of the member signatures", n)
			}
			var us []*bls.UnsafeSignature
			u := new(bn256.G1).ScalarBaseMult(new(big.Int))
			for i, k := range ks {
				s, err := bls.UnsafeSign(k.sk, []byte{byte(i), byte(i >> 8)})
				c.Must(err, "UnsafeSign")
				us = append(us, s)
				u = add1(u, k.tw.sign([]byte{byte(i), byte(i >> 8)}))
			}
			s, err := bls.UnsafeBatch(us...)
			c.Must(err, "UnsafeBatch")
			if !bytes.Equal(s.Marshal(), u.Marshal()) {
				c.Fatalf("unweighted batch of %d is not the sum of the member signatures", n)
			}
			c.NT(n, c.Src.Uint64())
			c.Note("%d keys", n)
		})
}
