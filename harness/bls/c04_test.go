package bls

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"verif/harness/hx"
)

func TestC04_Formula(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1600, Thorough: 50000},
		"1..8, rarely 70, keys (sometimes repeated, incl. tiny secrets): NewApk, AggregateApk and signatures by random routes are compared, byte for byte, with the formula computed on the curve library; non-trivial: two or more keys",
		func(c *hx.C) {
			n := c.Int(1, 8, "n")
			if c.Chance(15, "large") {
				n = c.Int(9, 70, "n")
			}
			ks := drawKeys(c, n, c.Chance(3, "repeat"))
			msg := c.Msg("msg")
			var tws []twin
			for _, k := range ks {
				if !k.honest() {
					c.Fatalf("signatures of key %d do not belong to its public key", k.id)
				}
				tws = append(tws, k.tw)
			}
			want := apkOf(tws...)
			apk := buildApk(c, ks)
			if !bytes.Equal(apk.Marshal(), want.b.Marshal()) {
				c.Fatalf("aggregated key of %sis not the sum of the weighted member keys", ids(ks))
			}
			var ps []part
			for _, j := range c.Src.Perm(n) {
				ps = append(ps, part{ks[j], msg})
			}
			sig := buildSig(c, ps)
			if !bytes.Equal(sig.Marshal(), want.sign(msg).Marshal()) {
				c.Fatalf("aggregated signature of %sis not the sum of the member signatures", ids(ks))
			}
			// lone signatures, twice
			k := ks[0]
			for i := 0; i < 2; i++ {
				s, err := bls.Sign(k.sk, k.pk, msg)
				c.Must(err, "Sign")
				if !bytes.Equal(s.Marshal(), k.tw.weighted().sign(msg).Marshal()) {
					c.Fatalf("Sign of key %d, call %d", k.id, i)
				}
				u, err := bls.UnsafeSign(k.sk, msg)
				c.Must(err, "UnsafeSign")
				if !bytes.Equal(u.Marshal(), k.tw.sign(msg).Marshal()) {
					c.Fatalf("UnsafeSign of key %d, call %d", k.id, i)
				}
			}
			if n > 1 {
				c.NT(ids(ks), len(msg))
			}
			c.Note("keys %s, message %s", ids(ks), hx.Short(msg))
		})
}

// isPool: the keys of the pool are shared between cases and must not change
func isPool(ks []*key, p *bls.PublicKey) bool {
	for _, k := range ks {
		if k.pk == p {
			return true
		}
	}
	return false
}

func TestC04_OnlyTheTargetChanges(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1200, Thorough: 40000},
		"histories of 6..30 operations on a growing set of keys, aggregated keys, signatures and unsafe signatures (aggregate, add, copy, encode, decode into used objects, verify; with itself or with an equal object too); after every operation all objects are compared with a model; non-trivial: three or more aggregations, counted per history",
		func(c *hx.C) {
			ks := drawKeys(c, 3, false)
			msg := c.Msg("msg")
			type apkO struct {
				a  *bls.Apk
				tw twin
			}
			type sigO struct {
				s *bls.Signature
				p *bn256.G1
			}
			type usigO struct {
				s *bls.UnsafeSignature
				p *bn256.G1
			}
			type pkO struct {
				p  *bls.PublicKey
				tw twin
			}
			var apks []*apkO
			var sigs []*sigO
			var usigs []*usigO
			var pks []*pkO
			for _, k := range ks {
				pks = append(pks, &pkO{k.pk, k.tw})
			}
			hist := ""
			aggs := 0
			neutral1 := func(p *bn256.G1) bool { return bytes.Equal(p.Marshal(), make([]byte, 64)) }
			steps := c.Int(6, 30, "steps")
			for s := 0; s < steps; s++ {
				op := c.Pick(18, "op")
				switch op {
				case 0:
					p := pks[c.Pick(len(pks), "pk")]
					apks = append(apks, &apkO{bls.NewApk(p.p), p.tw.weighted()})
				case 1:
					if len(apks) == 0 {
						continue
					}
					a := apks[c.Pick(len(apks), "apk")]
					p := pks[c.Pick(len(pks), "pk")]
					if c.Bool("bytes") {
						c.Must(a.a.AggregateBytes(p.p.Marshal()), "AggregateBytes")
					} else {
						c.Must(a.a.Aggregate(p.p), "Aggregate")
					}
					a.tw = a.tw.add(p.tw.weighted())
					aggs++
				case 2:
					if len(apks) == 0 {
						continue
					}
					a := apks[c.Pick(len(apks), "apk")]
					apks = append(apks, &apkO{a.a.Copy(), a.tw})
				case 3:
					k := ks[c.Pick(len(ks), "k")]
					v, err := bls.Sign(k.sk, k.pk, msg)
					c.Must(err, "Sign")
					sigs = append(sigs, &sigO{v, k.tw.weighted().sign(msg)})
				case 4, 5, 6:
					if len(sigs) == 0 {
						continue
					}
					x, y := sigs[c.Pick(len(sigs), "x")], sigs[c.Pick(len(sigs), "y")]
					if c.Chance(4, "itself") {
						y = x
					}
					if x == y {
						c.Label("aggregated with itself")
					}
					p := add1(x.p, y.p)
					switch op {
					case 4:
						x.s.Aggregate(y.s)
					case 5:
						c.Must(x.s.AggregateBytes(y.s.Marshal()), "AggregateBytes")
					default:
						if neutral1(y.p) {
							x.s.Aggregate(y.s)
						} else {
							c.Must(x.s.AggregateBytes(y.s.Compress()), "AggregateBytes")
						}
					}
					x.p = p
					aggs++
				case 7:
					if len(sigs) == 0 {
						continue
					}
					x := sigs[c.Pick(len(sigs), "x")]
					sigs = append(sigs, &sigO{x.s.Copy(), x.p})
				case 8:
					k := ks[c.Pick(len(ks), "k")]
					u, err := bls.UnsafeSign(k.sk, msg)
					c.Must(err, "UnsafeSign")
					usigs = append(usigs, &usigO{u, k.tw.sign(msg)})
				case 9:
					if len(usigs) == 0 {
						continue
					}
					x, y := usigs[c.Pick(len(usigs), "x")], usigs[c.Pick(len(usigs), "y")]
					usigs = append(usigs, &usigO{bls.UnsafeAggregate(x.s, y.s), add1(x.p, y.p)})
					aggs++
				case 10:
					if len(usigs) < 2 {
						continue
					}
					n := c.Int(2, 4, "n")
					var l []*bls.UnsafeSignature
					p := sum1()
					for i := 0; i < n; i++ {
						x := usigs[c.Pick(len(usigs), "x")]
						l = append(l, x.s)
						p = add1(p, x.p)
					}
					u, err := bls.UnsafeBatch(l...)
					c.Must(err, "UnsafeBatch")
					usigs = append(usigs, &usigO{u, p})
					aggs++
				case 11:
					if len(usigs) == 0 || len(sigs) == 0 {
						continue
					}
					x, u, p := sigs[c.Pick(len(sigs), "x")], usigs[c.Pick(len(usigs), "u")], pks[c.Pick(len(pks), "pk")]
					c.Must(x.s.Add(p.p, u.s), "Add")
					x.p = add1(x.p, new(bn256.G1).ScalarMult(u.p, mod(p.tw.t())))
					aggs++
				case 12:
					x, y := pks[c.Pick(len(pks), "x")], pks[c.Pick(len(pks), "y")]
					r := x.p.Aggregate(y.p)
					tw := x.tw.add(y.tw)
					if len(tw.b.Marshal()) > 1 {
						pks = append(pks, &pkO{r, tw})
					}
					aggs++
				case 13:
					if len(sigs) == 0 || len(apks) == 0 {
						continue
					}
					_ = bls.Verify(apks[c.Pick(len(apks), "a")].a, msg, sigs[c.Pick(len(sigs), "s")].s)
				case 14:
					l := []*bls.PublicKey{}
					tw := scalarTwin(new(big.Int))
					for i := c.Int(1, 4, "n"); i > 0; i-- {
						p := pks[c.Pick(len(pks), "pk")]
						l = append(l, p.p)
						tw = tw.add(p.tw.weighted())
					}
					a, err := bls.AggregateApk(l)
					c.Must(err, "AggregateApk")
					apks = append(apks, &apkO{a, tw})
					aggs++
				case 15: // a key object is used for another key (or for a copy)
					x, y := pks[c.Pick(len(pks), "x")], pks[c.Pick(len(pks), "y")]
					if c.Chance(3, "new object") || isPool(ks, x.p) {
						x = &pkO{p: &bls.PublicKey{}}
						pks = append(pks, x)
					}
					if c.Bool("text") {
						txt, err := y.p.MarshalText()
						c.Must(err, "MarshalText")
						c.Must(x.p.UnmarshalText(txt), "UnmarshalText")
					} else {
						c.Must(x.p.Unmarshal(y.p.Marshal()), "Unmarshal")
					}
					x.tw = y.tw
				case 16: // the same for aggregated keys
					if len(apks) == 0 {
						continue
					}
					x, y := apks[c.Pick(len(apks), "x")], apks[c.Pick(len(apks), "y")]
					if len(y.tw.b.Marshal()) > 1 {
						c.Must(x.a.Unmarshal(y.a.Marshal()), "Unmarshal")
						x.tw = y.tw
					}
				case 17: // and signatures
					if len(sigs) == 0 {
						continue
					}
					x, y := sigs[c.Pick(len(sigs), "x")], sigs[c.Pick(len(sigs), "y")]
					switch {
					case neutral1(y.p):
						continue
					case c.Bool("compressed"):
						c.Must(x.s.Decompress(y.s.Compress()), "Decompress")
					default:
						c.Must(x.s.Unmarshal(y.s.Marshal()), "Unmarshal")
					}
					x.p = y.p
				}
				hist += fmt.Sprint(op, " ")
				for i, x := range pks {
					if !bytes.Equal(x.p.Marshal(), x.tw.b.Marshal()) {
						c.Fatalf("history %s: public key %d has another value", hist, i)
					}
				}
				for i, x := range apks {
					if !bytes.Equal(x.a.Marshal(), x.tw.b.Marshal()) {
						c.Fatalf("history %s: aggregated key %d has another value", hist, i)
					}
				}
				for i, x := range sigs {
					if !bytes.Equal(x.s.Marshal(), x.p.Marshal()) {
						c.Fatalf("history %s: signature %d has another value", hist, i)
					}
				}
				for i, x := range usigs {
					if !bytes.Equal(x.s.Marshal(), x.p.Marshal()) {
						c.Fatalf("history %s: unsafe signature %d has another value", hist, i)
					}
				}
			}
			if aggs >= 3 {
				c.NT(hist)
			}
			c.Note("operations %s", hist)
		})
}
