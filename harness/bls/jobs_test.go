package bls

import (
	"bytes"
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"testing"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"verif/harness/hx"
)

func TestC01_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 200, Thorough: 8000}) }
func TestC02_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 200, Thorough: 8000}) }
func TestC03_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 300, Thorough: 12000}) }
func TestC04_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 200, Thorough: 8000}) }
func TestC28_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 200, Thorough: 8000}) }
func TestC29_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 200, Thorough: 8000}) }

func TestC29_Mixed(t *testing.T) { hx.Mixed(t, hx.N{Quick: 16, Thorough: 800}) }

func rb(r *mrand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

func rtwin(r *mrand.Rand) twin {
	return scalarTwin(new(big.Int).Add(mod(new(big.Int).SetBytes(rb(r, 40))), big.NewInt(1)))
}

// keysFor makes n pairs with the code under test.
func keysFor(n int, seeds []uint64) (pks []*bls.PublicKey, sks []*bls.SecretKey) {
	for i := 0; i < n; i++ {
		pk, sk, err := bls.GenKeyPair(hx.NewStream("job key", seeds[i]))
		if err != nil {
			panic(err)
		}
		pks, sks = append(pks, pk), append(sks, sk)
	}
	return
}

func text(o any) (string, []string) { return o.(string), nil }

func init() {
	hx.Jobs(
		hx.Job{Name: "sign and verify", Props: "C01", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			n := 1 + r.IntN(3)
			seeds := []uint64{r.Uint64(), r.Uint64(), r.Uint64()}
			msgs := [][]byte{rb(r, r.IntN(100)), rb(r, 101+r.IntN(10))}
			return func() any {
				pks, sks := keysFor(n, seeds)
				apk, err := bls.AggregateApk(pks)
				if err != nil {
					return fmt.Sprint("AggregateApk: ", err)
				}
				var all *bls.Signature
				for _, m := range msgs {
					var s *bls.Signature
					for i := range pks {
						o, err := bls.Sign(sks[i], pks[i], m)
						if err != nil {
							return fmt.Sprint("Sign: ", err)
						}
						if s == nil {
							s = o
						} else {
							s.Aggregate(o)
						}
					}
					if err := bls.Verify(apk, m, s); err != nil {
						return fmt.Sprint("Verify: ", err)
					}
					if all == nil {
						all = s
					} else {
						all.Aggregate(s)
					}
				}
				if err := bls.VerifyBatch([]*bls.Apk{apk, apk.Copy()}, msgs, all); err != nil {
					return fmt.Sprint("VerifyBatch: ", err)
				}
				u, err := bls.UnsafeSign(sks[0], msgs[0])
				if err != nil || bls.VerifyUnsafe(pks[0], msgs[0], u) != nil {
					return "VerifyUnsafe"
				}
				return ""
			}, text
		}},
		hx.Job{Name: "sign", Props: "C04", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			k := newKey(0, hx.NewStream("job key", r.Uint64()))
			msg := rb(r, r.IntN(100))
			want, wantW := k.tw.sign(msg).Marshal(), k.tw.weighted().sign(msg).Marshal()
			return func() any {
				u, err := bls.UnsafeSign(k.sk, msg)
				if err != nil || !bytes.Equal(u.Marshal(), want) {
					return fmt.Sprint("another signature without factor: ", err)
				}
				s, err := bls.Sign(k.sk, k.pk, msg)
				if err != nil || !bytes.Equal(s.Marshal(), wantW) {
					return fmt.Sprint("another signature: ", err)
				}
				return ""
			}, text
		}},
		hx.Job{Name: "verify", Props: "C02", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			tw := rtwin(r)
			msg := rb(r, r.IntN(100))
			w := tw.weighted()
			sig := w.sign(msg)
			ok := r.IntN(2) == 0
			if !ok {
				switch r.IntN(3) {
				case 0:
					msg = append(msg, 1)
				case 1:
					sig = tw.sign(msg) // not weighted
				default:
					sig = rtwin(r).weighted().sign(msg)
				}
			}
			pkb, sb := tw.b.Marshal(), sig.Marshal()
			return func() any {
					pk, err := bls.UnmarshalPk(pkb)
					if err != nil {
						return err
					}
					s, err := bls.UnmarshalSignature(sb)
					if err != nil {
						return err
					}
					return bls.Verify(bls.NewApk(pk), msg, s) == nil
				}, func(o any) (string, []string) {
					if got, is := o.(bool); !is || got != ok {
						return fmt.Sprintf("verdict %v", o), nil
					}
					return "", nil
				}
		}},
		hx.Job{Name: "codec", Props: "C03 C28", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			tw := rtwin(r)
			pkb, sb := tw.b.Marshal(), tw.a.Marshal()
			bad := append([]byte{}, pkb...)
			bad[len(bad)-1-r.IntN(30)] ^= 1
			comp := tw.a.Compress()
			return func() any {
				pk, err := bls.UnmarshalPk(pkb)
				if err != nil || !bytes.Equal(pk.Marshal(), pkb) {
					return fmt.Sprint("public key: ", err)
				}
				txt, err := pk.MarshalText()
				q := new(bls.PublicKey)
				if err != nil || q.UnmarshalText(txt) != nil || !bytes.Equal(q.Marshal(), pkb) {
					return fmt.Sprint("text: ", err)
				}
				apk, err := bls.UnmarshalApk(pkb)
				if err != nil || !bytes.Equal(apk.Marshal(), pkb) {
					return fmt.Sprint("aggregated key: ", err)
				}
				s, err := bls.UnmarshalSignature(sb)
				if err != nil || !bytes.Equal(s.Marshal(), sb) || !bytes.Equal(s.Compress(), comp) {
					return fmt.Sprint("signature: ", err)
				}
				d := new(bls.Signature)
				if err := d.Decompress(comp); err != nil || !bytes.Equal(d.Marshal(), sb) {
					return fmt.Sprint("compressed: ", err)
				}
				if _, err := bls.UnmarshalPk(bad); err == nil {
					return "no key, accepted"
				}
				if _, err := bls.UnmarshalApk(bad); err == nil {
					return "no aggregated key, accepted"
				}
				return ""
			}, text
		}},
		hx.Job{Name: "aggregate", Props: "C04", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			var ts []twin
			var pkb [][]byte
			n := 1 + r.IntN(3)
			for i := 0; i < n; i++ {
				ts = append(ts, rtwin(r))
				pkb = append(pkb, ts[i].b.Marshal())
			}
			wantApk := apkOf(ts...).b.Marshal()
			msg := rb(r, r.IntN(60))
			var parts [][]byte
			sum := ts[0].weighted().sign(msg)
			parts = append(parts, ts[0].sign(msg).Marshal())
			for _, t := range ts[1:] {
				sum = sum1(sum, t.weighted().sign(msg))
				parts = append(parts, t.sign(msg).Marshal())
			}
			first := ts[0].weighted().sign(msg).Marshal()
			wantSig := sum.Marshal()
			return func() any {
				var pks []*bls.PublicKey
				for _, b := range pkb {
					pk, err := bls.UnmarshalPk(b)
					if err != nil {
						return err.Error()
					}
					pks = append(pks, pk)
				}
				apk, err := bls.AggregateApk(pks)
				if err != nil || !bytes.Equal(apk.Marshal(), wantApk) {
					return fmt.Sprint("AggregateApk: ", err)
				}
				s, err := bls.UnmarshalSignature(first)
				if err != nil {
					return err.Error()
				}
				for i := 1; i < n; i++ {
					u := new(bls.UnsafeSignature)
					if err := u.Unmarshal(parts[i]); err != nil {
						return err.Error()
					}
					if err := s.Add(pks[i], u); err != nil {
						return err.Error()
					}
				}
				if !bytes.Equal(s.Marshal(), wantSig) {
					return "another aggregated signature"
				}
				for i := range pks {
					if !bytes.Equal(pks[i].Marshal(), pkb[i]) {
						return "a key was changed"
					}
				}
				return ""
			}, text
		}},
	)
	_ = bn256.Order
}
