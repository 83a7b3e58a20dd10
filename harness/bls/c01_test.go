package bls

import (
	"fmt"
	"sync"
	"testing"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"verif/harness/hx"
)

func TestC01_SingleAndMulti(t *testing.T) {
	hx.Check(t, hx.N{Quick: 2200, Thorough: 60000},
		"1..9, rarely 70, signers (keys incl. tiny and order-1, sometimes the same twice) sign one drawn message; keys and signatures are aggregated by random routes, groupings and orders with encodings in between; non-trivial: two or more signers, counted per signer list and message length",
		func(c *hx.C) {
			n := c.Int(1, 4, "n")
			if c.Chance(4, "many") {
				n = c.Int(5, 9, "n many")
				if c.Chance(15, "very many") {
					n = c.Int(10, 70, "n many")
				}
			}
			ks := drawKeys(c, n, c.Chance(5, "repeat"))
			msg := c.Msg("msg")
			apk := buildApk(c, ks)
			ps := make([]part, n)
			for i, j := range c.Src.Perm(n) { // any order
				ps[i] = part{ks[j], msg}
			}
			sig := buildSig(c, ps)
			if err := bls.Verify(apk, msg, sig); err != nil {
				c.Fatalf("multi-signature of keys %son %s: %v", ids(ks), hx.Short(msg), err)
			}
			if c.Chance(3, "twice") {
				if err := bls.Verify(apk, msg, sig); err != nil {
					c.Fatalf("second verification of the same multi-signature: %v", err)
				}
			}
			if c.Chance(3, "batch of one") {
				if err := bls.VerifyBatch([]*bls.Apk{apk}, [][]byte{msg}, sig); err != nil {
					c.Fatalf("batch of one: %v", err)
				}
			}
			if n > 1 {
				c.NT(ids(ks), len(msg))
			}
			c.Note("keys %son %s", ids(ks), hx.Short(msg))
		})
}

func TestC01_Batch(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1400, Thorough: 40000},
		"batches of 1..6, rarely 20, different (often related) messages, each signed by 1..3 keys, one aggregated signature; non-trivial: two or more messages",
		func(c *hx.C) {
			n := c.Int(1, 4, "n")
			if c.Chance(5, "many") {
				n = c.Int(5, 6, "n many")
				if c.Chance(15, "very many") {
					n = c.Int(7, 20, "n many")
				}
			}
			ms := drawMsgs(c, n)
			var apks []*bls.Apk
			var ps []part
			desc := ""
			for i := 0; i < n; i++ {
				ks := drawKeys(c, c.Int(1, 3, "signers"), false)
				apks = append(apks, buildApk(c, ks))
				for _, k := range ks {
					ps = append(ps, part{k, ms[i]})
				}
				desc += fmt.Sprintf("[%son %s] ", ids(ks), hx.Short(ms[i]))
			}
			c.Src.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			sig := buildSig(c, ps)
			if err := bls.VerifyBatch(apks, ms, sig); err != nil {
				c.Fatalf("batch %s: %v", desc, err)
			}
			if c.Chance(3, "twice") {
				if err := bls.VerifyBatch(apks, ms, sig); err != nil {
					c.Fatalf("second verification of batch %s: %v", desc, err)
				}
			}
			if n > 1 {
				c.NT(desc)
			}
			c.Note("%s", desc)
		})
}

func TestC01_Unsafe(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1400, Thorough: 40000},
		"signatures without key factor: lone, several keys added up over one message, batches of 1..6, rarely 20, messages, via UnsafeBatch/UnsafeAggregate/VerifyUnsafe/VerifyUnsafeBatch/VerifyCompressed, the latter also with repeated messages when allowed; non-trivial: two or more signatures",
		func(c *hx.C) {
			n := c.Int(1, 6, "n")
			if c.Chance(80, "many") {
				n = c.Int(7, 20, "n")
			}
			kind := c.Pick(3, "kind")
			ks := drawKeys(c, n, c.Chance(5, "repeat"))
			var us []*bls.UnsafeSignature
			ms := drawMsgs(c, n)
			if kind == 0 {
				for i := range ms {
					ms[i] = ms[0]
				}
			}
			allowed := false
			if kind == 2 && n > 1 && c.Bool("repeated") {
				ms[c.Int(1, n-1, "rep")] = ms[0]
				allowed = true
			}
			for i, k := range ks {
				u, err := bls.UnsafeSign(k.sk, ms[i])
				c.Must(err, "UnsafeSign")
				us = append(us, usigVia(c, u))
			}
			var sum *bls.UnsafeSignature
			if c.Bool("UnsafeBatch") {
				var err error
				sum, err = bls.UnsafeBatch(us...)
				c.Must(err, "UnsafeBatch")
			} else {
				sum = us[0]
				for _, u := range us[1:] {
					if c.Bool("flip") {
						sum = bls.UnsafeAggregate(u, sum)
					} else {
						sum = bls.UnsafeAggregate(sum, u)
					}
				}
			}
			sum = usigVia(c, sum)
			var pks []*bls.PublicKey
			for _, k := range ks {
				pks = append(pks, pkVia(c, k.pk))
			}
			switch kind {
			case 0:
				agg := pks[0]
				for _, p := range pks[1:] {
					agg = agg.Aggregate(p)
				}
				agg = pkVia(c, agg)
				if err := bls.VerifyUnsafe(agg, ms[0], sum); err != nil {
					c.Fatalf("%d added-up signatures on %s: %v", n, hx.Short(ms[0]), err)
				}
			case 1:
				if err := bls.VerifyUnsafeBatch(pks, ms, sum); err != nil {
					c.Fatalf("unsafe batch of %d: %v", n, err)
				}
			case 2:
				var g []*bn256.G2
				for _, p := range pks {
					g = append(g, g2(p.Marshal()))
				}
				if err := bls.VerifyCompressed(g, ms, sum.Compress(), allowed || c.Bool("allow")); err != nil {
					c.Fatalf("compressed batch of %d (repeated message: %v): %v", n, allowed, err)
				}
			}
			c.Label(fmt.Sprint("kind", kind))
			if n > 1 {
				c.NT(kind, ids(ks), len(ms[0]))
			}
			c.Note("kind %d keys %s", kind, ids(ks))
		})
}

func TestC01_Concurrent(t *testing.T) {
	hx.Check(t, hx.N{Quick: 48, Thorough: 1500},
		"8 goroutines sign, aggregate and verify at the same time with shared keys; non-trivial: every case",
		func(c *hx.C) {
			keyPool(c)
			type job struct {
				ks   []*key
				msgs [][]byte
			}
			var jobs []job
			for i := 0; i < 8; i++ {
				jobs = append(jobs, job{drawKeys(c, c.Int(1, 3, "n"), false), drawMsgs(c, 2)})
			}
			errs := make([]error, len(jobs))
			var wg sync.WaitGroup
			for i := range jobs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					j := jobs[i]
					if e := hx.NoPanic(func() {
						var pks []*bls.PublicKey
						for _, k := range j.ks {
							pks = append(pks, k.pk)
						}
						apk, err := bls.AggregateApk(pks)
						if err != nil {
							errs[i] = err
							return
						}
						var all *bls.Signature
						for _, m := range j.msgs {
							var s *bls.Signature
							for x, k := range j.ks {
								o, err := bls.Sign(k.sk, k.pk, m)
								if err != nil {
									errs[i] = err
									return
								}
								if x == 0 {
									s = o
								} else {
									s.Aggregate(o)
								}
							}
							if err := bls.Verify(apk, m, s); err != nil {
								errs[i] = err
								return
							}
							if all == nil {
								all = s
							} else {
								all.Aggregate(s)
							}
						}
						errs[i] = bls.VerifyBatch([]*bls.Apk{apk, apk.Copy()}, j.msgs, all)
					}); e != nil {
						errs[i] = e
					}
				}(i)
			}
			wg.Wait()
			for i, err := range errs {
				if err != nil {
					c.Fatalf("goroutine %d: %v", i, err)
				}
			}
			c.NT(c.Src.Uint64())
			c.Note("8 goroutines, first signs %s", hx.Short(jobs[0].msgs[0]))
		})
}

// an honest claim is accepted whatever was verified before it
func TestC01_AfterRefusal(t *testing.T) {
	hx.Check(t, hx.N{Quick: 400, Thorough: 20000},
		"an honest claim (1..3 messages, 1..3 signers each, with or without key factors) verified after each of 1..2 altered versions of it, by every fitting verifier: accepted each time; non-trivial: all",
		func(c *hx.C) {
			weighted := c.Bool("weighted")
			gs := drawGroups(c, 3)
			sig := honestSig(gs, weighted)
			var log []string
			for k := c.Int(1, 2, "before"); k > 0; k-- {
				as, asig := copyGroups(gs), sig
				log = append(log, alter(c, &as, &asig, weighted))
				verdicts(c, as, asig, weighted)
				for name, got := range verdicts(c, gs, sig, weighted) {
					if !got && distinctMsgs(gs) {
						c.Fatalf("%s rejects an honest claim of %d messages after altered ones: %v", name, len(gs), log)
					}
				}
			}
			c.NT(len(gs), weighted, fmt.Sprint(log), c.Src.Uint64())
			c.Note("%d messages, with factor: %v, after %v", len(gs), weighted, log)
		})
}
