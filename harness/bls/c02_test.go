package bls

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"verif/harness/hx"
)

// group is a message together with the keys named for it.
type group struct {
	tws []twin // member keys
	msg []byte
}

func (g group) apk() twin { return apkOf(g.tws...) }

// accepts is the model's verdict on a batch: the one signature the keys can make.
func accepts(gs []group, sig *bn256.G1, weighted bool) bool {
	var l []*bn256.G1
	for _, g := range gs {
		if weighted {
			l = append(l, g.apk().sign(g.msg))
		} else {
			for _, t := range g.tws {
				l = append(l, t.sign(g.msg))
			}
		}
	}
	return same1(sum1(l...), sig)
}

// realApk builds the aggregated key through the API from member encodings.
func realApk(c *hx.C, tws []twin) *bls.Apk {
	var l []*bls.PublicKey
	for _, t := range tws {
		pk, err := bls.UnmarshalPk(t.b.Marshal())
		c.Must(err, "UnmarshalPk")
		l = append(l, pk)
	}
	if c.Bool("one by one") {
		a := bls.NewApk(l[0])
		for _, p := range l[1:] {
			c.Must(a.Aggregate(p), "Aggregate")
		}
		return a
	}
	a, err := bls.AggregateApk(l)
	c.Must(err, "AggregateApk")
	return a
}

func copyGroups(gs []group) []group {
	var out []group
	for _, g := range gs {
		out = append(out, group{append([]twin(nil), g.tws...), append([]byte(nil), g.msg...)})
	}
	return out
}

// drawGroups draws 1..maxG groups of 1..3 signers over different messages.
func drawGroups(c *hx.C, maxG int) []group {
	n := c.Int(1, maxG, "groups")
	most := 3
	switch {
	case c.Chance(20, "many messages"):
		n, most = c.Int(maxG+1, 40, "groups"), 1
	case c.Chance(20, "many signers"):
		n, most = 1, 40
	}
	ms := drawMsgs(c, n)
	var gs []group
	for i := 0; i < n; i++ {
		ks := drawKeys(c, c.Int(1, most, "signers"), false)
		g := group{msg: ms[i]}
		for _, k := range ks {
			g.tws = append(g.tws, k.tw)
		}
		gs = append(gs, g)
	}
	return gs
}

// honestSig is the signature point everybody named really made.
func honestSig(gs []group, weighted bool) *bn256.G1 {
	var l []*bn256.G1
	for _, g := range gs {
		if weighted {
			l = append(l, g.apk().sign(g.msg))
		} else {
			for _, t := range g.tws {
				l = append(l, t.sign(g.msg))
			}
		}
	}
	return sum1(l...)
}

// alter changes claim or signature in one way; it returns what it did.
func alter(c *hx.C, gs *[]group, sig **bn256.G1, weighted bool) string {
	g := &(*gs)[hx.Choose(c, "which", c.Pick(len(*gs), "group"), len(*gs)-1)]
	other := drawKeys(c, 1, false)[0].tw
	switch c.Pick(15, "alter") {
	case 0, 1, 2:
		g.msg = c.AlterMsg(g.msg, "msg")
		return "message"
	case 3:
		g.tws[c.Pick(len(g.tws), "signer")] = other
		return "foreign signer"
	case 4:
		g.tws = append(g.tws, other)
		return "extra key"
	case 5:
		g.tws = append(g.tws, g.tws[c.Pick(len(g.tws), "signer")])
		return "key named twice"
	case 6:
		if len(g.tws) > 1 {
			g.tws = g.tws[:len(g.tws)-1]
			return "key missing"
		}
		*sig = add1(*sig, other.weighted().sign(g.msg))
		return "extra signature"
	case 7:
		*sig = add1(*sig, new(bn256.G1).Neg(g.tws[0].weighted().sign(g.msg)))
		return "signature missing"
	case 8:
		*sig = add1(*sig, g.tws[0].weighted().sign(g.msg))
		return "signature counted twice"
	case 9:
		*sig = new(bn256.G1).Neg(*sig)
		return "negated"
	case 10:
		*sig = new(bn256.G1).ScalarMult(*sig, big.NewInt(int64(c.Int(2, 9, "k"))))
		return "multiplied"
	case 11:
		*sig = new(bn256.G1).ScalarBaseMult(new(big.Int))
		return "neutral element"
	case 12:
		*sig = add1(*sig, new(bn256.G1).ScalarBaseMult(big.NewInt(1)))
		return "shifted"
	case 13:
		if len(*gs) > 1 {
			i := c.Pick(len(*gs)-1, "swap")
			a, b := &(*gs)[i], &(*gs)[i+1]
			a.msg, b.msg = b.msg, a.msg
			return "messages swapped"
		}
		*sig = honestSig(*gs, !weighted)
		return "factor left out or put in"
	default:
		if len(*gs) > 1 {
			i := c.Pick(len(*gs)-1, "swap")
			a, b := &(*gs)[i], &(*gs)[i+1]
			x, y := c.Pick(len(a.tws), "x"), c.Pick(len(b.tws), "y")
			a.tws[x], b.tws[y] = b.tws[y], a.tws[x]
			return "signers swapped"
		}
		*sig = honestSig(*gs, !weighted)
		return "factor left out or put in"
	}
}

func distinctMsgs(gs []group) bool {
	m := map[string]bool{}
	for _, g := range gs {
		if m[string(g.msg)] {
			return false
		}
		m[string(g.msg)] = true
	}
	return true
}

// verdicts asks every verifier the claim fits.
func verdicts(c *hx.C, gs []group, sig *bn256.G1, weighted bool) map[string]bool {
	out := map[string]bool{}
	var ms [][]byte
	for _, g := range gs {
		ms = append(ms, g.msg)
	}
	if weighted {
		var apks []*bls.Apk
		for _, g := range gs {
			apks = append(apks, realApk(c, g.tws))
		}
		s := sigFrom(c, sig)
		state := func() string {
			t := fmt.Sprintf("%x", s.Marshal())
			for i := range apks {
				t += fmt.Sprintf(" %p %x %x", apks[i], apks[i].Marshal(), ms[i])
			}
			return t
		}
		before := state()
		out["VerifyBatch"] = bls.VerifyBatch(apks, ms, s) == nil
		if len(gs) == 1 {
			out["Verify"] = bls.Verify(apks[0], ms[0], s) == nil
		}
		if state() != before {
			c.Fatalf("verifying changed what it was given: %s before, %s after", before, state())
		}
		return out
	}
	var pks []*bls.PublicKey
	var raw []*bn256.G2
	var flat [][]byte
	for _, g := range gs {
		a := g.tws[0]
		for _, t := range g.tws[1:] {
			a = a.add(t)
		}
		if len(a.b.Marshal()) == 1 { // the members cancel: no key anyone can decode
			return out
		}
		pk, err := bls.UnmarshalPk(a.b.Marshal())
		c.Must(err, "UnmarshalPk")
		pks = append(pks, pk)
		raw = append(raw, a.b)
		flat = append(flat, g.msg)
	}
	s := usigFrom(c, sig)
	state := func() string {
		t := fmt.Sprintf("%x", s.Marshal())
		for i := range pks {
			t += fmt.Sprintf(" %p %x %x %x", pks[i], pks[i].Marshal(), raw[i].Marshal(), flat[i])
		}
		return t
	}
	before := state()
	defer func() {
		if state() != before {
			c.Fatalf("verifying changed what it was given: %s before, %s after", before, state())
		}
	}()
	out["VerifyUnsafeBatch"] = bls.VerifyUnsafeBatch(pks, flat, s) == nil
	if !same1(sig, new(bn256.G1).ScalarBaseMult(new(big.Int))) {
		out["VerifyCompressed"] = bls.VerifyCompressed(raw, flat, sig.Compress(), false) == nil
	}
	if len(gs) == 1 {
		out["VerifyUnsafe"] = bls.VerifyUnsafe(pks[0], ms[0], s) == nil
	}
	return out
}

func TestC02_AlteredClaims(t *testing.T) {
	hx.Check(t, hx.N{Quick: 2600, Thorough: 80000},
		"an honest claim (1..4 messages, 1..3 signers each, rarely 40, with or without key factors) with 1..2 random alterations of messages, key sets, pairing or signature; every fitting verifier must agree with a model that knows each key's only valid signature; non-trivial: the model rejects",
		func(c *hx.C) {
			weighted := c.Bool("weighted")
			gs := drawGroups(c, 4)
			sig := honestSig(gs, weighted)
			if c.Chance(4, "before") { // the honest claim was seen before
				for name, got := range verdicts(c, gs, sig, weighted) {
					if !got {
						c.Label("rejected although valid: " + name)
					}
				}
			}
			gs = copyGroups(gs)
			did := alter(c, &gs, &sig, weighted)
			if c.Chance(4, "more") {
				did += " + " + alter(c, &gs, &sig, weighted)
			}
			want := accepts(gs, sig, weighted) && distinctMsgs(gs)
			for name, got := range verdicts(c, gs, sig, weighted) {
				if got && !want {
					c.Fatalf("%s accepts after: %s (%d messages)", name, did, len(gs))
				}
				if !got && want {
					c.Label("rejected although valid")
				}
			}
			c.Label(did)
			if !want {
				c.NT(did, len(gs), weighted, c.Src.Uint64())
			}
			c.Note("%s, %d messages, with factor: %v", did, len(gs), weighted)
		})
}

// Every message of a batch needs its signature, wherever it stands.
func TestC02_PartialBatches(t *testing.T) {
	hx.Check(t, hx.N{Quick: 700, Thorough: 30000},
		"batches of 2..20 messages (rarely 40) with one signer each, signed by some of them only: all but one (the last, the first, any), the first k, all from k on, every other; or one of them signed another message; the verifiers must reject; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(2, 20, "n")
			if c.Chance(20, "more") {
				n = c.Int(21, 40, "n")
			}
			ks := drawKeys(c, n, false)
			ms := drawMsgs(c, n)
			missing := make([]bool, n)
			at := hx.Choose(c, "at", c.Pick(n, "at"), n-1, 0, n/2, n-2)
			what := fmt.Sprintf("without signature %d of %d", at, n)
			switch c.Pick(6, "which") {
			default:
				missing[at] = true
			case 3:
				for i := at; i < n; i++ {
					missing[i] = true
				}
				what = fmt.Sprintf("without the signatures from %d of %d", at, n)
			case 4:
				for i := 0; i <= at; i++ {
					missing[i] = true
				}
				what = fmt.Sprintf("without the signatures up to %d of %d", at, n)
			case 5:
				k := c.Int(2, 4, "every")
				for i := range missing {
					missing[i] = i%k == at%k
				}
				missing[at] = true
				what = fmt.Sprintf("without every %dth signature of %d", k, n)
			}
			wrong := c.Chance(4, "another message")
			zero := new(bn256.G1).ScalarBaseMult(new(big.Int))
			w, u := zero, zero
			var apks []*bls.Apk
			var pks []*bls.PublicKey
			var raw []*bn256.G2
			for i, k := range ks {
				apks = append(apks, bls.NewApk(k.pk))
				pks = append(pks, k.pk)
				raw = append(raw, k.tw.b)
				m := ms[i]
				if missing[i] {
					if !wrong {
						continue
					}
					m = c.AlterMsg(m, "other")
				}
				w = add1(w, k.tw.weighted().sign(m))
				u = add1(u, k.tw.sign(m))
			}
			if bls.VerifyBatch(apks, ms, sigFrom(c, w)) == nil {
				c.Fatalf("VerifyBatch accepts %s (another message %v)", what, wrong)
			}
			if c.Bool("unsafe") {
				if bls.VerifyUnsafeBatch(pks, ms, usigFrom(c, u)) == nil {
					c.Fatalf("VerifyUnsafeBatch accepts %s (another message %v)", what, wrong)
				}
			} else if !same1(u, zero) && bls.VerifyCompressed(raw, ms, u.Compress(), c.Bool("allow")) == nil {
				c.Fatalf("VerifyCompressed accepts %s (another message %v)", what, wrong)
			}
			c.NT(what, wrong, c.Src.Uint64())
			c.Note("%s, another message %v", what, wrong)
		})
}

func TestC02_LongMessages(t *testing.T) {
	hx.Check(t, hx.N{Quick: 4000, Thorough: 200000},
		"a message of 600 bytes to 128 KiB and one that differs from it in one byte, in where it ends, by an inserted or missing byte or by two exchanged blocks, mostly at or next to a multiple of a power of two; no signature is valid for both: those made are different and (one case in twelve) the verifiers reject; non-trivial: all",
		func(c *hx.C) {
			a, b, what := c.LongPair("msg")
			k := drawKeys(c, 1, false)[0]
			s, err := bls.UnsafeSign(k.sk, a)
			c.Must(err, "UnsafeSign")
			o, err := bls.UnsafeSign(k.sk, b)
			c.Must(err, "UnsafeSign")
			if bytes.Equal(s.Marshal(), o.Marshal()) {
				c.Fatalf("%s: both messages have the same signature", what)
			}
			if c.Chance(12, "verify") {
				if bls.VerifyUnsafe(k.pk, b, s) == nil {
					c.Fatalf("%s: VerifyUnsafe accepts the signature of the other message", what)
				}
				w, err := bls.Sign(k.sk, k.pk, a)
				c.Must(err, "Sign")
				if bls.VerifyBatch([]*bls.Apk{bls.NewApk(k.pk)}, [][]byte{b}, w) == nil {
					c.Fatalf("%s: VerifyBatch accepts the signature of the other message", what)
				}
			}
			c.NT(what)
			c.Note("%s", what)
		})
}

func TestC02_RogueKeys(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1200, Thorough: 40000},
		"an attacker who knows only a registers keys derived from honest keys so that raw or guessed-weight sums cancel them, and signs with what it knows; non-trivial: every case, counted per kind and number of victims",
		func(c *hx.C) {
			nv := c.Int(1, 3, "victims")
			vs := drawKeys(c, nv, false)
			a := new(big.Int).SetBytes(c.Bytes(32))
			if a.Sign() == 0 {
				a.SetInt64(5)
			}
			A := scalarTwin(a)
			var tws []twin
			sum := scalarTwin(new(big.Int))
			wsum := scalarTwin(new(big.Int))
			for _, v := range vs {
				tws = append(tws, v.tw)
				sum = sum.add(v.tw)
				wsum = wsum.add(v.tw.weighted())
			}
			msg := c.Msg("msg")
			one := big.NewInt(1)
			kind := c.Pick(4, "kind")
			var rogue twin
			factor := one
			switch kind {
			case 0: // cancels the raw sum
				rogue = A.add(sum.neg())
			case 1: // cancels the weighted sum if the rogue's own factor were 1
				rogue = A.add(wsum.neg())
			case 2: // cancels it if the factor of the rogue were that of A
				inv := new(big.Int).ModInverse(mod(A.t()), bn256.Order)
				rogue = A.add(wsum.mul(inv).neg())
				factor = A.t()
			case 3: // cancels it if the factor of the rogue were that of the first victim
				t := vs[0].tw.t()
				inv := new(big.Int).ModInverse(mod(t), bn256.Order)
				rogue = A.add(wsum.mul(inv).neg())
				factor = t
			}
			pos := c.Int(0, nv, "pos")
			tws = append(tws[:pos:pos], append([]twin{rogue}, tws[pos:]...)...)
			sigs := map[string]*bn256.G1{
				"plain":                   A.sign(msg),
				"with the assumed factor": A.mul(factor).sign(msg),
				"with the rogue's factor": A.mul(rogue.t()).sign(msg),
				"with own factor":         A.mul(A.t()).sign(msg),
			}
			g := group{tws, msg}
			apk := realApk(c, tws)
			for name, s := range sigs {
				if accepts([]group{g}, s, true) {
					continue
				}
				if bls.Verify(apk, msg, sigFrom(c, s)) == nil {
					c.Fatalf("rogue key (kind %d, %d victims): signature %s by the attacker alone is accepted", kind, nv, name)
				}
			}
			if pos == 0 || c.Bool("batch") {
				s := sigs["with the assumed factor"]
				if !accepts([]group{g}, s, true) && bls.VerifyBatch([]*bls.Apk{apk}, [][]byte{msg}, sigFrom(c, s)) == nil {
					c.Fatalf("rogue key (kind %d): batch accepted", kind)
				}
			}
			c.NT(kind, nv, pos, c.Src.Uint64())
			c.Note("kind %d, %d victims, rogue at %d", kind, nv, pos)
		})
}

func TestC02_BatchShape(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1500, Thorough: 40000},
		"batches with too few or too many keys or messages, empty ones, and batches naming one message twice (next to each other or not), each with the signature that would fit; non-trivial: every case, counted per shape",
		func(c *hx.C) {
			kind := c.Pick(4, "kind")
			n := c.Int(1, 5, "n")
			if c.Chance(12, "large") {
				n = c.Int(6, 40, "n")
			}
			ks := drawKeys(c, n, false)
			ms := drawMsgs(c, n)
			desc := ""
			var apks []*bls.Apk
			var pks []*bls.PublicKey
			var raw []*bn256.G2
			for _, k := range ks {
				apks = append(apks, bls.NewApk(k.pk))
				pks = append(pks, k.pk)
				raw = append(raw, k.tw.b)
			}
			zero := new(bn256.G1).ScalarBaseMult(new(big.Int))
			switch kind {
			case 0: // more keys than messages
				m := c.Pick(n, "m")
				ms = ms[:m]
				desc = fmt.Sprintf("%d keys, %d messages", n, m)
			case 1: // more messages than keys
				m := c.Pick(n, "m")
				apks, pks, raw, ks = apks[:m], pks[:m], raw[:m], ks[:m]
				desc = fmt.Sprintf("%d keys, %d messages", m, n)
			case 2: // empty
				ms, apks, pks, raw, ks = nil, nil, nil, nil, nil
				if c.Bool("not nil") {
					ms = [][]byte{}
				}
				desc = "empty"
			case 3: // repeated message
				if n == 1 {
					return
				}
				i := c.Int(1, n-1, "i")
				j := c.Pick(i, "j")
				ms[i] = append([]byte(nil), ms[j]...)
				desc = fmt.Sprintf("message %d repeats %d of %d", i, j, n)
			}
			m := min(len(ks), len(ms))
			w, u := zero, zero
			for i := 0; i < m; i++ {
				w = add1(w, ks[i].tw.weighted().sign(ms[i]))
				u = add1(u, ks[i].tw.sign(ms[i]))
			}
			if bls.VerifyBatch(apks, ms, sigFrom(c, w)) == nil {
				c.Fatalf("VerifyBatch accepts: %s", desc)
			}
			if bls.VerifyUnsafeBatch(pks, ms, usigFrom(c, u)) == nil {
				c.Fatalf("VerifyUnsafeBatch accepts: %s", desc)
			}
			if !same1(u, zero) {
				if bls.VerifyCompressed(raw, ms, u.Compress(), false) == nil {
					c.Fatalf("VerifyCompressed accepts: %s", desc)
				}
				if kind < 3 && bls.VerifyCompressed(raw, ms, u.Compress(), true) == nil {
					c.Fatalf("VerifyCompressed with repeated messages allowed accepts: %s", desc)
				}
			} else if kind == 2 {
				s := ks0(c).tw.sign([]byte("x")).Compress()
				if bls.VerifyCompressed(raw, ms, s, c.Bool("allow")) == nil {
					c.Fatalf("VerifyCompressed accepts an empty batch")
				}
			}
			c.Label(fmt.Sprint("kind", kind))
			c.NT(desc)
			c.Note("%s", desc)
		})
}

func ks0(c *hx.C) *key { return keyPool(c)[0] }

// A signature on one message must not give one on another. The message is
// hashed to a multiple of the generator that everyone can compute, which
// does give it: a known finding. Other ways to transfer signatures that need
// no such knowledge have to fail.
func TestC02_NoTransfer(t *testing.T) {
	hx.Check(t, hx.N{Quick: 800, Thorough: 20000},
		"signatures on drawn messages are recombined (sums, differences, small multiples, ratio of message hashes) into a candidate for a new message; non-trivial: every case",
		func(c *hx.C) {
			n := c.Int(1, 3, "seen")
			ms := drawMsgs(c, n+1)
			target := ms[n]
			k := drawKeys(c, 1, false)[0]
			var seen []*bn256.G1
			for _, m := range ms[:n] {
				s, err := bls.Sign(k.sk, k.pk, m)
				c.Must(err, "Sign")
				seen = append(seen, g1(s.Marshal()))
			}
			apk := bls.NewApk(k.pk)
			cand := sum1()
			for _, s := range seen {
				co := big.NewInt(int64(c.Int(-3, 3, "coeff")))
				cand = add1(cand, new(bn256.G1).ScalarMult(s, mod(co)))
			}
			if bls.Verify(apk, target, sigFrom(c, cand)) == nil && !accepts([]group{{[]twin{k.tw}, target}}, cand, true) {
				c.Fatalf("a small combination of %d signatures on other messages is accepted for %s", n, hx.Short(target))
			}
			r := new(big.Int).ModInverse(mod(hashInt(ms[0])), bn256.Order)
			r.Mul(r, hashInt(target))
			forged := new(bn256.G1).ScalarMult(seen[0], mod(r))
			if bls.Verify(apk, target, sigFrom(c, forged)) == nil {
				c.Known("C02-known-log-hash", "signature on %s multiplied by the ratio of the message hashes is a valid signature on %s",
					hx.Short(ms[0]), hx.Short(target))
			}
			c.NT(n, c.Src.Uint64())
			c.Note("%d signatures seen, target %s", n, hx.Short(target))
		})
}
