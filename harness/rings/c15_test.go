package rings

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
	"verif/harness/hx"
	"verif/harness/ref"
)

func TestC15_DualKeyHistories(t *testing.T) {
	hx.Check(t, hx.N{Quick: 5000, Thorough: 300000},
		"1..2 signers sharing decoys; each sets keys and message (also more than once), adds 0..12 decoys singly or in lists (repeated, neutral, equal to the signer's), subtracts commitments from the ring at any point, then signs, and uses the message's memory and the signing object for something else; the ring is compared with a model, verified directly and after encoding with and without keys, and the caller's decoys are compared before and after; non-trivial: at least one decoy or one subtraction",
		func(c *hx.C) {
			type signer struct {
				d       *mlsag.DualKey
				secrets [2]S
				msg     []byte
				decoys  [][]P
			}
			n := c.Int(1, 2, "signers")
			var gs []*signer
			for i := 0; i < n; i++ {
				gs = append(gs, &signer{d: mlsag.NewDualKey()})
			}
			type owned struct {
				p    mlsag.PubKeys
				keys []P
			}
			var mine []*owned // decoys the caller holds
			var log []string
			newDecoy := func() *owned {
				if len(mine) > 0 && c.Chance(5, "again") {
					return mine[c.Pick(len(mine), "which")]
				}
				keys := drawMember(c, 2)
				o := &owned{pubKeys(keys), keys}
				mine = append(mine, o)
				return o
			}
			set := func(g *signer, k int) {
				x := drawSecret(c, "secret")
				var p P
				if k == 0 {
					p = g.d.SetPrimaryKey(x)
				} else {
					p = g.d.SetCommToZero(x)
				}
				if !ref.PEq(p, ref.PMul(ref.Base(), x)) {
					c.Fatalf("%v: wrong public key", log)
				}
				g.secrets[k] = x
			}
			add := func(i int, g *signer) {
				if c.Bool("list") {
					var l []mlsag.PubKeys
					for k := c.Pick(6, "decoys"); k > 0; k-- {
						o := newDecoy()
						l = append(l, o.p)
						g.decoys = append(g.decoys, append([]P(nil), o.keys...))
					}
					g.d.AddDecoys(l)
					log = append(log, fmt.Sprint(i, ":decoys", len(l)))
				} else {
					o := newDecoy()
					g.d.AddDecoy(o.p)
					g.decoys = append(g.decoys, append([]P(nil), o.keys...))
					log = append(log, fmt.Sprint(i, ":decoy"))
				}
			}
			subs := 0
			var bufs [][]byte
			for k := c.Int(0, 8, "ops"); k > 0; k-- {
				i := c.Pick(n, "signer")
				g := gs[i]
				switch c.Pick(6, "op") {
				case 0:
					set(g, c.Pick(2, "which"))
					log = append(log, fmt.Sprint(i, ":key"))
				case 1:
					g.msg = c.Msg("msg")
					buf := append([]byte(nil), g.msg...)
					g.d.SetMsg(buf)
					if !bytes.Equal(buf, g.msg) {
						c.Fatalf("%v: the caller's message was modified", log)
					}
					bufs = append(bufs, buf)
					if c.Bool("message reused") { // the memory is the caller's
						for q := range buf {
							buf[q] ^= 0x5a
						}
					}
					log = append(log, fmt.Sprint(i, ":msg"))
				case 2:
					p := hx.Choose(c, "sub", rndP(c), ref.Base(), ref.Zero())
					if d := len(g.decoys); d > 0 && c.Bool("related") {
						// related to the keys it is subtracted from
						a := c.Pick(d, "of")
						p = g.decoys[a][1]
						if b := hx.Choose(c, "and", a+1, a-1, c.Pick(d, "other"), -1); b >= 0 && b < d {
							p = ref.PSub(p, g.decoys[b][1])
						}
					}
					g.d.SubCommToZero(p)
					for j := range g.decoys {
						g.decoys[j][1] = ref.PSub(g.decoys[j][1], p)
					}
					subs++
					log = append(log, fmt.Sprint(i, ":sub"))
				default:
					add(i, g)
				}
			}
			for i, g := range gs {
				for k := range g.secrets {
					if ref.IsZero(g.secrets[k]) {
						set(g, k)
					}
				}
				msg := append([]byte(nil), g.msg...)
				if n := g.d.LenMembers(); n != len(g.decoys) {
					c.Fatalf("%v: %d members instead of the %d decoys", log, n, len(g.decoys))
				}
				sig, im, err := g.d.Prove()
				if err != nil {
					c.Fatalf("%v: signer %d of a ring of %d: %v", log, i, len(g.decoys)+1, err)
				}
				if !bytes.Equal(sig.Msg, msg) {
					c.Fatalf("%v: message is %s instead of %s", log, hx.Short(sig.Msg), hx.Short(msg))
				}
				r, err := toRef(sig)
				c.Must(err, "encoding")
				if !sameRing(r.K, append(append([][]P{}, g.decoys...), pubOf(g.secrets[:]))) {
					c.Fatalf("%v: the ring is not the decoys plus the signer", log)
				}
				ok, err := sig.Verify([]P{im})
				if !ok || err != nil {
					c.Fatalf("%v: ring of %d, %s: does not verify: %v", log, len(r.K), hx.Short(msg), err)
				}
				var full, bare mlsag.Signature
				c.Must(full.Decode(bytes.NewReader(sigBytes(sig, true)), true), "Decode")
				full.Msg = msg
				if ok, err := full.Verify([]P{im}); !ok {
					c.Fatalf("%v: ring of %d: does not verify after encoding: %v", log, len(r.K), err)
				}
				c.Must(bare.Decode(bytes.NewReader(sigBytes(sig, false)), false), "Decode")
				bare.Msg, bare.PubKeys = msg, sig.PubKeys
				if ok, err := bare.Verify([]P{im}); !ok {
					c.Fatalf("%v: ring of %d: does not verify after encoding without keys: %v", log, len(r.K), err)
				}
				// the finished signature does not depend on its maker any more
				g.d.SetMsg(c.Msg("later"))
				g.d.SetPrimaryKey(drawSecret(c, "later key"))
				g.d.SetCommToZero(drawSecret(c, "later commitment"))
				g.d.AddDecoy(pubKeys(drawMember(c, 2)))
				if c.Bool("sub later") {
					g.d.SubCommToZero(rndP(c))
				}
				if c.Bool("again") {
					_, _, _ = g.d.Prove()
				}
				for _, buf := range bufs {
					for q := range buf {
						buf[q] ^= 0xa5
					}
				}
				if ok, err := sig.Verify([]P{im}); !ok || !bytes.Equal(sig.Msg, msg) {
					c.Fatalf("%v: ring of %d: changes with its maker: %v", log, len(r.K), err)
				}
			}
			for _, o := range mine {
				if !bytes.Equal(pkBytes(o.p), rowBytes(o.keys)) {
					c.Fatalf("%v: a decoy of the caller was modified", log)
				}
			}
			if len(mine) > 0 || subs > 0 {
				c.NT(log, len(mine))
			}
			c.Label(fmt.Sprint("ring ", len(gs[0].decoys)+1))
			c.Note("%v", log)
		})
}

func TestC15_LargeRings(t *testing.T) {
	hx.Check(t, hx.N{Quick: 300, Thorough: 10000},
		"rings of 10..300 members, decoys added in one list or singly, commitment subtracted or not: signed, verified directly and after encoding, ring compared with the decoys plus the signer; non-trivial: all",
		func(c *hx.C) {
			n := hx.Choose(c, "size", c.Int(10, 100, "n"), c.Int(10, 100, "n"), c.Int(125, 130, "n"), c.Int(253, 300, "n"))
			ms := distinctMembers(c, n, 2)
			secrets := mlsagS.secrets(c)
			d := mlsag.NewDualKey()
			d.SetPrimaryKey(secrets[0])
			d.SetCommToZero(secrets[1])
			msg := c.Msg("msg")
			d.SetMsg(msg)
			var l []mlsag.PubKeys
			for _, m := range ms {
				l = append(l, pubKeys(m))
			}
			at := c.Int(0, n, "split")
			d.AddDecoys(l[:at])
			for _, x := range l[at:] {
				d.AddDecoy(x)
			}
			if c.Bool("sub") {
				p := rndP(c)
				d.SubCommToZero(p)
				for i := range ms {
					ms[i] = []P{ms[i][0], ref.PSub(ms[i][1], p)}
				}
			}
			sig, im, err := d.Prove()
			c.Must(err, "Prove")
			r, err := toRef(sig)
			c.Must(err, "encoding")
			if !sameRing(r.K, append(ms, pubOf(secrets))) {
				c.Fatalf("ring of %d: not the decoys plus the signer", n+1)
			}
			if ok, err := sig.Verify([]P{im}); !ok {
				c.Fatalf("ring of %d does not verify: %v", n+1, err)
			}
			var full mlsag.Signature
			c.Must(full.Decode(bytes.NewReader(sigBytes(sig, true)), true), "Decode")
			full.Msg = msg
			if ok, err := full.Verify([]P{im}); !ok {
				c.Fatalf("ring of %d does not verify after encoding: %v", n+1, err)
			}
			c.NT(n, len(msg))
			c.Note("ring of %d, message %s", n+1, hx.Short(msg))
		})
}

func TestC15_Refusals(t *testing.T) {
	hx.Check(t, hx.N{Quick: 3000, Thorough: 100000},
		"rings in which a secret is zero or missing, or one decoy has 0, 1, 3 or 4 keys, at any place, a commitment subtracted from the ring or not; signing is refused with an error and the decoys stay as they were; non-trivial: all",
		func(c *hx.C) {
			d := mlsag.NewDualKey()
			d.SetMsg(c.Msg("msg"))
			what := ""
			kind := c.Pick(4, "kind")
			x, y := drawSecret(c, "x"), drawSecret(c, "y")
			switch kind {
			case 0:
				d.SetPrimaryKey(ref.Int(0))
				d.SetCommToZero(y)
				what = "primary key zero"
			case 1:
				d.SetPrimaryKey(x)
				if c.Bool("set") {
					d.SetCommToZero(ref.Int(0))
				}
				what = "commitment key zero"
			case 2:
				if c.Bool("set") {
					d.SetCommToZero(y)
				}
				what = "primary key missing"
			default:
				d.SetPrimaryKey(x)
				d.SetCommToZero(y)
			}
			n := c.Int(0, 6, "decoys")
			bad, badLen := -1, 0
			if kind == 3 {
				n++
				bad, badLen = c.Pick(n, "bad"), hx.Choose(c, "keys", 0, 1, 3, 4)
				what = fmt.Sprintf("decoy %d of %d has %d keys", bad, n, badLen)
			}
			var ds []mlsag.PubKeys
			var want [][]byte
			for i := 0; i < n; i++ {
				k := 2
				if i == bad {
					k = badLen
				}
				row := drawMember(c, k)
				ds = append(ds, pubKeys(row))
				want = append(want, rowBytes(row))
			}
			d.AddDecoys(ds)
			if c.Bool("sub") {
				d.SubCommToZero(rndP(c))
			}
			sig, _, err := d.Prove()
			if err == nil {
				c.Fatalf("%s: signed", what)
			}
			if sig != nil {
				c.Fatalf("%s: error and signature", what)
			}
			for i := range ds {
				if !bytes.Equal(pkBytes(ds[i]), want[i]) {
					c.Fatalf("%s: a decoy was modified", what)
				}
			}
			c.NT(what, n)
			c.Note("%s", what)
		})
}

func TestC20_Honest(t *testing.T) {
	hx.Check(t, hx.N{Quick: 6000, Thorough: 400000},
		"any message, secret key and list of 0..14 (rarely up to 262) decoys (repeated, neutral, equal to the signer's, with spare memory behind the list): the signature verifies here and in an independent verifier, its ring is the decoys plus the signer, the list and the memory behind it stay as they were; non-trivial: at least one decoy",
		func(c *hx.C) {
			x := drawSecret(c, "x")
			pub := ref.PMul(ref.Base(), x)
			n := decoys(c, 14)
			mem := make([]P, n+c.Pick(4, "spare"))
			for i := range mem {
				mem[i] = stock[c.Src.IntN(len(stock))]
				switch c.Src.IntN(25) {
				case 0:
					mem[i] = ref.Zero()
				case 1:
					mem[i] = pub
				}
			}
			mix := mem[:n]
			if n == 0 && c.Bool("nil") {
				mix = nil
			}
			snap := append([]P(nil), mem...)
			msg := c.Msg("msg")
			msgCopy := append([]byte(nil), msg...)
			s := blsag.Sign(msg, mix, x)
			if !bytes.Equal(msg, msgCopy) {
				c.Fatalf("the message was modified")
			}
			for i := range mem {
				if mem[i] != snap[i] {
					c.Fatalf("%d decoys: entry %d of the caller's memory was modified", n, i)
				}
			}
			if len(s.PubKeys) != n+1 || len(s.S) != n+1 {
				c.Fatalf("%d decoys: %d keys and %d responses", n, len(s.PubKeys), len(s.S))
			}
			ring := func(ps []P) (out [][]P) {
				for _, p := range ps {
					out = append(out, []P{p})
				}
				return
			}
			if !sameRing(ring(s.PubKeys), append(ring(snap[:n]), []P{pub})) {
				c.Fatalf("%d decoys: the ring is not the decoys plus the signer", n)
			}
			if !blsag.Verify(msg, s) {
				c.Fatalf("%d decoys, message %s: does not verify", n, hx.Short(msg))
			}
			r := &ref.Ring{C: s.C, Msg: msg, K: ring(s.PubKeys)}
			for _, y := range s.S {
				r.R = append(r.R, []S{y})
			}
			if !r.Verify([]P{s.I}) {
				c.Fatalf("%d decoys: the independent verifier rejects", n)
			}
			// mutating the caller's list afterwards does not reach the signature
			for i := range mem {
				mem[i] = ref.Base()
			}
			if !blsag.Verify(msg, s) {
				c.Fatalf("%d decoys: the signature shares memory with the caller's list", n)
			}
			if n > 0 {
				c.NT(n, len(msg), ref.Val(x))
			}
			c.Label(fmt.Sprint("ring ", n+1))
			c.Note("%d decoys, message %s", n, hx.Short(msg))
		})
}

// afterRefusal: an honest signature verifies whatever was verified before it.
func afterRefusal(c *hx.C, s scheme) {
	secrets := s.secrets(c)
	msg := c.Msg("msg")
	r, images, err := s.sign(secrets, distinctMembers(c, decoys(c, 6), s.keys), msg)
	c.Must(err, "sign")
	var log []string
	for k := c.Int(1, 3, "before"); k > 0; k-- {
		b := r.Clone()
		what, im := alterRing(c, s, b, images)
		s.verify(b, im)
		log = append(log, what)
		if !s.verify(r, images) {
			c.Fatalf("%s: ring of %d: honest signature rejected after others with altered %v", s.name, len(r.K), log)
		}
	}
	c.NT(len(r.K), len(msg), fmt.Sprint(log))
	c.Note("%s: ring of %d, after %v", s.name, len(r.K), log)
}

const afterRule = "an honest signature (ring of 1..7, rarely up to 260) verified after each of 1..3 altered versions of it: accepted each time; non-trivial: all"

func TestC15_AfterRefusal(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1000, Thorough: 60000}, afterRule, func(c *hx.C) { afterRefusal(c, mlsagS) })
}

func TestC20_AfterRefusal(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1500, Thorough: 90000}, afterRule, func(c *hx.C) { afterRefusal(c, blsagS) })
}
