package rp

import (
	"bytes"
	"io"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"verif/harness/hx"
	"verif/harness/ref"
)

func within(c *hx.C, b []byte, what string, f func()) {
	if a := hx.Alloc(f); a > 1<<20+400*uint64(len(b)) {
		c.Fatalf("%s: %d bytes of memory for an input of %d", what, a, len(b))
	}
}

func TestC28_RangeProof(t *testing.T) {
	hx.Check(t, hx.N{Quick: 24000, Thorough: 800000},
		"encodings of proofs, honest (1..16 commitments) or of any shape, and random bytes, corrupted in 1..4 steps (bits, bytes, fields, lengths, pieces cut, inserted, doubled, spliced), decoded with or without commitments; whatever decodes is verified, alone or with commitments that do not belong to it (0..20), compared and encoded: no panic, no hang, memory in proportion, and nothing is accepted unless it encodes like the honest proof; non-trivial: it decoded",
		func(c *hx.C) {
			var good []byte
			e, _ := drawBase(c, 16)
			honest := c.Bool("honest")
			commits := c.Chance(4, "without") == false
			tail := e.ref.Tail()
			if honest {
				good = tail
				if commits {
					good = e.bytes
				}
			} else {
				o := drawObject(c)
				good = o.Tail()
				if commits {
					good = o.Bytes()
				}
			}
			b, what := hx.Mangle(c, good, e.bytes, tail)
			var p rangeproof.Proof
			var err error
			within(c, b, what, func() { err = p.Decode(bytes.NewReader(b), commits) })
			if err != nil {
				c.Label("refused")
				return
			}
			c.Label("decoded")
			if !commits || c.Chance(4, "other commitments") {
				k := c.Int(0, 20, "commitments")
				p.V = nil
				if c.Chance(3, "own") {
					p.V = e.proof.V
				} else {
					for ; k > 0; k-- {
						p.V = append(p.V, pedersen.Commitment{Value: anyPoint(c)})
					}
				}
			}
			if c.Chance(10, "shape") { // what no decoder yields, but a caller can build
				switch c.Pick(4, "how") {
				case 0:
					p.IPProof = nil
				case 1:
					p.IPProof.L = nil
				case 2:
					p.IPProof.R = append(p.IPProof.R, ref.Zero())
				default:
					p.IPProof.L, p.IPProof.R = nil, nil
				}
			}
			ok, err := rangeproof.Verify(p)
			if ok != (err == nil) {
				c.Fatalf("%s: verified %v, error %v", what, ok, err)
			}
			if ok && !bytes.Equal(encode(&p, true), e.bytes) {
				c.Fatalf("%s: accepted", what)
			}
			if p.IPProof != nil {
				_ = encode(&p, true)
			}
			q := e.proof
			_ = p.Equals(q, true)
			_ = q.Equals(p, false)
			c.NT(what, hx.Short(b))
			c.Note("%s: decoded, accepted %v", what, ok)
		})
}

func TestC28_Parts(t *testing.T) {
	hx.Check(t, hx.N{Quick: 30000, Thorough: 800000},
		"inner-product proofs, single commitments and lists of commitments, corrupted in 1..4 steps or random, decoded; whatever decodes is encoded again, compared, and inner-product proofs are verified against 1..16 generators that need not fit: no panic, no hang, memory in proportion, nothing accepted; non-trivial: it decoded",
		func(c *hx.C) {
			o := drawObject(c)
			ip := o.Tail()[7*32:]
			comms := o.Bytes()[:4+32*len(o.V)]
			switch c.Pick(3, "which") {
			case 0:
				b, what := hx.Mangle(c, ip, o.Tail())
				var p innerproduct.Proof
				var err error
				within(c, b, what, func() { err = p.Decode(bytes.NewReader(b)) })
				if err != nil {
					c.Label("inner product refused")
					return
				}
				c.Label("inner product decoded")
				c.Must(p.Encode(io.Discard), "Encode")
				_ = p.Equals(innerproduct.Proof{})
				n := 1 << c.Pick(5, "n")
				if len(p.L) <= 6 && c.Chance(3, "fit") {
					n = 1 << len(p.L)
				}
				nh := hx.Choose(c, "H", n, n, n/2, n+1)
				hf := make([]S, hx.Choose(c, "factors", n, n, n/2, n+1))
				for i := range hf {
					hf[i] = ref.Int(1)
				}
				var G, H []P
				for i := 0; i < n; i++ {
					G = append(G, stock[i%64])
				}
				for i := 0; i < nh; i++ {
					H = append(H, stock[(i+20)%64])
				}
				if p.Verify(G, H, p.L, p.R, hf, stock[60], stock[61], n) {
					c.Fatalf("%s: inner-product proof of %d rounds accepted for %d generators", what, len(p.L), n)
				}
				c.NT("ip", what, hx.Short(b), n, nh, len(hf))
				c.Note("inner product: %s, %d generators", what, n)
			case 1:
				b, what := hx.Mangle(c, comms, o.Bytes())
				var cs []pedersen.Commitment
				var err error
				within(c, b, what, func() { cs, err = pedersen.DecodeCommitments(bytes.NewReader(b)) })
				if err != nil {
					c.Label("list refused")
					return
				}
				c.Label("list decoded")
				var w bytes.Buffer
				c.Must(pedersen.EncodeCommitments(&w, cs), "Encode")
				if len(w.Bytes()) != 4+32*len(cs) || !bytes.Equal(b[:4], w.Bytes()[:4]) || !bytes.HasPrefix(ref.Canonical(b[4:]), w.Bytes()[4:]) {
					c.Fatalf("%s: decoded to something else", what)
				}
				c.NT("list", what, hx.Short(b))
				c.Note("commitments: %s, %d decoded", what, len(cs))
			default:
				b, what := hx.Mangle(c, stock[0].Bytes(), comms)
				var cm pedersen.Commitment
				if err := cm.Decode(bytes.NewReader(b)); err != nil {
					c.Label("commitment refused")
					return
				}
				c.Label("commitment decoded")
				if !bytes.HasPrefix(ref.Canonical(b), cm.Value.Bytes()) {
					c.Fatalf("%s: decoded to something else", what)
				}
				_ = cm.Equals(pedersen.Commitment{})
				c.NT("one", what, hx.Short(b))
				c.Note("commitment: %s", what)
			}
		})
}

func TestC28_NoTarget(t *testing.T) {
	hx.Check(t, hx.N{Quick: 2000, Thorough: 40000},
		"honest and corrupted encodings decoded into an object that is not there (a nil range proof, inner-product proof or commitment): an error, no panic; non-trivial: the bytes are well formed",
		func(c *hx.C) {
			e, _ := drawBase(c, 4)
			b, what := e.bytes, "as it was"
			which := c.Pick(3, "object")
			switch which {
			case 1:
				var w bytes.Buffer
				c.Must(e.proof.IPProof.Encode(&w), "Encode")
				b = w.Bytes()
			case 2:
				var w bytes.Buffer
				c.Must(e.proof.V[0].Encode(&w), "Encode")
				b = w.Bytes()
			}
			if c.Chance(3, "mangled") {
				b, what = hx.Mangle(c, b, e.bytes)
			}
			var err error
			switch which {
			case 0:
				err = (*rangeproof.Proof)(nil).Decode(bytes.NewReader(b), c.Bool("commitments"))
			case 1:
				err = (*innerproduct.Proof)(nil).Decode(bytes.NewReader(b))
			default:
				err = (*pedersen.Commitment)(nil).Decode(bytes.NewReader(b))
			}
			if err == nil {
				c.Fatalf("%s: decoded into nothing (%d) without an error", what, which)
			}
			if what == "as it was" {
				c.NT(which, hx.Short(b))
			}
		})
}
