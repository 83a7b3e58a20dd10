package bls

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"testing"
	"testing/iotest"

	"github.com/dusk-network/dusk-crypto/bls"
	"verif/harness/hx"
)

func TestC27_Keys(t *testing.T) {
	hx.Check(t, hx.N{Quick: 400, Thorough: 20000},
		"sequences of 2..6 generated key pairs from a given reader or (nil) from crypto/rand: all different, determined by the bytes read (a slow reader changes nothing), and a reader that fails yields an error and no key; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(2, 6, "keys")
			id := c.Bytes(8)
			useNil := c.Bool("nil reader")
			gen := func(slow bool) [][]byte {
				var rd io.Reader = hx.NewStream("keys", id)
				if slow {
					rd = iotest.OneByteReader(rd)
				}
				if useNil {
					old := rand.Reader
					rand.Reader = rd
					defer func() { rand.Reader = old }()
					rd = nil
				}
				var out [][]byte
				for i := 0; i < n; i++ {
					pk, sk, err := bls.GenKeyPair(rd)
					c.Must(err, "GenKeyPair")
					// the secret key belongs to it
					u, err := bls.UnsafeSign(sk, id)
					c.Must(err, "UnsafeSign")
					if i == 0 {
						c.Must(bls.VerifyUnsafe(pk, id, u), "VerifyUnsafe")
					}
					out = append(out, append(pk.Marshal(), u.Marshal()...))
				}
				return out
			}
			a, b := gen(false), gen(c.Bool("slow"))
			for i := range a {
				if !bytes.Equal(a[i], b[i]) {
					c.Fatalf("key %d is not determined by the randomness given", i)
				}
				for j := 0; j < i; j++ {
					if bytes.Equal(a[i], a[j]) {
						c.Fatalf("keys %d and %d are the same", i, j)
					}
				}
			}
			k := c.Pick(32, "fail at")
			fail := errors.New("no randomness")
			pk, sk, err := bls.GenKeyPair(io.MultiReader(bytes.NewReader(c.Bytes(k)), iotest.ErrReader(fail)))
			if err == nil || pk != nil || sk != nil {
				c.Fatalf("the reader failed after %d bytes: error %v, keys %v", k, err, pk != nil || sk != nil)
			}
			c.NT(n, useNil, id)
			c.Note("%d keys, nil reader %v", n, useNil)
		})
}

func TestC27_Entropy(t *testing.T) {
	hx.Check(t, hx.N{Quick: 64, Thorough: 4000},
		"a key pair made again with each byte of the random source (given, or crypto/rand) changed in turn: it depends on at least 16 of them; non-trivial: all",
		func(c *hx.C) {
			seed := c.Src.Uint64()
			useNil := c.Bool("nil reader")
			run := func(at int) ([]byte, int) {
				src := &hx.Tampered{R: hx.NewStream("entropy", seed), At: at, By: 1}
				var rd io.Reader = src
				if useNil {
					rand.Reader = src
					rd = nil
				}
				pk, _, err := bls.GenKeyPair(rd)
				c.Must(err, "GenKeyPair")
				return pk.Marshal(), src.N
			}
			want, drawn := run(-1)
			n := 0
			for at := 0; at < drawn && n < 16; at++ {
				if k, _ := run(at); !bytes.Equal(k, want) {
					n++
				}
			}
			if n < 16 {
				c.Fatalf("a key depends on %d of %d random bytes", n, drawn)
			}
			c.NT(useNil, seed)
			c.Note("nil reader %v: %d bytes", useNil, drawn)
		})
}
