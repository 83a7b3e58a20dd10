package rp

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"sync"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"verif/harness/hx"
	"verif/harness/ref"
)

type S = ref.S
type P = ref.P

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") != "" {
		child()
		return
	}
	hx.Main(m)
}

func pow2(n int) int {
	p := 1
	for p < n {
		p *= 2
	}
	return p
}

// drawAmount draws from [0,2^64): edges, powers of two and their neighbours,
// few or many bits.
func drawAmount(c *hx.C, label string) uint64 {
	switch c.Pick(6, label+".kind") {
	case 0:
		return hx.Choose(c, label, uint64(0), 1, 2, 3)
	case 1:
		return ^uint64(0) - uint64(c.Pick(3, label))
	case 2:
		return uint64(1) << c.Pick(64, label)
	case 3:
		return uint64(1)<<c.Pick(64, label) - 1
	case 4:
		return c.Src.Uint64() >> c.Pick(64, label)
	default:
		return c.Src.Uint64()
	}
}

func amt(v uint64) S { return ref.Big(new(big.Int).SetUint64(v)) }

// drawOutside draws a scalar that is not in [0,2^64).
func drawOutside(c *hx.C, label string) S {
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	switch c.Pick(7, label+".kind") {
	case 0:
		return ref.Big(new(big.Int).Add(two64, big.NewInt(int64(c.Pick(3, label)))))
	case 1:
		return ref.Int(-1 - int64(c.Pick(3, label)))
	case 2:
		return ref.Big(new(big.Int).Lsh(big.NewInt(1), uint(64+c.Pick(188, label))))
	case 3: // low 64 bits zero or small
		return ref.Big(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(int64(1+c.Pick(5, label))), 64), new(big.Int).SetUint64(c.Src.Uint64())))
	case 4:
		return ref.Neg(amt(c.Src.Uint64() | 1))
	case 5:
		return ref.Big(new(big.Int).Rsh(ref.L, 1))
	default:
		for {
			s := rnd(c)
			if ref.Val(s).BitLen() > 64 {
				return s
			}
		}
	}
}

func rnd(c *hx.C) S { return ref.HashS(c.Bytes(40)) }

func rndP(c *hx.C) P { return ref.HashP(c.Bytes(32)) }

// drawScalar draws any scalar, small ones, zero and -1 in particular.
func drawScalar(c *hx.C, label string) S {
	switch c.Pick(6, label) {
	case 0:
		return ref.Int(int64(c.Pick(3, label+".small")))
	case 1:
		return ref.Int(-1 - int64(c.Pick(2, label+".neg")))
	case 2:
		return amt(c.Src.Uint64())
	default:
		return rnd(c)
	}
}

func encode(p *rangeproof.Proof, commits bool) []byte {
	var b bytes.Buffer
	if err := p.Encode(&b, commits); err != nil {
		panic(fmt.Sprint("Encode to memory fails: ", err))
	}
	return b.Bytes()
}

func decode(b []byte, commits bool) (rangeproof.Proof, error) {
	var p rangeproof.Proof
	err := p.Decode(bytes.NewReader(b), commits)
	return p, err
}

// accepts: does the verifier accept these bytes as a proof with commitments?
func accepts(b []byte) bool {
	p, err := decode(b, true)
	if err != nil {
		return false
	}
	ok, _ := rangeproof.Verify(p)
	return ok
}

// ------------------------------------------------------------ pool of proofs

type poolEntry struct {
	once   sync.Once
	values []S
	proof  rangeproof.Proof
	bytes  []byte
	ref    *ref.Range
	err    error
}

const poolPer = 6

var pool = map[int][]*poolEntry{}

func init() {
	for _, m := range []int{1, 2, 4, 8, 16} {
		for i := 0; i < poolPer; i++ {
			pool[m] = append(pool[m], &poolEntry{})
		}
	}
}

// base returns one of a few honest proofs with m commitments, made by the
// code under test.
func base(m, i int) *poolEntry {
	e := pool[m][i]
	e.once.Do(func() {
		hx.WithRand(func() {
			src := hx.NewStream("amounts", m, i)
			for j := 0; j < m; j++ {
				var b [8]byte
				_, _ = src.Read(b[:])
				v := new(big.Int).SetBytes(b[:1+(i+j)%8])
				e.values = append(e.values, ref.Big(v))
			}
			e.proof, e.err = rangeproof.Prove(e.values, false)
			if e.err == nil {
				e.bytes = encode(&e.proof, true)
				e.ref, e.err = ref.Parse(e.bytes)
			}
		}, "pool", m, i)
	})
	return e
}

// drawBase draws a pool entry, mostly a small one.
func drawBase(c *hx.C, maxM int) (*poolEntry, int) {
	ms := []int{1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 8, 8, 16}
	m := ms[c.Pick(len(ms), "m")]
	for m > maxM {
		m /= 2
	}
	e := base(m, c.Pick(poolPer, "pool"))
	c.Must(e.err, "honest proof")
	return e, m
}

func values(v []pedersen.Commitment) []P {
	var out []P
	for i := range v {
		out = append(out, v[i].Value)
	}
	return out
}

// badPoint is a string of 32 bytes that encodes no group element.
func badPoint(c *hx.C) []byte {
	for i := 0; i < 1000; i++ {
		var b []byte
		switch c.Pick(4, "bad.kind") {
		case 0:
			b = bytes.Repeat([]byte{0xff}, 32)
		case 1: // p, p+1, ...: not canonical
			b = bytes.Repeat([]byte{0xff}, 32)
			b[31] = 0x7f
			b[0] = 0xed + byte(c.Pick(10, "bad.off"))
		case 2: // negative
			b = c.Bytes(32)
			b[31] &= 0x7f
			b[0] |= 1
		default:
			b = c.Bytes(32)
			b[31] &= 0x7f
			b[0] &= 0xfe
		}
		if _, ok := ref.DecodeP(b); !ok {
			return b
		}
	}
	panic("HARNESS-ERROR: no bad point")
}
