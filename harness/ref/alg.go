// Package ref holds independent implementations of the protocols the code
// under test implements, written from their definitions on top of the same
// group library, and attackers against them.
package ref

import (
	"crypto/sha512"
	"fmt"
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"
)

type (
	S = ristretto.Scalar
	P = ristretto.Point
)

// L is the order of the group.
var L, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// Pow2 is the scalar 2^n, n < 252.
func Pow2(n int) S {
	var s S
	s.SetBigInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
	return s
}

func Int(v int64) S {
	b := big.NewInt(v)
	return Big(b)
}

// Big is v modulo the group order.
func Big(v *big.Int) S {
	m := new(big.Int).Mod(v, L)
	var buf [32]byte
	for i, x := range m.Bytes() {
		buf[len(m.Bytes())-1-i] = x
	}
	var s S
	s.SetBytes(&buf)
	return s
}

// Val is the integer a scalar stands for.
func Val(s S) *big.Int {
	b := s.Bytes()
	r := make([]byte, 32)
	for i := range b {
		r[31-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func Add(a, b S) (r S) { r.Add(&a, &b); return }
func Sub(a, b S) (r S) { r.Sub(&a, &b); return }
func Mul(a, b S) (r S) { r.Mul(&a, &b); return }
func Neg(a S) (r S)    { z := Int(0); r.Sub(&z, &a); return }
func Inv(a S) (r S)    { r.Inverse(&a); return }
func IsZero(a S) bool  { z := Int(0); return a.Equals(&z) }
func Eq(a, b S) bool   { return a.Equals(&b) }

func PAdd(a, b P) (r P)   { r.Add(&a, &b); return }
func PSub(a, b P) (r P)   { r.Sub(&a, &b); return }
func PMul(p P, s S) (r P) { r.ScalarMult(&p, &s); return }
func PEq(a, b P) bool     { return a.Equals(&b) }
func Zero() (r P)         { r.SetZero(); return }
func Base() (r P)         { r.SetBase(); return }

// HashS hashes to a scalar: SHA-512 reduced modulo the order.
func HashS(b []byte) S {
	h := sha512.Sum512(b)
	r := make([]byte, 64)
	for i := range h {
		r[63-i] = h[i]
	}
	return Big(new(big.Int).SetBytes(r))
}

// HashP is the library's hash to the group.
func HashP(b []byte) (p P) { p.Derive(b); return }

// DecodeP decodes a group element.
func DecodeP(b []byte) (p P, ok bool) {
	var x [32]byte
	copy(x[:], b)
	ok = p.SetBytes(&x)
	return
}

// Canonical gives the canonical encodings of the group elements b is made of
// (the group's library ignores the top bit of an encoding).
func Canonical(b []byte) []byte {
	var out []byte
	for ; len(b) >= 32; b = b[32:] {
		p, ok := DecodeP(b[:32])
		if !ok {
			break
		}
		out = append(out, p.Bytes()...)
	}
	return out
}

func DecodeS(b []byte) (s S) {
	var x [32]byte
	copy(x[:], b)
	s.SetBytes(&x)
	return
}

func Dot(a, b []S) S {
	r := Int(0)
	for i := range a {
		r = Add(r, Mul(a[i], b[i]))
	}
	return r
}

func Pow(a S, n int) []S {
	out := make([]S, n)
	c := Int(1)
	for i := range out {
		out[i] = c
		c = Mul(c, a)
	}
	return out
}

// MExp is the sum of s[i]*p[i], by buckets.
func MExp(s []S, p []P) P {
	if len(s) != len(p) {
		panic("HARNESS-ERROR: MExp")
	}
	if len(s) < 8 {
		r := Zero()
		for i := range s {
			r = PAdd(r, PMul(p[i], s[i]))
		}
		return r
	}
	w := uint(5)
	if len(s) > 100 {
		w = 6
	}
	if len(s) > 500 {
		w = 8
	}
	bs := make([][]byte, len(s))
	for i := range s {
		bs[i] = s[i].Bytes()
	}
	digit := func(i int, pos uint) int {
		v := 0
		for k := uint(0); k < w; k++ {
			bit := pos + k
			if bit < 256 && bs[i][bit/8]>>(bit%8)&1 == 1 {
				v |= 1 << k
			}
		}
		return v
	}
	acc := Zero()
	top := (255 / w) * w
	buckets := make([]P, 1<<w)
	used := make([]bool, 1<<w)
	for pos := int(top); pos >= 0; pos -= int(w) {
		for k := uint(0); k < w; k++ {
			acc.Add(&acc, &acc)
		}
		for i := range used {
			used[i] = false
		}
		for i := range p {
			d := digit(i, uint(pos))
			if d == 0 {
				continue
			}
			if used[d] {
				buckets[d].Add(&buckets[d], &p[i])
			} else {
				buckets[d], used[d] = p[i], true
			}
		}
		run, sum := Zero(), Zero()
		for d := len(buckets) - 1; d > 0; d-- {
			if used[d] {
				run.Add(&run, &buckets[d])
			}
			sum.Add(&sum, &run)
		}
		acc.Add(&acc, &sum)
	}
	return acc
}

func Bytes(l ...[]byte) []byte {
	var r []byte
	for _, b := range l {
		r = append(r, b...)
	}
	return r
}

// Twist changes two of the values in a way that keeps something they have in
// common (their set, sum, product or opposite), chosen by pick; what it did.
func Twist(pick func(n int, label string) int, ps []*P, ss []*S) string {
	points := pick(2, "points") == 1
	n := len(ss)
	if points {
		n = len(ps)
	}
	if n < 2 {
		return "nothing"
	}
	i := pick(n, "i")
	j := (i + 1 + pick(n-1, "j")) % n
	d := Pow2(pick(252, "d"))
	kind := pick(4, "twist")
	if points {
		a, b := ps[i], ps[j]
		switch kind {
		case 0:
			*a, *b = *b, *a
		case 1:
			q := PMul(Base(), d)
			*a, *b = PAdd(*a, q), PSub(*b, q)
		case 2:
			*a, *b = PSub(Zero(), *a), PSub(Zero(), *b)
		default:
			*a, *b = *b, PSub(Zero(), *a)
		}
	} else {
		a, b := ss[i], ss[j]
		switch kind {
		case 0:
			*a, *b = *b, *a
		case 1:
			*a, *b = Add(*a, d), Sub(*b, d)
		case 2:
			*a, *b = Neg(*a), Neg(*b)
		default:
			*a, *b = Mul(*a, d), Mul(*b, Inv(d))
		}
	}
	return fmt.Sprintf("points %v, %d and %d: %s", points, i, j, [...]string{"exchanged", "shifted", "negated", "turned"}[kind])
}
