package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"sync"
)

// Bits is the number of bits of an amount.
const Bits = 64

// MaxM is the largest number of commitments in a proof.
const MaxM = 16

var (
	genMu sync.Mutex
	gens  = map[string][]P{}
)

// Gens is the chain of generators for a label.
func Gens(label string, n int) []P {
	genMu.Lock()
	defer genMu.Unlock()
	g := gens[label]
	if len(gens) > 20000 { // thorough runs use many labels
		for k, v := range gens {
			if len(v) < 64 {
				delete(gens, k)
			}
		}
	}
	for len(g) < n {
		if len(g) == 0 {
			g = append(g, HashP([]byte(label)))
		} else {
			g = append(g, HashP(g[len(g)-1].Bytes()))
		}
	}
	gens[label] = g
	return g[:n:n]
}

var (
	valueBase = HashP([]byte("blindPoint"))
	blindBase = Base()
)

// ValueBase and BlindBase are the bases of commitments to amounts.
func ValueBase() P { return valueBase }
func BlindBase() P { return blindBase }

// Commit is v*ValueBase + r*BlindBase.
func Commit(v, r S) P { return PAdd(PMul(valueBase, v), PMul(blindBase, r)) }

const bpLabel = "dusk.BulletProof.vec1"

func bpG(n int) []P { return Gens(bpLabel, n) }
func bpH(n int) []P { return Gens(bpLabel+"\x01", n) }

// Range is a decoded range proof.
type Range struct {
	V            []P
	A, S, T1, T2 P
	Taux, Mu, T  S
	Aip, Bip     S
	L, R         []P
}

// Parse decodes a proof with commitments strictly.
func Parse(b []byte) (*Range, error) {
	if len(b) < 4 {
		return nil, io.ErrUnexpectedEOF
	}
	n := int(binary.BigEndian.Uint32(b))
	b = b[4:]
	if n > len(b)/32 {
		return nil, io.ErrUnexpectedEOF
	}
	bad := false
	pt := func() P {
		if len(b) < 32 {
			bad = true
			return Zero()
		}
		p, ok := DecodeP(b[:32])
		if !ok {
			bad = true
		}
		b = b[32:]
		return p
	}
	sc := func() S {
		if len(b) < 32 {
			bad = true
			return Int(0)
		}
		s := DecodeS(b[:32])
		b = b[32:]
		return s
	}
	r := &Range{}
	for i := 0; i < n; i++ {
		r.V = append(r.V, pt())
	}
	r.A, r.S, r.T1, r.T2 = pt(), pt(), pt(), pt()
	r.Taux, r.Mu, r.T = sc(), sc(), sc()
	r.Aip, r.Bip = sc(), sc()
	if len(b)%64 != 0 {
		return nil, errors.New("misaligned")
	}
	for len(b) > 0 && !bad {
		r.L = append(r.L, pt())
		r.R = append(r.R, pt())
	}
	if bad {
		return nil, errors.New("undecodable")
	}
	return r, nil
}

// Bytes encodes the proof with its commitments.
func (r *Range) Bytes() []byte {
	out := binary.BigEndian.AppendUint32(nil, uint32(len(r.V)))
	for _, v := range r.V {
		out = append(out, v.Bytes()...)
	}
	return append(out, r.Tail()...)
}

// Tail encodes the proof without its commitments.
func (r *Range) Tail() []byte {
	out := Bytes(r.A.Bytes(), r.S.Bytes(), r.T1.Bytes(), r.T2.Bytes(), r.Taux.Bytes(), r.Mu.Bytes(), r.T.Bytes(),
		r.Aip.Bytes(), r.Bip.Bytes())
	for i := range r.L {
		out = append(out, r.L[i].Bytes()...)
		out = append(out, r.R[i].Bytes()...)
	}
	return out
}

// Clone copies the proof.
func (r *Range) Clone() *Range {
	c := *r
	c.V = append([]P(nil), r.V...)
	c.L = append([]P(nil), r.L...)
	c.R = append([]P(nil), r.R...)
	return &c
}

// ---------------------------------------------------------------- transcript

// Transcript is the sequence of named messages. Mangle, if set, is what an
// attacker believes the verifier feeds into its hash for a message.
type Transcript struct {
	msgs   []Message
	Mangle Mangle
}

// Message is one named item of a transcript.
type Message struct {
	Name string
	B    []byte
}

// Mangle tells what an attacker believes is hashed at a stage ("y", "x", "w",
// "u0", ...) for message i of msgs.
type Mangle func(stage string, i int, msgs []Message) []byte

func (t *Transcript) Put(name string, b []byte) { t.msgs = append(t.msgs, Message{name, b}) }

// Challenge hashes everything put so far.
func (t *Transcript) Challenge(stage string) S {
	var buf []byte
	for i, m := range t.msgs {
		b := m.B
		if t.Mangle != nil {
			b = t.Mangle(stage, i, t.msgs)
		}
		buf = append(buf, b...)
	}
	return HashS(buf)
}

// set updates what was put before by elements changed since.
func (t *Transcript) set(r *Range) {
	for i, m := range t.msgs {
		switch m.Name {
		case "A":
			t.msgs[i].B = r.A.Bytes()
		case "S":
			t.msgs[i].B = r.S.Bytes()
		case "T1":
			t.msgs[i].B = r.T1.Bytes()
		case "T2":
			t.msgs[i].B = r.T2.Bytes()
		default:
			if k, j := freeKind(m.Name); k == "V" {
				t.msgs[i].B = r.V[j].Bytes()
			}
		}
	}
}

func (r *Range) yz(t *Transcript) (y, z S) {
	for j, v := range r.V {
		t.Put(fmt.Sprint("V", j), v.Bytes())
	}
	t.Put("A", r.A.Bytes())
	t.Put("S", r.S.Bytes())
	y = t.Challenge("y")
	z = HashS(y.Bytes())
	return
}

func (r *Range) xch(t *Transcript, z S) S {
	t.Put("z", z.Bytes())
	t.Put("T1", r.T1.Bytes())
	t.Put("T2", r.T2.Bytes())
	return t.Challenge("x")
}

func (r *Range) wch(t *Transcript, x S) S {
	t.Put("x", x.Bytes())
	t.Put("taux", r.Taux.Bytes())
	t.Put("mu", r.Mu.Bytes())
	t.Put("t", r.T.Bytes())
	return t.Challenge("w")
}

// delta(y,z) = (z-z²)<1,y^nm> - sum_j z^(j+3) <1,2^n>
func delta(y, z S, m int) S {
	sy := Int(0)
	for _, p := range Pow(y, Bits*m) {
		sy = Add(sy, p)
	}
	two64 := Big(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), Bits), big.NewInt(1)))
	d := Mul(Sub(z, Mul(z, z)), sy)
	zj := Mul(z, Mul(z, z))
	for j := 0; j < m; j++ {
		d = Sub(d, Mul(zj, two64))
		zj = Mul(zj, z)
	}
	return d
}

// zTwo is the vector z^(2+j) 2^i at position 64j+i.
func zTwo(z S, m int) []S {
	out := make([]S, 0, Bits*m)
	zj := Mul(z, z)
	two := Pow(Int(2), Bits)
	for j := 0; j < m; j++ {
		for i := 0; i < Bits; i++ {
			out = append(out, Mul(zj, two[i]))
		}
		zj = Mul(zj, z)
	}
	return out
}

// Verify checks the two equations of the protocol one after the other.
func (r *Range) Verify() error {
	m := len(r.V)
	if m < 1 || m > MaxM || m&(m-1) != 0 {
		return errors.New("number of commitments")
	}
	n := Bits * m
	if len(r.L) != len(r.R) || 1<<uint(len(r.L)) != n {
		return errors.New("size of the inner-product proof")
	}
	t := &Transcript{}
	y, z := r.yz(t)
	x := r.xch(t, z)
	w := r.wch(t, x)
	if !r.firstEquation(y, z, x) {
		return errors.New("polynomial identity")
	}
	lhs := r.secondP(y, z, x)
	Q := PMul(valueBase, w)
	lhs = PAdd(lhs, PMul(Q, r.T))
	hf := Pow(Inv(y), n)
	if !ipVerify(bpG(n), bpH(n), hf, Q, lhs, r.L, r.R, r.Aip, r.Bip, nil) {
		return errors.New("inner product")
	}
	return nil
}

// t*B + taux*Bl == sum z^(2+j) V_j + delta*B + x*T1 + x²*T2
func (r *Range) firstEquation(y, z, x S) bool {
	rhs := PMul(valueBase, delta(y, z, len(r.V)))
	zj := Mul(z, z)
	for _, v := range r.V {
		rhs = PAdd(rhs, PMul(v, zj))
		zj = Mul(zj, z)
	}
	rhs = PAdd(rhs, PAdd(PMul(r.T1, x), PMul(r.T2, Mul(x, x))))
	return PEq(Commit(r.T, r.Taux), rhs)
}

// A + x*S - mu*Bl - z<1,G> + <z*y^n + z²2^n, H'>
func (r *Range) secondP(y, z, x S) P {
	m := len(r.V)
	n := Bits * m
	var s []S
	var p []P
	nz := Neg(z)
	for _, g := range bpG(n) {
		s, p = append(s, nz), append(p, g)
	}
	hf := Pow(Inv(y), n)
	zt := zTwo(z, m)
	for i, h := range bpH(n) {
		s, p = append(s, Add(z, Mul(zt[i], hf[i]))), append(p, h)
	}
	s, p = append(s, x, Neg(r.Mu)), append(p, r.S, blindBase)
	return PAdd(r.A, MExp(s, p))
}

// ------------------------------------------------------------- inner product

// ipChallenges are the challenges of the folding rounds.
func ipChallenges(l, r []P, mangle Mangle) []S {
	t := &Transcript{Mangle: mangle}
	var us []S
	for k := range l {
		t.Put(fmt.Sprint("L", k), l[k].Bytes())
		t.Put(fmt.Sprint("R", k), r[k].Bytes())
		us = append(us, t.Challenge(fmt.Sprint("u", k)))
	}
	return us
}

// foldWeights: weight of generator i after folding with the challenges.
func foldWeights(us []S) []S {
	w := []S{Int(1)}
	for _, u := range us { // earlier rounds decide the higher bits
		ui := Inv(u)
		next := make([]S, 0, 2*len(w))
		for _, x := range w {
			next = append(next, Mul(x, ui), Mul(x, u))
		}
		w = next
	}
	return w
}

// ipRight is <a*s,G> + <b/s*hf,H> + ab*Q - sum u²L + u^-2 R
func ipRight(G, H []P, hf []S, Q P, L, R []P, a, b S, us []S) P {
	s := foldWeights(us)
	var sc []S
	var pt []P
	for i := range G {
		sc, pt = append(sc, Mul(a, s[i])), append(pt, G[i])
		sc, pt = append(sc, Mul(Mul(b, s[len(s)-1-i]), hf[i])), append(pt, H[i])
	}
	sc, pt = append(sc, Mul(a, b)), append(pt, Q)
	for k, u := range us {
		u2 := Mul(u, u)
		sc, pt = append(sc, Neg(u2), Neg(Inv(u2))), append(pt, L[k], R[k])
	}
	return MExp(sc, pt)
}

func ipVerify(G, H []P, hf []S, Q, want P, L, R []P, a, b S, mangle Mangle) bool {
	if len(L) != len(R) || len(G) != 1<<uint(len(L)) || len(H) != len(G) || len(hf) != len(G) {
		return false
	}
	us := ipChallenges(L, R, mangle)
	return PEq(ipRight(G, H, hf, Q, L, R, a, b, us), want)
}

// IPVerify is the reference verifier for inner-product proofs.
func IPVerify(G, H []P, hf []S, Q, want P, L, R []P, a, b S) bool {
	return ipVerify(G, H, hf, Q, want, L, R, a, b, nil)
}

// IPProve folds step by step with explicit bases.
func IPProve(G, H []P, a, b, hf []S, Q P) (L, R []P, fa, fb S) {
	return ipProve(G, H, a, b, hf, Q, nil, "", Int(0))
}

// ipProve: the commitment it is made for claims an inner product larger than
// the true one by excess; the free element (L<k> or R<k>), chosen after its
// round's challenge, makes up for it.
func ipProve(G, H []P, a, b, hf []S, Q P, mangle Mangle, free string, excess S) (L, R []P, fa, fb S) {
	G = append([]P(nil), G...)
	a, b = append([]S(nil), a...), append([]S(nil), b...)
	h := make([]P, len(H))
	for i := range H {
		h[i] = PMul(H[i], hf[i])
	}
	t := &Transcript{Mangle: mangle}
	kind, idx := freeKind(free)
	for n := len(a); n > 1; n /= 2 {
		k := n / 2
		L = append(L, PAdd(PAdd(MExp(a[:k], G[k:n]), MExp(b[k:n], h[:k])), PMul(Q, Dot(a[:k], b[k:n]))))
		R = append(R, PAdd(PAdd(MExp(a[k:n], G[:k]), MExp(b[:k], h[k:n])), PMul(Q, Dot(a[k:n], b[:k]))))
		round := len(L) - 1
		t.Put(fmt.Sprint("L", round), L[round].Bytes())
		t.Put(fmt.Sprint("R", round), R[round].Bytes())
		u := t.Challenge(fmt.Sprint("u", round))
		ui := Inv(u)
		if kind == "L" && idx == round {
			L[round] = PSub(L[round], PMul(Q, Mul(excess, Mul(ui, ui))))
			t.msgs[len(t.msgs)-2].B = L[round].Bytes()
		}
		if kind == "R" && idx == round {
			R[round] = PSub(R[round], PMul(Q, Mul(excess, Mul(u, u))))
			t.msgs[len(t.msgs)-1].B = R[round].Bytes()
		}
		na, nb := make([]S, k), make([]S, k)
		ng, nh := make([]P, k), make([]P, k)
		for i := 0; i < k; i++ {
			na[i] = Add(Mul(a[i], u), Mul(a[k+i], ui))
			nb[i] = Add(Mul(b[i], ui), Mul(b[k+i], u))
			ng[i] = PAdd(PMul(G[i], ui), PMul(G[k+i], u))
			nh[i] = PAdd(PMul(h[i], u), PMul(h[k+i], ui))
		}
		a, b, G, h = na, nb, ng, nh
	}
	return L, R, a[0], b[0]
}

// -------------------------------------------------------------------- prover

// Prover holds a prover's inputs and choices; fields left nil are chosen
// honestly. A cheating prover sets some of them.
type Prover struct {
	Rand   func() S
	Values []S // what the commitments hide; a power of two of them
	Blinds []S
	AL, AR []S
	SL, SR []S
	// ForceT makes the prover send the value of t that satisfies the first
	// equation, instead of <l,r>.
	ForceT bool
	// Mangle is the transcript the attacker believes in; it solves for Free,
	// a message that transcript does not bind, after the challenges.
	Mangle Mangle
	Free   string
	// FreeZ is A or one of the commitments, chosen after y and z but before x.
	FreeZ string
	// Shift adds k to mu and subtracts weight*k from taux.
	ShiftMu, ShiftTaux S
	// Weigh, if given, tells the weight once the challenges are known.
	Weigh func(r *Range, x, y, z S) S

	// results
	L, R  []S // l and r
	Alpha S
}

// BitsOf is the honest bit decomposition of values (truncated to 64 bits).
func BitsOf(vs []S) (aL, aR []S) {
	for _, v := range vs {
		n := Val(v)
		for i := 0; i < Bits; i++ {
			b := Int(int64(n.Bit(i)))
			aL = append(aL, b)
			aR = append(aR, Sub(b, Int(1)))
		}
	}
	return
}

func (p *Prover) fill() {
	m := len(p.Values)
	vec := func(v *[]S) {
		if *v == nil {
			for i := 0; i < Bits*m; i++ {
				*v = append(*v, p.Rand())
			}
		}
	}
	if p.Blinds == nil {
		for range p.Values {
			p.Blinds = append(p.Blinds, p.Rand())
		}
	}
	aL, aR := BitsOf(p.Values)
	if p.AL == nil {
		p.AL = aL
	}
	if p.AR == nil {
		p.AR = aR
	}
	vec(&p.SL)
	vec(&p.SR)
}

// afterZ makes the constant term come out right by a choice after z.
func (p *Prover) afterZ(r *Range, y, z S, yn, zt []S, alpha S) {
	kind, idx := freeKind(p.FreeZ)
	if kind != "A" && kind != "V" {
		return
	}
	m := len(p.Values)
	n := Bits * m
	t0 := Int(0)
	for i := 0; i < n; i++ {
		t0 = Add(t0, Mul(Sub(p.AL[i], z), Add(Mul(yn[i], Add(p.AR[i], z)), zt[i])))
	}
	expect := delta(y, z, m)
	zj := Mul(z, z)
	var zi S
	for j := range p.Values {
		expect = Add(expect, Mul(zj, p.Values[j]))
		if j == idx {
			zi = zj
		}
		zj = Mul(zj, z)
	}
	gap := Sub(t0, expect)
	if kind == "V" {
		p.Values[idx] = Add(p.Values[idx], Mul(gap, Inv(zi)))
		r.V[idx] = Commit(p.Values[idx], p.Blinds[idx])
		return
	}
	p.AR = append([]S(nil), p.AR...)
	p.AR[0] = Sub(p.AR[0], Mul(gap, Inv(Mul(yn[0], Sub(p.AL[0], z)))))
	r.A = PAdd(PAdd(MExp(p.AL, bpG(n)), MExp(p.AR, bpH(n))), PMul(blindBase, alpha))
}

// Prove runs the protocol.
func (p *Prover) Prove() *Range {
	p.fill()
	m := len(p.Values)
	n := Bits * m
	G, H := bpG(n), bpH(n)
	r := &Range{}
	for j, v := range p.Values {
		r.V = append(r.V, Commit(v, p.Blinds[j]))
	}
	alpha, rho := p.Rand(), p.Rand()
	p.Alpha = alpha
	com := func(a, b []S, bl S) P {
		return PAdd(PAdd(MExp(a, G), MExp(b, H)), PMul(blindBase, bl))
	}
	r.A = com(p.AL, p.AR, alpha)
	r.S = com(p.SL, p.SR, rho)
	t := &Transcript{Mangle: p.Mangle}
	y, z := r.yz(t)
	yn := Pow(y, n)
	zt := zTwo(z, m)
	p.afterZ(r, y, z, yn, zt, alpha)
	t.set(r)
	l0, r0, r1 := make([]S, n), make([]S, n), make([]S, n)
	for i := 0; i < n; i++ {
		l0[i] = Sub(p.AL[i], z)
		r0[i] = Add(Mul(yn[i], Add(p.AR[i], z)), zt[i])
		r1[i] = Mul(yn[i], p.SR[i])
	}
	t1 := Add(Dot(p.SL, r0), Dot(l0, r1))
	t2 := Dot(p.SL, r1)
	tau1, tau2 := p.Rand(), p.Rand()
	r.T1, r.T2 = Commit(t1, tau1), Commit(t2, tau2)
	x := r.xch(t, z)
	x2 := Mul(x, x)
	l, rr := make([]S, n), make([]S, n)
	for i := 0; i < n; i++ {
		l[i] = Add(l0[i], Mul(x, p.SL[i]))
		rr[i] = Add(r0[i], Mul(x, r1[i]))
	}
	r.Taux = Add(Mul(tau1, x), Mul(tau2, x2))
	expect := Add(delta(y, z, m), Add(Mul(t1, x), Mul(t2, x2)))
	zj := Mul(z, z)
	for j := range p.Values {
		r.Taux = Add(r.Taux, Mul(zj, p.Blinds[j]))
		expect = Add(expect, Mul(zj, p.Values[j]))
		zj = Mul(zj, z)
	}
	r.Mu = Add(alpha, Mul(rho, x))
	r.Mu = Add(r.Mu, p.ShiftMu)
	r.Taux = Add(r.Taux, p.ShiftTaux)
	if p.Weigh != nil {
		r.Taux = Sub(r.Taux, Mul(p.Weigh(r, x, y, z), p.ShiftMu))
	}
	r.T = Dot(l, rr)
	if p.ForceT {
		r.T = expect
	}

	// freedom in the first equation
	kind, idx := freeKind(p.Free)
	firstGap := func(without P, coeff S) P { // what the free element has to be
		rest := PSub(Commit(r.T, r.Taux), PMul(valueBase, delta(y, z, m)))
		zj := Mul(z, z)
		for _, v := range r.V {
			rest = PSub(rest, PMul(v, zj))
			zj = Mul(zj, z)
		}
		rest = PSub(rest, PAdd(PMul(r.T1, x), PMul(r.T2, x2)))
		return PAdd(without, PMul(rest, Inv(coeff)))
	}
	switch kind {
	case "V":
		r.V[idx] = firstGap(r.V[idx], Mul(z, Pow(z, m+1)[idx+1]))
	case "T1":
		r.T1 = firstGap(r.T1, x)
	case "T2":
		r.T2 = firstGap(r.T2, x2)
	case "A", "S":
		// t as the first equation wants it, l and r made to fit
		r.T = expect
		d := Sub(r.T, Dot(l, rr))
		rr[0] = Add(rr[0], Mul(d, Inv(l[0])))
		hf := Pow(Inv(y), n)
		hr := make([]S, n)
		for i := range hr {
			hr[i] = Mul(rr[i], hf[i])
		}
		want := PAdd(MExp(l, G), MExp(hr, H))
		gap := PSub(want, r.secondP(y, z, x))
		if kind == "A" {
			r.A = PAdd(r.A, gap)
		} else {
			r.S = PAdd(r.S, PMul(gap, Inv(x)))
		}
	case "L", "R":
		r.T = expect
	}
	t.set(r)
	w := r.wch(t, x)
	Q := PMul(valueBase, w)
	hf := Pow(Inv(y), n)
	p.L, p.R = l, rr
	r.L, r.R, r.Aip, r.Bip = ipProve(G, H, l, rr, hf, Q, p.Mangle, p.Free, Sub(r.T, Dot(l, rr)))
	return r
}

func freeKind(s string) (string, int) {
	for _, k := range []string{"T1", "T2", "A", "S"} {
		if s == k {
			return k, 0
		}
	}
	for _, k := range []string{"V", "L", "R"} {
		if strings.HasPrefix(s, k) {
			i := 0
			fmt.Sscan(s[1:], &i)
			return k, i
		}
	}
	return "", 0
}

// VerifyBelieving runs the verifier an attacker believes in; for testing the
// attacks themselves.
func (r *Range) VerifyBelieving(mangle Mangle) bool {
	m := len(r.V)
	n := Bits * m
	t := &Transcript{Mangle: mangle}
	y, z := r.yz(t)
	x := r.xch(t, z)
	w := r.wch(t, x)
	if !r.firstEquation(y, z, x) {
		return false
	}
	Q := PMul(valueBase, w)
	lhs := PAdd(r.secondP(y, z, x), PMul(Q, r.T))
	return ipVerify(bpG(n), bpH(n), Pow(Inv(y), n), Q, lhs, r.L, r.R, r.Aip, r.Bip, mangle)
}

// IPProveLate makes a proof for a commitment that claims an inner product
// larger than the true one by excess, choosing L<k> or R<k> after its round's
// challenge.
func IPProveLate(G, H []P, a, b, hf []S, Q P, mangle Mangle, free string, excess S) (L, R []P, fa, fb S) {
	return ipProve(G, H, a, b, hf, Q, mangle, free, excess)
}

// Challenges are y, z and x of a proof.
func (r *Range) Challenges() (y, z, x S) {
	t := &Transcript{}
	y, z = r.yz(t)
	x = r.xch(t, z)
	return
}

// Terms are the coefficients t1 and t2 of <l, r> for given bits and blinding
// vectors.
func Terms(aL, aR, sL, sR []S, y, z S) (t1, t2 S) {
	n := len(aL)
	yn := Pow(y, n)
	zt := zTwo(z, n/Bits)
	t1, t2 = Int(0), Int(0)
	for i := 0; i < n; i++ {
		l0 := Sub(aL[i], z)
		r0 := Add(Mul(yn[i], Add(aR[i], z)), zt[i])
		r1 := Mul(yn[i], sR[i])
		t1 = Add(t1, Add(Mul(sL[i], r0), Mul(l0, r1)))
		t2 = Add(t2, Mul(sL[i], r1))
	}
	return
}

// VecCommit is <a, G> + <b, H> over the generators of range proofs.
func VecCommit(a, b []S) P {
	return PAdd(MExp(a, bpG(len(a))), MExp(b, bpH(len(b))))
}

// IPScalars are what a verifier derives from the rounds of a proof: squared challenges, their inverses, weights.
func IPScalars(L, R []P) (sq, inv, w []S) {
	us := ipChallenges(L, R, nil)
	for _, u := range us {
		sq, inv = append(sq, Mul(u, u)), append(inv, Inv(Mul(u, u)))
	}
	return sq, inv, foldWeights(us)
}
