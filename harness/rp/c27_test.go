package rp

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"math"
	"math/big"
	"sort"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"verif/harness/hx"
	"verif/harness/ref"
)

// recorder remembers what was read.
type recorder struct {
	src   io.Reader
	reads [][]byte
	total int
}

func (r *recorder) Read(p []byte) (int, error) {
	n, err := r.src.Read(p)
	r.reads = append(r.reads, append([]byte(nil), p[:n]...))
	r.total += n
	return n, err
}

// scalars are those made from the reads of 64 bytes.
func (r *recorder) scalars() []S {
	var out []S
	for _, b := range r.reads {
		if len(b) == 64 {
			var x [64]byte
			copy(x[:], b)
			var s S
			s.SetReduced(&x)
			out = append(out, s)
		}
	}
	return out
}

// blinding collects k*B for all blinding factors k that can be computed.
type blinding struct {
	seen map[string]string
}

func (b *blinding) add(c *hx.C, p P, what string) {
	key := func(p P) string { return string(p.Bytes()) }
	if ref.PEq(p, ref.Zero()) {
		c.Fatalf("%s is zero", what)
	}
	bb := ref.BlindBase()
	for i, q := range []P{p, ref.PSub(ref.Zero(), p), ref.PAdd(p, bb), ref.PSub(p, bb), ref.PAdd(p, p)} {
		if w, dup := b.seen[key(q)]; dup {
			c.Fatalf("%s is %s of %s", what, []string{"the same as that", "the negative of that", "one less than that", "one more than that", "half that"}[i], w)
		}
	}
	b.seen[key(p)] = what
}

// explain finds the vectors sL and sR among the scalars drawn: s = <sL,G>+<sR,H>.
func explain(c *hx.C, d []S, s P, m int) (sL, sR []S, what string) {
	n := ref.Bits * m
	pick := func(start, step, count int) []S {
		if start < 0 || start+step*(count-1) >= len(d) {
			return nil
		}
		var out []S
		for i := 0; i < count; i++ {
			out = append(out, d[start+step*i])
		}
		return out
	}
	zero := make([]S, n)
	for i := range zero {
		zero[i] = ref.Int(0)
	}
	rep := func(v []S) []S {
		var out []S
		for len(v) > 0 && len(out) < n {
			out = append(out, v...)
		}
		return out
	}
	try := func(a, b []S) bool {
		return len(a) == n && len(b) == n && ref.PEq(ref.VecCommit(a, b), s)
	}
	// where the vectors start depends on what is drawn before them
	offs := []int{m + 1}
	for o := 0; o <= m+6; o++ {
		if o != m+1 {
			offs = append(offs, o)
		}
	}
	for _, o := range offs {
		for _, v := range [][2][]S{{pick(o, 2, n), pick(o+1, 2, n)}, {pick(o, 1, n), pick(o+n, 1, n)}} {
			if try(v[0], v[1]) {
				return v[0], v[1], "independent"
			}
			if try(v[1], v[0]) {
				return v[1], v[0], "independent"
			}
		}
		one := pick(o, 1, n)
		block := rep(pick(o, 1, ref.Bits))
		single := rep(pick(o, 1, 1))
		for name, v := range map[string][2][]S{
			"both halves the same": {one, one}, "right half zero": {one, zero}, "left half zero": {zero, one},
			"left half constant":  {single, pick(o+1, 1, n)},
			"right half constant": {pick(o, 1, n), rep(pick(o+n, 1, 1))},
			"all the same":        {single, single}, "two constants": {single, rep(pick(o+1, 1, 1))},
			"values share the vectors": {block, rep(pick(o+ref.Bits, 1, ref.Bits))},
		} {
			if v[0] != nil && v[1] != nil && try(v[0], v[1]) {
				return nil, nil, name
			}
		}
		if m > 1 {
			var a, b []S
			for i := 0; i < ref.Bits; i++ {
				p := pick(o+2*i, 1, 2)
				if p == nil {
					break
				}
				a, b = append(a, p[0]), append(b, p[1])
			}
			if try(rep(a), rep(b)) {
				return nil, nil, "values share the vectors"
			}
		}
	}
	if try(zero, zero) {
		return nil, nil, "zero"
	}
	return nil, nil, ""
}

// inspect adds all blinding of a proof and complains about the rest.
func inspect(c *hx.C, b *blinding, p *rangeproof.Proof, vals []S, rec *recorder, name string) (list []P) {
	m := pow2(len(vals))
	if len(p.V) != m {
		c.Fatalf("%d values, %d commitments", len(vals), len(p.V))
	}
	for len(vals) < m {
		vals = append(vals[:len(vals):len(vals)], ref.Int(0))
	}
	r, err := ref.Parse(encode(p, true))
	c.Must(err, "encoding")
	add := func(q P, what string) {
		b.add(c, q, fmt.Sprintf("the blinding factor of %s of %s", what, name))
		list = append(list, q)
	}
	for i := range p.V {
		q := ref.PMul(ref.BlindBase(), p.V[i].BlindingFactor)
		if !ref.PEq(ref.PSub(p.V[i].Value, ref.PMul(ref.ValueBase(), vals[i])), q) {
			c.Fatalf("%s: commitment %d does not open", name, i)
		}
		add(q, fmt.Sprint("commitment ", i))
	}
	y, z, x := r.Challenges()
	aL, aR := ref.BitsOf(vals)
	alpha := ref.PSub(r.A, ref.VecCommit(aL, aR))
	add(alpha, "A")
	rho := ref.PMul(ref.PSub(ref.PMul(ref.BlindBase(), r.Mu), alpha), ref.Inv(x))
	add(rho, "S")
	sL, sR, how := explain(c, rec.scalars(), ref.PSub(r.S, rho), m)
	switch how {
	case "independent":
		t1, t2 := ref.Terms(aL, aR, sL, sR, y, z)
		add(ref.PSub(r.T1, ref.PMul(ref.ValueBase(), t1)), "T1")
		add(ref.PSub(r.T2, ref.PMul(ref.ValueBase(), t2)), "T2")
	case "":
	default:
		c.Fatalf("%s: the blinding vectors in S are not independent: %s", name, how)
	}
	c.Label("S explained: " + how)
	// a lower bound for 2*64*m+m+4 independent scalars
	if need := 32 * (129*m + 4); rec.total < need {
		c.Fatalf("%s: %d values need at least %d random bytes, %d were drawn", name, m, need, rec.total)
	}
	return list
}

func TestC27_Proofs(t *testing.T) {
	hx.Check(t, hx.N{Quick: 240, Thorough: 12000},
		"histories of 2..3 range proofs over 1..4 amounts, the same or others, with commitments in between: the blinding of every commitment, of A, S, T1 and T2 (as multiples of the blinding base, computed with the amounts) is non-zero, never the same, opposite, next to or double another's; the vectors in S are independent of each other; no point or scalar of the proofs occurs twice; with the same bytes from crypto/rand the blinding is the same; non-trivial: all",
		func(c *hx.C) {
			n := c.Int(2, 3, "proofs")
			b := &blinding{seen: map[string]string{}}
			visible := map[string]string{}
			see := func(v []byte, what string) {
				if w, dup := visible[string(v)]; dup {
					c.Fatalf("%s is the same as %s", what, w)
				}
				visible[string(v)] = what
			}
			var vals []S
			src := rand.Reader
			defer func() { rand.Reader = src }()
			desc := ""
			for k := 0; k < n; k++ {
				if k == 0 || c.Bool("other amounts") {
					vals = nil
					for i := hx.Choose(c, "amounts", 1, 1, 1, 1, 2, 2, 3, 4); i > 0; i-- {
						vals = append(vals, amt(drawAmount(c, "amount")))
					}
					if len(vals) > 1 && c.Bool("equal") {
						vals[1] = vals[0]
					}
				}
				desc += fmt.Sprint(" ", len(vals))
				// bytes from the case's stream, recorded
				rec := &recorder{src: hx.NewStream("proof", ref.Val(rnd(c)), k)}
				rand.Reader = rec
				p, err := rangeproof.Prove(vals, false)
				c.Must(err, "Prove")
				name := fmt.Sprintf("proof %d", k)
				list := inspect(c, b, &p, vals, rec, name)
				r, err := ref.Parse(encode(&p, true))
				c.Must(err, "encoding")
				for i, v := range r.V {
					see(v.Bytes(), fmt.Sprintf("V%d of %s", i, name))
				}
				for i := range r.L {
					see(r.L[i].Bytes(), fmt.Sprintf("L%d of %s", i, name))
					see(r.R[i].Bytes(), fmt.Sprintf("R%d of %s", i, name))
				}
				for i, q := range []P{r.A, r.S, r.T1, r.T2} {
					see(q.Bytes(), fmt.Sprintf("%s of %s", []string{"A", "S", "T1", "T2"}[i], name))
				}
				for i, q := range []S{r.Taux, r.Mu, r.T, r.Aip, r.Bip} {
					see(q.Bytes(), fmt.Sprintf("%s of %s", []string{"taux", "mu", "t", "a", "b"}[i], name))
				}
				if k == 0 && c.Chance(3, "again") {
					again := &recorder{}
					for _, x := range rec.reads {
						again.reads = append(again.reads, x)
					}
					rand.Reader = &replayer{again.reads, hx.NewStream("more")}
					q, err := rangeproof.Prove(vals, false)
					c.Must(err, "Prove")
					b2 := &blinding{seen: map[string]string{}}
					l2 := inspect(c, b2, &q, vals, rec, name)
					if len(l2) != len(list) {
						c.Fatalf("%s: made again from the same randomness, it is different", name)
					}
					for i := range list {
						if !ref.PEq(list[i], l2[i]) {
							c.Fatalf("%s: blinding factor %d is not determined by the randomness drawn", name, i)
						}
					}
				}
				if c.Bool("commit") {
					ped := pedersen.New([]byte("dusk.BulletProof.vec1"))
					cm := ped.CommitToScalar(vals[0])
					b.add(c, ref.PMul(ref.BlindBase(), cm.BlindingFactor), "a commitment's blinding factor")
					see(cm.Value.Bytes(), "a commitment")
					desc += "+"
				}
			}
			c.NT(n, desc, ref.Val(vals[0]))
			c.Note("proofs over%s amounts", desc)
		})
}

type replayer struct {
	reads [][]byte
	rest  io.Reader
}

func (r *replayer) Read(p []byte) (int, error) {
	if len(r.reads) == 0 {
		return r.rest.Read(p)
	}
	n := copy(p, r.reads[0])
	if n == len(r.reads[0]) {
		r.reads = r.reads[1:]
	} else {
		r.reads[0] = r.reads[0][n:]
	}
	return n, nil
}

func TestC27_Commitments(t *testing.T) {
	hx.Check(t, hx.N{Quick: 160, Thorough: 8000},
		"120 commitments to equal and different scalars and vectors by one or two committers in turn: blinding factors are non-zero, at least 2^180 apart, each bit is set half the time; no two commitments are the same, and repeating them with the same bytes from crypto/rand gives the same ones; non-trivial: all",
		func(c *hx.C) {
			label := hx.Choose(c, "label", []byte("a"), []byte("dusk.BulletProof.vec1"), c.Bytes(9))
			peds := []*pedersen.Pedersen{pedersen.New(label), pedersen.New([]byte("other"))}[:c.Int(1, 2, "committers")]
			v := drawScalar(c, "v")
			same := c.Bool("same value")
			vectors := c.Pick(3, "vectors") // none, some, all
			var vals, blinds []S
			var kinds []int
			for i := 0; i < 120; i++ {
				if !same {
					v = drawAny(c)
				}
				vals = append(vals, v)
				k := 0
				if vectors == 2 || vectors == 1 && c.Src.IntN(2) == 0 {
					k = 1 + c.Src.IntN(3)
				}
				kinds = append(kinds, k)
			}
			run := func() []pedersen.Commitment {
				rand.Reader = hx.NewStream("commitments", ref.Val(vals[0]), same)
				var out []pedersen.Commitment
				for i, v := range vals {
					p := peds[i%len(peds)]
					switch kinds[i] {
					case 0:
						out = append(out, p.CommitToScalar(v))
					case 1:
						out = append(out, p.CommitToVectors([]S{v}))
					case 2:
						out = append(out, p.CommitToVectors())
					default:
						out = append(out, p.CommitToVectors([]S{v, v}, []S{v}))
					}
				}
				return out
			}
			one, two := run(), run()
			seen := map[string]int{}
			for i := range one {
				blinds = append(blinds, one[i].BlindingFactor)
				if j, dup := seen[string(one[i].Value.Bytes())]; dup {
					c.Fatalf("commitments %d and %d are the same", j, i)
				}
				seen[string(one[i].Value.Bytes())] = i
				if !ref.Eq(one[i].BlindingFactor, two[i].BlindingFactor) {
					c.Fatalf("blinding factor %d is not determined by the randomness drawn", i)
				}
			}
			if msg := fresh(blinds); msg != "" {
				c.Fatalf("blinding factors: %s", msg)
			}
			c.NT(len(peds), same, vectors, ref.Val(v))
			c.Note("%d committers, same value %v, vectors %d", len(peds), same, vectors)
		})
}

func drawAny(c *hx.C) S {
	if c.Src.IntN(3) == 0 {
		return ref.Int(int64(c.Src.IntN(3)))
	}
	return rnd(c)
}

// fresh complains about values that are zero, repeated, or close to each
// other; all of them are meant to be random scalars.
func fresh(vals []S) string {
	type at struct {
		v *big.Int
		i int
	}
	var l []at
	for i, s := range vals {
		if ref.IsZero(s) {
			return fmt.Sprintf("value %d is zero", i)
		}
		l = append(l, at{ref.Val(s), i})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v.Cmp(l[j].v) < 0 })
	for i := 1; i < len(l); i++ {
		if d := new(big.Int).Sub(l[i].v, l[i-1].v); d.BitLen() < 180 {
			return fmt.Sprintf("values %d and %d differ by %v", l[i-1].i, l[i].i, d)
		}
	}
	n := len(vals)
	dev := 7.1 * math.Sqrt(float64(n)) / 2
	for b := 0; b < 252 && n >= 100; b++ {
		k := 0
		for _, a := range l {
			k += int(a.v.Bit(b))
		}
		if math.Abs(float64(k)-float64(n)/2) > dev {
			return fmt.Sprintf("bit %d is set in %d of %d", b, k, n)
		}
	}
	return ""
}

// linear tells whether scalars are drawn the way the group's library does: the
// lowest bit of a byte counts a power of 256. (Commitments tell.)
func linear(c *hx.C) bool {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	var b [2]S
	for i := range b {
		rand.Reader = &hx.Tampered{R: hx.NewStream("linear"), At: 17, By: byte(i)}
		b[i] = pedersen.New([]byte("l")).CommitToScalar(ref.Int(1)).BlindingFactor
	}
	d := ref.PMul(ref.Base(), ref.Sub(b[0], b[1]))
	return oneTerm(d, []P{ref.Base()})
}

var powers = func() (l []S) {
	x := ref.Int(1)
	for range 64 {
		l = append(l, x)
		x = ref.Mul(x, ref.Int(256))
	}
	return
}()

// oneTerm tells whether d is plus or minus a power of 256 times one of the bases.
func oneTerm(d P, bases []P) bool {
	terms := map[string]bool{}
	for _, b := range bases {
		terms[string(b.Bytes())] = true
	}
	for _, p := range powers {
		x := ref.PMul(d, ref.Inv(p))
		y := ref.PSub(ref.Zero(), x)
		if terms[string(x.Bytes())] || terms[string(y.Bytes())] {
			return true
		}
	}
	return false
}

// useful counts the values drawn for a proof (reads of up to 64 bytes, or 32
// bytes of longer ones) that make a difference to it, and says how many scalars
// a proof needs: one for each commitment, A, S, T1, T2 and entry of sL and sR.
func useful(c *hx.C, vals []S, seed uint64) (got, need int) {
	m := pow2(len(vals))
	need = 129*m + 4
	make := func(at int) []byte {
		rand.Reader = &hx.Tampered{R: hx.NewStream("one draw", seed), At: at, By: 1}
		p, err := rangeproof.Prove(vals, false)
		c.Must(err, "Prove")
		return encode(&p, true)
	}
	rec := &recorder{src: hx.NewStream("one draw", seed)}
	rand.Reader = rec
	p, err := rangeproof.Prove(vals, false)
	c.Must(err, "Prove")
	want := encode(&p, true)
	var at []int
	off := 0
	for _, r := range rec.reads {
		step := len(r)
		if step > 64 {
			step = 32
		}
		for i := 0; i < len(r); i += step {
			at = append(at, off+i)
		}
		off += len(r)
	}
	// in an order that meets waste anywhere soon; no more than needed
	c.Src.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
	spare := len(at) - need
	for _, i := range at {
		if got == need || spare < 0 {
			break
		}
		if bytes.Equal(make(i), want) {
			spare--
		} else {
			got++
		}
	}
	if spare < 0 {
		got = need + spare // at most
	}
	return
}

func TestC27_OneDraw(t *testing.T) {
	hx.Check(t, hx.N{Quick: 160, Thorough: 12000},
		"pairs of proofs over 1..3 amounts made with bytes from crypto/rand that differ in one place: if as many bytes are drawn, at most one of the commitments, A and S differs, and at most one of T1 and T2 if none of them does, so that no blinding factor is derived from another; where a single bit differs, the difference is that of one term of the commitment (one entry of sL or sR, or the blinding factor); where nothing differs, enough of the other draws do make a difference for every blinding factor and every entry of sL and sR to have its own; non-trivial: one differs",
		func(c *hx.C) {
			var vals []S
			for i := hx.Choose(c, "amounts", 1, 1, 2, 2, 3); i > 0; i-- {
				vals = append(vals, amt(drawAmount(c, "amount")))
			}
			var drawn [2]int
			var rs [2]*ref.Range
			at, by := -1, byte(0)
			seed := c.Src.Uint64()
			for k := range rs {
				src := &hx.Tampered{R: hx.NewStream("one draw", seed), At: at, By: by}
				rand.Reader = src
				p, err := rangeproof.Prove(vals, false)
				c.Must(err, "Prove")
				rs[k], err = ref.Parse(encode(&p, true))
				c.Must(err, "encoding")
				drawn[k] = src.N
				if k == 1 {
					break
				}
				// most of what is drawn is for S; the rest at the beginning and the end
				at = int(c.Bits(30, "at")) % max(drawn[0], 1)
				switch near := c.Pick(64*(len(vals)+3), "near"); c.Pick(3, "where") {
				case 0:
					at = min(near, drawn[0]-1)
				case 1:
					at = max(drawn[0]-1-near, 0)
				}
				by = byte(1 + c.Pick(255, "by"))
				if c.Chance(2, "lowest bit") {
					by = 1
				}
			}
			if drawn[0] != drawn[1] {
				return
			}
			a, b := rs[0], rs[1]
			var first, second []string
			for i := range a.V {
				if !ref.PEq(a.V[i], b.V[i]) {
					first = append(first, fmt.Sprint("V", i))
				}
			}
			if !ref.PEq(a.A, b.A) {
				first = append(first, "A")
			}
			if !ref.PEq(a.S, b.S) {
				first = append(first, "S")
			}
			if !ref.PEq(a.T1, b.T1) {
				second = append(second, "T1")
			}
			if !ref.PEq(a.T2, b.T2) {
				second = append(second, "T2")
			}
			if len(first) > 1 || len(first) == 0 && len(second) > 1 {
				c.Fatalf("%d amounts, one byte of randomness other: %v %v other", len(vals), first, second)
			}
			if by == 1 && len(first) == 1 && linear(c) {
				x, y, bases := a.A, b.A, []P{ref.BlindBase()}
				switch first[0] {
				case "A":
				case "S":
					x, y = a.S, b.S
					bases = append(append(bases, ref.Gens("dusk.BulletProof.vec1", 64*len(a.V))...), ref.Gens("dusk.BulletProof.vec1\x01", 64*len(a.V))...)
				default:
					for i := range a.V {
						if !ref.PEq(a.V[i], b.V[i]) {
							x, y = a.V[i], b.V[i]
						}
					}
				}
				if !oneTerm(ref.PSub(x, y), bases) {
					c.Fatalf("%d amounts, one bit of randomness other: %v differs by more than one of its terms", len(vals), first)
				}
				c.Label("one term")
			}
			if len(first)+len(second) > 0 {
				c.NT(len(vals), first, len(second), seed)
			} else if got, need := useful(c, vals, seed); got < need {
				c.Fatalf("%d amounts: of the values drawn at most %d make a difference, %d are needed", len(vals), got, need)
			}
			c.Label(fmt.Sprint(first))
			c.Note("%d amounts: %v", len(vals), first)
		})
}

func TestC27_Entropy(t *testing.T) {
	hx.Check(t, hx.N{Quick: 160, Thorough: 8000},
		"a commitment to a scalar or to vectors, made again with each byte from crypto/rand changed in turn: the blinding factor depends on at least 16 of them; proofs over 1..4 amounts draw at least 16 bytes for each commitment, for A, S, T1, T2 and for each entry of sL and sR; non-trivial: all",
		func(c *hx.C) {
			seed := c.Src.Uint64()
			if c.Chance(4, "proof") {
				var vals []S
				for i := c.Int(1, 4, "amounts"); i > 0; i-- {
					vals = append(vals, amt(drawAmount(c, "amount")))
				}
				src := &hx.Tampered{R: hx.NewStream("entropy", seed), At: -1}
				rand.Reader = src
				_, err := rangeproof.Prove(vals, false)
				c.Must(err, "Prove")
				if need := 16 * (129*pow2(len(vals)) + 4); src.N < need {
					c.Fatalf("a proof over %d amounts is made of %d random bytes, not %d", len(vals), src.N, need)
				}
				c.NT(len(vals), seed)
				c.Note("%d amounts: %d bytes", len(vals), src.N)
				return
			}
			v := drawScalar(c, "v")
			kind := c.Pick(3, "kind")
			by := byte(1 + c.Pick(255, "by"))
			label := c.Bytes(9)
			run := func(at int) (S, int) {
				src := &hx.Tampered{R: hx.NewStream("entropy", seed), At: at, By: by}
				rand.Reader = src
				p := pedersen.New(label)
				var com pedersen.Commitment
				switch kind {
				case 0:
					com = p.CommitToScalar(v)
				case 1:
					com = p.CommitToVectors([]S{v})
				default:
					com = p.CommitToVectors()
				}
				return com.BlindingFactor, src.N
			}
			want, drawn := run(-1)
			n := 0
			for at := 0; at < drawn && n < 16; at++ {
				if b, _ := run(at); !ref.Eq(want, b) {
					n++
				}
			}
			if n < 16 {
				c.Fatalf("a blinding factor depends on %d of %d random bytes", n, drawn)
			}
			c.NT(kind, seed)
			c.Note("kind %d: %d bytes", kind, drawn)
		})
}
