package rp

import (
	"bytes"
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"verif/harness/hx"
	"verif/harness/ref"
)

func TestC05_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 100, Thorough: 4000}) }
func TestC06_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 100, Thorough: 4000}) }
func TestC07_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 100, Thorough: 4000}) }
func TestC08_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 300, Thorough: 12000}) }
func TestC09_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 100, Thorough: 4000}) }
func TestC10_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 300, Thorough: 12000}) }
func TestC11_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 300, Thorough: 12000}) }
func TestC12_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 300, Thorough: 12000}) }
func TestC13_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 300, Thorough: 12000}) }
func TestC14_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 300, Thorough: 12000}) }
func TestC26_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 300, Thorough: 12000}) }
func TestC27_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 100, Thorough: 4000}) }
func TestC28_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 300, Thorough: 12000}) }
func TestC29_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 160, Thorough: 8000}) }
func TestC29_Mixed(t *testing.T)          { hx.Mixed(t, hx.N{Quick: 24, Thorough: 1200}) }

func rb(r *mrand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

func rsc(r *mrand.Rand) S { return ref.HashS(rb(r, 40)) }

func rvec(r *mrand.Rand, n int) []S {
	out := make([]S, n)
	for i := range out {
		out[i] = rsc(r)
	}
	return out
}

// proven by the independent prover, or altered afterwards
func proven(r *mrand.Rand, alter bool) []byte {
	p := ref.Prover{Rand: func() S { return rsc(r) }, Values: []S{amt(r.Uint64() >> r.IntN(64))}}
	x := p.Prove()
	if alter {
		switch r.IntN(6) {
		case 0:
			x.V[0] = ref.PAdd(x.V[0], ref.Base())
		case 1:
			x.A, x.S = x.S, x.A
		case 2:
			x.T1, x.T2 = x.T2, x.T1
		case 3:
			x.L[r.IntN(len(x.L))] = ref.Base()
		default:
			x.T = ref.Add(x.T, ref.Int(1))
		}
	}
	return x.Bytes()
}

type prepFunc = func(r *mrand.Rand) (func() any, func(any) (string, []string))

func want[V comparable](w V) func(any) (string, []string) {
	return func(o any) (string, []string) {
		if o.(V) != w {
			return fmt.Sprintf("gives %v instead of %v", o, w), nil
		}
		return "", nil
	}
}

func init() {
	hx.Jobs(
		hx.Job{Name: "prove", Props: "C05 C07 C09 C27", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			var vs []S
			for i := 1 + r.IntN(2); i > 0; i-- {
				vs = append(vs, amt(r.Uint64()>>r.IntN(64)))
			}
			type res struct {
				p   rangeproof.Proof
				ok  bool
				err error
			}
			return func() any {
					p, err := rangeproof.Prove(vs, false)
					if err != nil {
						return res{err: err}
					}
					ok, err := rangeproof.Verify(p)
					return res{p, ok, err}
				}, func(o any) (string, []string) {
					x := o.(res)
					if !x.ok || x.err != nil {
						return fmt.Sprint("proved and verified: ", x.err), nil
					}
					var fresh []string
					for i := range vs {
						if !ref.PEq(x.p.V[i].Value, ref.Commit(vs[i], x.p.V[i].BlindingFactor)) {
							return "a commitment does not open", nil
						}
						fresh = append(fresh, string(x.p.V[i].BlindingFactor.Bytes()))
					}
					q, err := ref.Parse(encode(&x.p, true))
					if err != nil || q.Verify() != nil {
						return "not accepted by the independent verifier", nil
					}
					return "", append(fresh, string(x.p.A.Bytes()), string(x.p.S.Bytes()), string(x.p.T1.Bytes()), string(x.p.T2.Bytes()))
				}
		}},
		hx.Job{Name: "verify", Props: "C09", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			alter := r.IntN(2) == 0
			b := proven(r, alter)
			return func() any { return accepts(b) }, want(!alter)
		}},
		hx.Job{Name: "verify altered", Props: "C06 C07", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			b := proven(r, true)
			return func() any { return accepts(b) }, want(false)
		}},
		hx.Job{Name: "prove and alter", Props: "C06 C07", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			v := []S{amt(r.Uint64() >> r.IntN(64))}
			by := ref.PMul(ref.Base(), rsc(r))
			k := r.IntN(3)
			return func() any {
				p, err := rangeproof.Prove(v, false)
				if err != nil {
					return "Prove fails"
				}
				ok, _ := rangeproof.Verify(p)
				q := p
				switch k {
				case 0:
					q.V = append([]pedersen.Commitment{}, p.V...)
					q.V[0].Value.Add(&q.V[0].Value, &by)
				case 1:
					q.A.Add(&q.A, &by)
				default:
					q.T1.Add(&q.T1, &by)
				}
				wrong, _ := rangeproof.Verify(q)
				again, _ := rangeproof.Verify(p)
				return fmt.Sprint(ok, wrong, again)
			}, want("true false true")
		}},
		hx.Job{Name: "codec", Props: "C08 C28", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			x := &ref.Range{}
			pt := func() P { return ref.PMul(ref.Base(), rsc(r)) }
			for i := r.IntN(4); i > 0; i-- {
				x.V = append(x.V, pt())
			}
			x.A, x.S, x.T1, x.T2 = pt(), pt(), pt(), pt()
			x.Taux, x.Mu, x.T, x.Aip, x.Bip = rsc(r), rsc(r), rsc(r), rsc(r), rsc(r)
			for i := r.IntN(4); i > 0; i-- {
				x.L, x.R = append(x.L, pt()), append(x.R, pt())
			}
			b := x.Bytes()
			w := string(b)
			switch r.IntN(4) {
			case 0:
				// A cut between two of the last points leaves a proof of fewer
				// rounds, which is well-formed: the number of rounds is not
				// written down. Everywhere else a cut is an incomplete proof.
				n := r.IntN(len(b))
				if fixed := 4 + 32*len(x.V) + 9*32; n >= fixed && (n-fixed)%32 == 0 {
					n--
				}
				b, w = b[:n], "refused"
			}
			return func() any {
				p, err := decode(b, true)
				if err != nil {
					return "refused"
				}
				return string(encode(&p, true))
			}, want(w)
		}},
		hx.Job{Name: "garbage", Props: "C28", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			b := rb(r, r.IntN(900))
			if len(b) > 4 {
				copy(b, []byte{0, 0, 0, byte(r.IntN(4))})
			}
			return func() any { return accepts(b) }, want(false)
		}},
		hx.Job{Name: "equals", Props: "C26", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			same := r.IntN(2) == 0
			a := proven(r, false)
			b := a
			if !same {
				x, _ := ref.Parse(a)
				x.Mu = rsc(r)
				b = x.Bytes()
			}
			return func() any {
				p, err1 := decode(a, true)
				q, err2 := decode(b, true)
				return p.Equals(q, true) && err1 == nil && err2 == nil
			}, want(same)
		}},
		hx.Job{Name: "inner product", Props: "C10", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			n := 1 << r.IntN(4)
			x := &ipCase{G: ref.Gens("G", n), H: ref.Gens("H", n), a: rvec(r, n), b: rvec(r, n), hf: ref.Pow(rsc(r), n), Q: ref.Base()}
			x.P = ipSum(x.G, x.H, x.a, x.b, x.hf, x.Q)
			y := *x
			wrong := r.IntN(2) == 0
			if wrong {
				y.P = ref.PAdd(x.P, ref.Base())
			}
			type res struct {
				p   *innerproduct.Proof
				ok  bool
				err error
			}
			return func() any {
					p, err := x.generate()
					if err != nil {
						return res{err: err}
					}
					return res{p, y.verify(p), nil}
				}, func(o any) (string, []string) {
					q := o.(res)
					if q.err != nil || q.ok == wrong || !x.refVerify(q.p) {
						return fmt.Sprint("wrong proof or verdict ", q.err), nil
					}
					return "", nil
				}
		}},
		hx.Job{Name: "commit", Props: "C11 C27", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			label := []byte(fmt.Sprint("label", r.IntN(6)))
			var vs [][]S
			for i := 1 + r.IntN(3); i > 0; i-- {
				vs = append(vs, rvec(r, r.IntN(5)))
			}
			v := rsc(r)
			return func() any {
					p := pedersen.New(label)
					return []pedersen.Commitment{p.CommitToVectors(vs...), p.CommitToScalar(v), p.CommitToVectors(vs...)}
				}, func(o any) (string, []string) {
					l := o.([]pedersen.Commitment)
					var fresh []string
					for i, x := range l {
						w := refVectors(label, x.BlindingFactor, vs)
						if i == 1 {
							w = ref.Commit(v, x.BlindingFactor)
						}
						if !ref.PEq(x.Value, w) {
							return "a commitment does not open", nil
						}
						fresh = append(fresh, string(x.BlindingFactor.Bytes()))
					}
					return "", fresh
				}
		}},
		hx.Job{Name: "generators", Props: "C11 C12", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			label := fmt.Sprint("label", r.IntN(6))
			n := 1 + r.IntN(6)
			return func() any {
					g := generator.New([]byte(label))
					g.Compute(uint32(n))
					p := g.Iterate()
					return append(append([]P{}, g.Bases...), p)
				}, func(o any) (string, []string) {
					if !samePoints(o.([]P), ref.Gens(label, n+1)) {
						return "other generators", nil
					}
					return "", nil
				}
		}},
		hx.Job{Name: "transcript", Props: "C12", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			a, b := rb(r, r.IntN(100)), rb(r, r.IntN(100))
			all := append(append([]byte{}, a...), b...)
			return func() any {
				var h fiatshamir.HashCacher
				h.Append(a)
				h.Append(b)
				d := h.Derive()
				return string(h.Result()) + string(d.Bytes())
			}, want(string(all) + func() string { s := ref.HashS(all); return string(s.Bytes()) }())
		}},
		hx.Job{Name: "vectors", Props: "C13", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			n := 1 + r.IntN(6)
			a, b, k := rvec(r, n), rvec(r, n), rsc(r)
			pts := ref.Gens("G", n)
			var w []S
			for i := range a {
				w = append(w, ref.Add(a[i], b[i]), ref.Sub(a[i], b[i]), ref.Mul(a[i], b[i]), ref.Mul(a[i], k), ref.Add(a[i], k), ref.Sub(a[i], k), ref.Neg(a[i]), k)
			}
			pow := ref.Pow(k, n)
			sum := ref.Int(0)
			for _, p := range pow {
				sum = ref.Add(sum, p)
			}
			w = append(w, pow...)
			w = append(w, sum, ref.Dot(a, b))
			e := ref.MExp(a, pts)
			return func() any {
					x1, e1 := vector.Add(a, b)
					x2, e2 := vector.Sub(a, b)
					x3, e3 := vector.Hadamard(a, b)
					x4, x5, x6, x7, x8 := vector.MulScalar(a, k), vector.AddScalar(a, k), vector.SubScalar(a, k), vector.Neg(a), vector.FromScalar(k, uint32(n))
					ip, e4 := vector.InnerProduct(a, b)
					p, e5 := vector.Exp(a, pts, n, 1)
					if e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil {
						return "error"
					}
					var out []S
					for i := 0; i < n; i++ {
						out = append(out, x1[i], x2[i], x3[i], x4[i], x5[i], x6[i], x7[i], x8[i])
					}
					out = append(out, vector.ScalarPowers(k, uint32(n))...)
					out = append(out, vector.ScalarPowersSum(k, uint64(n)), ip)
					if len(out) != len(w) {
						return "another length"
					}
					for i := range w {
						if !out[i].Equals(&w[i]) {
							return fmt.Sprint("entry ", i)
						}
					}
					if !p.Equals(&e) {
						return "Exp"
					}
					return ""
				}, func(o any) (string, []string) {
					return o.(string), nil
				}
		}},
		hx.Job{Name: "bits", Props: "C14", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			v := r.Uint64() >> r.IntN(64)
			other := v ^ 1<<r.IntN(64)
			return func() any {
					bc := rangeproof.BitCommit(new(big.Int).SetUint64(v))
					if err := bc.Debug(new(big.Int).SetUint64(v)); err != nil {
						return "self-check fails"
					}
					if bc.Debug(new(big.Int).SetUint64(other)) == nil {
						return "self-check passes for another amount"
					}
					var b bytes.Buffer
					for i := range bc.AL {
						b.Write(bc.AL[i].Bytes())
						b.Write(bc.AR[i].Bytes())
					}
					return b.String()
				}, func() func(any) (string, []string) {
					var b bytes.Buffer
					aL, aR := ref.BitsOf([]S{amt(v)})
					for i := range aL {
						b.Write(aL[i].Bytes())
						b.Write(aR[i].Bytes())
					}
					return want(b.String())
				}()
		}},
	)
}
