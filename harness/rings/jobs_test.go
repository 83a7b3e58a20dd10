package rings

import (
	"bytes"
	"fmt"
	mrand "math/rand/v2"
	"testing"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
	"verif/harness/hx"
	"verif/harness/ref"
)

func TestC15_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC16_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC17_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC19_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC20_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC21_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC26_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC27_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC28_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC29_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 12000}) }
func TestC29_Mixed(t *testing.T)          { hx.Mixed(t, hx.N{Quick: 16, Thorough: 800}) }

func rb(r *mrand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

func rsc(r *mrand.Rand) S { return ref.HashS(rb(r, 40)) }

// prepared is what a signer starts from.
type prepared struct {
	secrets []S
	decoys  [][]P
	msg     []byte
}

func prepare(r *mrand.Rand, s scheme) *prepared {
	p := &prepared{msg: rb(r, r.IntN(150))}
	for i := 0; i < s.keys; i++ {
		p.secrets = append(p.secrets, rsc(r))
	}
	for i := r.IntN(5); i > 0; i-- {
		var row []P
		for j := 0; j < s.keys; j++ {
			row = append(row, stock[r.IntN(len(stock))])
		}
		p.decoys = append(p.decoys, row)
	}
	return p
}

// signed by the independent signer
func (p *prepared) signed(r *mrand.Rand) (*ref.Ring, []P) {
	g := ref.RingSigner{Rand: func() S { return rsc(r) }, Secrets: p.secrets, Decoys: p.decoys, Pos: r.IntN(len(p.decoys) + 1), Msg: p.msg}
	s := g.Sign()
	return s, g.OutImages
}

type result struct {
	r   *ref.Ring
	im  []P
	err error
}

func signJob(s scheme, props string) hx.Job {
	return hx.Job{Name: s.name + " sign", Props: props, Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
		p := prepare(r, s)
		// the concurrent part must not share what sign may write to
		return func() any {
				sig, im, err := s.sign(p.secrets, p.decoys, p.msg)
				return result{sig, im, err}
			}, func(o any) (string, []string) {
				x := o.(result)
				if x.err != nil {
					return fmt.Sprint("error: ", x.err), nil
				}
				if len(x.im) != 1 || !ref.PEq(x.im[0], ref.KeyImage(p.secrets[0])) {
					return "another key image", nil
				}
				if !sameRing(x.r.K, append(append([][]P{}, p.decoys...), pubOf(p.secrets))) {
					return "another ring", nil
				}
				if !bytes.Equal(x.r.Msg, p.msg) {
					return "another message", nil
				}
				if !x.r.Verify(x.im) {
					return "does not verify", nil
				}
				var fresh []string
				for _, row := range x.r.R {
					for _, v := range row {
						fresh = append(fresh, string(v.Bytes()))
					}
				}
				for _, v := range nonces(x.r, x.im, p.secrets) {
					fresh = append(fresh, string(v.Bytes()))
				}
				return "", fresh
			}
	}}
}

func verifyJob(s scheme, props string) hx.Job {
	return hx.Job{Name: s.name + " verify", Props: props, Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
		p := prepare(r, s)
		sig, im := p.signed(r)
		want := true
		if r.IntN(2) == 0 {
			want = false
			switch r.IntN(4) {
			case 0:
				sig.Msg = append(append([]byte{}, sig.Msg...), 0)
			case 1:
				sig.R[r.IntN(len(sig.R))][r.IntN(s.keys)] = rsc(r)
			case 2:
				sig.C = rsc(r)
			default:
				im = []P{ref.KeyImage(rsc(r))}
			}
		}
		return func() any { return s.verify(sig, im) }, func(o any) (string, []string) {
			if o.(bool) != want {
				return fmt.Sprint("verdict is ", o), nil
			}
			return "", nil
		}
	}}
}

func init() {
	hx.Jobs(
		signJob(mlsagS, "C15 C17 C27"),
		signJob(blsagS, "C17 C20 C27"),
		verifyJob(mlsagS, "C15 C16"),
		verifyJob(blsagS, "C20 C21"),
		hx.Job{Name: "mlsag sign and verify", Props: "C15", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			p := prepare(r, mlsagS)
			return func() any {
					sig, im, err := signM(p.secrets, p.decoys, p.msg)
					return err == nil && verifyM(sig, im)
				}, func(o any) (string, []string) {
					if !o.(bool) {
						return "not accepted", nil
					}
					return "", nil
				}
		}},
		hx.Job{Name: "blsag sign and verify", Props: "C20", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			p := prepare(r, blsagS)
			return func() any {
					sig, im, err := signB(p.secrets, p.decoys, p.msg)
					return err == nil && verifyB(sig, im)
				}, func(o any) (string, []string) {
					if !o.(bool) {
						return "not accepted", nil
					}
					return "", nil
				}
		}},
		hx.Job{Name: "key image", Props: "C17", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			x := rsc(r)
			pub, want := ref.PMul(ref.Base(), x), ref.KeyImage(x)
			return func() any { return mlsag.CalculateKeyImage(x, pub) }, func(o any) (string, []string) {
				if !ref.PEq(o.(P), want) {
					return "another image", nil
				}
				return "", nil
			}
		}},
		hx.Job{Name: "mlsag codec", Props: "C19 C28", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			p := prepare(r, mlsagS)
			sig, _ := p.signed(r)
			b := sig.Bytes(true)
			want := ""
			switch r.IntN(4) {
			case 0:
				b, want = b[:r.IntN(len(b))], "refused"
			case 1: // the last key is no point
				for i := range 32 {
					b[len(b)-1-i] = 0xff
				}
				want = "refused"
			}
			return func() any {
					var s mlsag.Signature
					if err := s.Decode(bytes.NewReader(b), true); err != nil {
						return []byte("refused")
					}
					return sigBytes(&s, true)
				}, func(o any) (string, []string) {
					if want == "" && !bytes.Equal(o.([]byte), b) || want != "" && string(o.([]byte)) != want {
						return "decoded and encoded differs", nil
					}
					return "", nil
				}
		}},
		hx.Job{Name: "mlsag equals", Props: "C26", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			p := prepare(r, mlsagS)
			sig, _ := p.signed(r)
			b := sig.Bytes(true)
			want := r.IntN(2) == 0
			if !want {
				sig.R[r.IntN(len(sig.R))][r.IntN(2)] = rsc(r)
			}
			b2 := sig.Bytes(true)
			return func() any {
					var s, q mlsag.Signature
					if s.Decode(bytes.NewReader(b), true) != nil || q.Decode(bytes.NewReader(b2), true) != nil {
						return !want
					}
					return s.Equals(q, true)
				}, func(o any) (string, []string) {
					if o.(bool) != want {
						return fmt.Sprint("says ", o), nil
					}
					return "", nil
				}
		}},
	)
	_ = blsag.Verify
}
