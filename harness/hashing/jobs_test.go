package hashing

import (
	"bytes"
	"fmt"
	mrand "math/rand/v2"
	"testing"

	"github.com/dusk-network/dusk-crypto/hash"
	"verif/harness/hx"
)

func TestC25_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 800, Thorough: 20000}) }
func TestC29_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 10000}) }
func TestC29_Mixed(t *testing.T)          { hx.Mixed(t, hx.N{Quick: 12, Thorough: 600}) }

func init() {
	hx.Jobs(
		hx.Job{Name: "hash", Props: "C25", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			b := make([]byte, r.IntN(300))
			for i := range b {
				b[i] = byte(r.Uint32())
			}
			w := map[string][]byte{}
			for _, n := range names {
				w[n] = funcs[n].ref(b)
			}
			sum := uint32(xxhash64(b) >> 32)
			return func() any {
				for _, n := range names {
					if got, err := funcs[n].f(b); err != nil || !bytes.Equal(got, w[n]) {
						return fmt.Sprint(n, " ", err)
					}
				}
				if s, err := hash.Checksum(b); err != nil || s != sum || !hash.CompareChecksum(b, sum) || hash.CompareChecksum(b, sum+1) {
					return "checksum"
				}
				return ""
			}, func(o any) (string, []string) { return o.(string), nil }
		}},
		hx.Job{Name: "entropy", Props: "C25", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			n := uint32(32 + r.IntN(100))
			return func() any {
					b, err := hash.RandEntropy(n)
					if err != nil || len(b) != int(n) {
						return ""
					}
					return string(b)
				}, func(o any) (string, []string) {
					s := o.(string)
					if s == "" {
						return "another number of bytes", nil
					}
					return "", []string{s[:16], s[len(s)-16:]}
				}
		}},
	)
}
