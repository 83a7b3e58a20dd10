package merkle

import (
	"bytes"
	"errors"
	mrand "math/rand/v2"
	"testing"

	"github.com/dusk-network/dusk-crypto/merkletree"
	"verif/harness/hx"
)

func TestC22_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 800, Thorough: 20000}) }
func TestC23_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 800, Thorough: 20000}) }
func TestC24_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 800, Thorough: 20000}) }
func TestC29_ConcurrentJobs(t *testing.T) { hx.Together(t, hx.N{Quick: 400, Thorough: 10000}) }
func TestC29_Mixed(t *testing.T)          { hx.Mixed(t, hx.N{Quick: 12, Thorough: 600}) }

type fails struct{}

func (fails) CalculateHash() ([]byte, error) { return nil, errors.New("no hash") }

func rlist(r *mrand.Rand) (l []plain, pl []merkletree.Payload) {
	for i := 1 + r.IntN(20); i > 0; i-- {
		b := make([]byte, 12)
		for k := range b {
			b[k] = byte(r.Uint32())
		}
		l, pl = append(l, plain(b)), append(pl, plain(b))
	}
	return
}

func text(o any) (string, []string) { return o.(string), nil }

func init() {
	hx.Jobs(
		hx.Job{Name: "build", Props: "C22", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			l, pl := rlist(r)
			root := plainRoot(l)
			bad := append(append([]merkletree.Payload{}, pl...), fails{})
			return func() any {
				t, err := merkletree.NewTree(pl)
				if err != nil || !bytes.Equal(t.MerkleRoot, root) {
					return "another root"
				}
				if _, err := merkletree.NewTree(bad); err == nil {
					return "unhashable payload accepted"
				}
				return ""
			}, text
		}},
		hx.Job{Name: "verify", Props: "C23", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			l, pl := rlist(r)
			other := plain(string(l[0]) + "x")
			i := r.IntN(len(l))
			return func() any {
				t, err := merkletree.NewTree(pl)
				if err != nil {
					return err.Error()
				}
				if ok, err := merkletree.VerifyTree(t); !ok || err != nil {
					return "intact tree refused"
				}
				if ok, err := t.VerifyContent(l[i]); !ok || err != nil {
					return "member refused"
				}
				if ok, err := t.VerifyContent(other); ok || err != nil {
					return "stranger confirmed"
				}
				t.Leaves[i].Data = other
				if ok, _ := merkletree.VerifyTree(t); ok {
					return "altered tree accepted"
				}
				return ""
			}, text
		}},
		hx.Job{Name: "rebuild", Props: "C24", Prep: func(r *mrand.Rand) (func() any, func(any) (string, []string)) {
			a, pa := rlist(r)
			b, pb := rlist(r)
			ra, rbb := plainRoot(a), plainRoot(b)
			bad := append(append([]merkletree.Payload{}, pb...), fails{})
			return func() any {
				t, err := merkletree.NewTree(pa)
				if err != nil {
					return err.Error()
				}
				if err := t.RebuildTree(); err != nil || !bytes.Equal(t.MerkleRoot, ra) {
					return "rebuilt tree differs"
				}
				if err := t.RebuildTreeUsing(bad); err == nil || !bytes.Equal(t.MerkleRoot, ra) {
					return "failed rebuild changed the tree"
				}
				if err := t.RebuildTreeUsing(pb); err != nil || !bytes.Equal(t.MerkleRoot, rbb) {
					return "tree rebuilt with new payloads differs"
				}
				return ""
			}, text
		}},
	)
}
