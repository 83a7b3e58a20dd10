package rings

import (
	"bytes"
	"fmt"
	"sort"
	"testing"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
	"verif/harness/hx"
	"verif/harness/ref"
)

type S = ref.S
type P = ref.P

func TestMain(m *testing.M) { hx.Main(m) }

var stock []P

func init() {
	for i := 0; i < 48; i++ {
		stock = append(stock, ref.HashP([]byte(fmt.Sprint("ring member", i))))
	}
}

func rnd(c *hx.C) S { return ref.HashS(c.Bytes(40)) }

func rndP(c *hx.C) P { return ref.HashP(c.Bytes(32)) }

// drawSecret draws a non-zero secret key, small and extreme ones too.
func drawSecret(c *hx.C, label string) S {
	switch c.Pick(8, label) {
	case 0:
		return ref.Int(int64(1 + c.Pick(3, label+".small")))
	case 1:
		return ref.Int(-1 - int64(c.Pick(3, label+".neg")))
	case 2: // few bits, few bytes
		k := c.Pick(252, label+".bits")
		return hx.Choose(c, label+".form", ref.Pow2(k), ref.Neg(ref.Pow2(k)), ref.Add(ref.Pow2(k), ref.Int(1)))
	default:
		return rnd(c)
	}
}

// drawMember draws the keys of a ring member.
func drawMember(c *hx.C, k int) []P {
	var out []P
	for i := 0; i < k; i++ {
		if c.Src.IntN(20) == 0 {
			out = append(out, ref.Zero())
		} else {
			out = append(out, stock[c.Src.IntN(len(stock))])
		}
	}
	return out
}

var more []P

// member is the i-th of a list of points that all differ.
func member(i int) P {
	if i < len(stock) {
		return stock[i]
	}
	for len(stock)+len(more) <= i {
		more = append(more, ref.HashP([]byte(fmt.Sprint("one more", len(more)))))
	}
	return more[i-len(stock)]
}

// decoys draws how many decoys a ring has: usually few, rarely many.
func decoys(c *hx.C, usual int) int {
	switch c.Pick(300, "ring size") {
	case 299:
		return c.Int(250, 262, "decoys")
	case 298, 297, 296, 295:
		return c.Int(usual+1, 140, "decoys")
	}
	return c.Int(0, usual, "decoys")
}

// distinctMembers draws n members that all differ.
func distinctMembers(c *hx.C, n, k int) [][]P {
	var out [][]P
	for i := 0; i < n; i++ {
		var row []P
		for j := 0; j < k; j++ {
			row = append(row, member(i*k+j))
		}
		out = append(out, row)
	}
	c.Src.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func pubKeys(ks []P) mlsag.PubKeys {
	var p mlsag.PubKeys
	for _, k := range ks {
		p.AddPubKey(k)
	}
	return p
}

func pkBytes(p mlsag.PubKeys) []byte {
	var b bytes.Buffer
	if err := p.Encode(&b); err != nil {
		panic(fmt.Sprint("Encode to memory fails: ", err))
	}
	return b.Bytes()
}

func rowBytes(ks []P) []byte {
	var b []byte
	for _, k := range ks {
		b = append(b, k.Bytes()...)
	}
	return b
}

func sigBytes(s *mlsag.Signature, keys bool) []byte {
	var b bytes.Buffer
	if err := s.Encode(&b, keys); err != nil {
		panic(fmt.Sprint("Encode to memory fails: ", err))
	}
	return b.Bytes()
}

// toRef reads a signature of the code through its encoding.
func toRef(s *mlsag.Signature) (*ref.Ring, error) {
	r, rest, err := ref.ParseRing(sigBytes(s, true), true)
	if err == nil && len(rest) != 0 {
		err = fmt.Errorf("%d bytes too many", len(rest))
	}
	if err == nil {
		r.Msg = s.Msg
	}
	return r, err
}

// fromRef makes a signature object; responses have to be of one length.
func fromRef(r *ref.Ring) (*mlsag.Signature, error) {
	var s mlsag.Signature
	err := s.Decode(bytes.NewReader(r.Bytes(false)), false)
	s.PubKeys = nil
	for _, k := range r.K {
		s.PubKeys = append(s.PubKeys, pubKeys(k))
	}
	s.Msg = r.Msg
	return &s, err
}

func verifyM(r *ref.Ring, images []P) bool {
	s, err := fromRef(r)
	if err != nil {
		return false
	}
	ok, _ := s.Verify(images)
	return ok
}

func verifyB(r *ref.Ring, images []P) bool {
	var s blsag.RingSignature
	s.C = r.C
	if len(images) > 0 {
		s.I = images[0]
	}
	for _, x := range r.R {
		s.S = append(s.S, x[0])
	}
	for _, k := range r.K {
		s.PubKeys = append(s.PubKeys, k[0])
	}
	return blsag.Verify(r.Msg, s)
}

func signM(secrets []S, decoys [][]P, msg []byte) (*ref.Ring, []P, error) {
	d := mlsag.NewDualKey()
	d.SetPrimaryKey(secrets[0])
	d.SetCommToZero(secrets[1])
	d.SetMsg(msg)
	for _, k := range decoys {
		d.AddDecoy(pubKeys(k))
	}
	s, im, err := d.Prove()
	if err != nil {
		return nil, nil, err
	}
	r, err := toRef(s)
	return r, []P{im}, err
}

func signB(secrets []S, decoys [][]P, msg []byte) (*ref.Ring, []P, error) {
	var mix []P
	for _, k := range decoys {
		mix = append(mix, k[0])
	}
	s := blsag.Sign(msg, mix, secrets[0])
	r := &ref.Ring{C: s.C, Msg: msg}
	for _, x := range s.S {
		r.R = append(r.R, []S{x})
	}
	for _, k := range s.PubKeys {
		r.K = append(r.K, []P{k})
	}
	return r, []P{s.I}, nil
}

type scheme struct {
	name   string
	keys   int
	sign   func(secrets []S, decoys [][]P, msg []byte) (*ref.Ring, []P, error)
	verify func(r *ref.Ring, images []P) bool
}

var (
	mlsagS = scheme{"mlsag", 2, signM, verifyM}
	blsagS = scheme{"blsag", 1, signB, verifyB}
)

func (s scheme) secrets(c *hx.C) []S {
	var out []S
	for i := 0; i < s.keys; i++ {
		out = append(out, drawSecret(c, "secret"))
	}
	return out
}

func pubOf(secrets []S) []P {
	var out []P
	for _, x := range secrets {
		out = append(out, ref.PMul(ref.Base(), x))
	}
	return out
}

// sameRing compares rings as multisets.
func sameRing(a, b [][]P) bool {
	key := func(r [][]P) []string {
		var out []string
		for _, k := range r {
			out = append(out, string(rowBytes(k)))
		}
		sort.Strings(out)
		return out
	}
	x, y := key(a), key(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// position of the signer in the ring, -1 if it is not there exactly once.
func position(r *ref.Ring, pub []P) int {
	at := -1
	for i, k := range r.K {
		if bytes.Equal(rowBytes(k), rowBytes(pub)) {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}
