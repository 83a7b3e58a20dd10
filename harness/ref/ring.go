package ref

import (
	"encoding/binary"
	"errors"
	"io"
)

// Ring is a ring signature: n members with k keys each, the first len(images)
// of which have a key image. bLSAG is the case k = 1, one image.
type Ring struct {
	C   S
	R   [][]S
	K   [][]P
	Msg []byte
}

// Bytes encodes it as MLSAG signatures are.
func (s *Ring) Bytes(keys bool) []byte {
	out := append([]byte(nil), s.C.Bytes()...)
	out = binary.BigEndian.AppendUint32(out, uint32(len(s.R)))
	if len(s.R) == 0 {
		return out
	}
	out = binary.BigEndian.AppendUint32(out, uint32(len(s.R[0])))
	for _, r := range s.R {
		for _, x := range r {
			out = append(out, x.Bytes()...)
		}
	}
	if keys {
		for _, k := range s.K {
			for _, p := range k {
				out = append(out, p.Bytes()...)
			}
		}
	}
	return out
}

// ParseRing decodes a signature and returns what follows it.
func ParseRing(b []byte, keys bool) (*Ring, []byte, error) {
	s := &Ring{}
	if len(b) < 36 {
		return nil, nil, io.ErrUnexpectedEOF
	}
	s.C = DecodeS(b)
	n := int(binary.BigEndian.Uint32(b[32:]))
	b = b[36:]
	if n == 0 {
		return s, b, nil
	}
	if len(b) < 4 {
		return nil, nil, io.ErrUnexpectedEOF
	}
	k := int(binary.BigEndian.Uint32(b))
	b = b[4:]
	if k == 0 {
		return nil, nil, errors.New("no responses")
	}
	if n*k*32 > len(b) {
		return nil, nil, io.ErrUnexpectedEOF
	}
	for i := 0; i < n; i++ {
		var row []S
		for j := 0; j < k; j++ {
			row = append(row, DecodeS(b))
			b = b[32:]
		}
		s.R = append(s.R, row)
	}
	if !keys {
		return s, b, nil
	}
	if n*k*32 > len(b) {
		return nil, nil, io.ErrUnexpectedEOF
	}
	for i := 0; i < n; i++ {
		var row []P
		for j := 0; j < k; j++ {
			p, ok := DecodeP(b[:32])
			if !ok {
				return nil, nil, errors.New("no point")
			}
			row = append(row, p)
			b = b[32:]
		}
		s.K = append(s.K, row)
	}
	return s, b, nil
}

// Clone copies a signature.
func (s *Ring) Clone() *Ring {
	c := *s
	c.R, c.K = nil, nil
	for _, r := range s.R {
		c.R = append(c.R, append([]S(nil), r...))
	}
	for _, k := range s.K {
		c.K = append(c.K, append([]P(nil), k...))
	}
	c.Msg = append([]byte(nil), s.Msg...)
	return &c
}

// RingHash makes the challenge that follows member pos.
type RingHash func(pos int, msg []byte, ls, rs []P) S

// HonestHash is the hash of the scheme.
func HonestHash(_ int, msg []byte, ls, rs []P) S {
	b := append([]byte(nil), msg...)
	for _, p := range ls {
		b = append(b, p.Bytes()...)
	}
	for _, p := range rs {
		b = append(b, p.Bytes()...)
	}
	return HashS(b)
}

func (s *Ring) step(h RingHash, pos int, images []P, c S) S {
	var ls, rs []P
	for i, k := range s.K[pos] {
		ls = append(ls, PAdd(PMul(Base(), s.R[pos][i]), PMul(k, c)))
	}
	for i, im := range images {
		rs = append(rs, PAdd(PMul(HashP(s.K[pos][i].Bytes()), s.R[pos][i]), PMul(im, c)))
	}
	return h(pos, s.Msg, ls, rs)
}

// Challenges are those before each member, and the one after the last.
func (s *Ring) Challenges(h RingHash, images []P) []S {
	cs := []S{s.C}
	for i := range s.K {
		cs = append(cs, s.step(h, i, images, cs[i]))
	}
	return cs
}

// Fits tells whether the dimensions match.
func (s *Ring) Fits(images []P) bool {
	if len(s.R) == 0 || len(s.R) != len(s.K) || len(images) == 0 {
		return false
	}
	for i := range s.R {
		if len(s.R[i]) != len(s.K[0]) || len(s.K[i]) != len(s.K[0]) {
			return false
		}
	}
	return len(images) <= len(s.K[0])
}

// Verify is the independent verifier.
func (s *Ring) Verify(images []P) bool { return s.VerifyWith(HonestHash, images) }

// VerifyWith verifies with another hash.
func (s *Ring) VerifyWith(h RingHash, images []P) bool {
	if !s.Fits(images) {
		return false
	}
	cs := s.Challenges(h, images)
	return Eq(cs[len(cs)-1], s.C)
}

// RingSigner signs, honestly or not.
type RingSigner struct {
	Rand    func() S
	Secrets []S   // what the signer uses as secrets
	Pub     []P   // the keys it appears with; nil: those of the secrets
	Decoys  [][]P // the other members, in order
	Pos     int
	Msg     []byte
	Images  []P // nil: the true image of the first key
	NImages int // how many true images if Images is nil (0: one)
	Hash    RingHash
	// Present is shown instead of the message signed, if not nil.
	Present []byte
	// LateKey: the last key is chosen after the challenge.
	LateKey bool
	// LateImage: the image is chosen after the challenge.
	LateImage bool

	OutImages []P
}

// KeyImage is x*Hp(X).
func KeyImage(x S) P {
	k := PMul(Base(), x)
	return PMul(HashP(k.Bytes()), x)
}

// Sign makes a signature.
func (g *RingSigner) Sign() *Ring {
	h := g.Hash
	if h == nil {
		h = HonestHash
	}
	pub := append([]P(nil), g.Pub...)
	if g.Pub == nil {
		for _, x := range g.Secrets {
			pub = append(pub, PMul(Base(), x))
		}
	}
	images := append([]P(nil), g.Images...)
	if g.Images == nil {
		images = append(images, KeyImage(g.Secrets[0]))
		for i := 1; i < g.NImages; i++ {
			images = append(images, KeyImage(g.Secrets[i]))
		}
	}
	s := &Ring{Msg: g.Msg}
	s.K = append(s.K, g.Decoys[:g.Pos]...)
	s.K = append(s.K, pub)
	s.K = append(s.K, g.Decoys[g.Pos:]...)
	n := len(s.K)
	for range s.K {
		var row []S
		for range pub {
			row = append(row, g.Rand())
		}
		s.R = append(s.R, row)
	}
	var nonces []S
	var ls, rs []P
	for i := range pub {
		a := g.Rand()
		nonces = append(nonces, a)
		ls = append(ls, PMul(Base(), a))
		if i < len(images) {
			rs = append(rs, PMul(HashP(pub[i].Bytes()), a))
		}
	}
	if g.LateImage {
		rs[0] = PMul(Base(), g.Rand())
	}
	cs := make([]S, n)
	cur := h(g.Pos, s.Msg, ls, rs)
	for k := 1; k < n; k++ {
		i := (g.Pos + k) % n
		cs[i] = cur
		cur = s.step(h, i, images, cur)
	}
	cs[g.Pos] = cur
	for i := range pub {
		last := i == len(pub)-1
		switch {
		case g.LateKey && last:
			r := g.Rand()
			s.R[g.Pos][i] = r
			pub[i] = PMul(PSub(ls[i], PMul(Base(), r)), Inv(cur))
			s.K[g.Pos] = pub
		default:
			s.R[g.Pos][i] = Sub(nonces[i], Mul(cur, g.Secrets[i]))
		}
		if g.LateImage && i == 0 {
			// r*Hp(K) + c*I has to be what was hashed
			want := rs[0]
			images[0] = PMul(PSub(want, PMul(HashP(pub[0].Bytes()), s.R[g.Pos][0])), Inv(cur))
		}
	}
	s.C = cs[0]
	if g.Present != nil {
		s.Msg = g.Present
	}
	g.OutImages = images
	return s
}
