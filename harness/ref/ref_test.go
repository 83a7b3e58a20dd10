package ref

import (
	"strings"
	"testing"
	"time"
)

func rnd() S { var s S; s.Rand(); return s }

func TestSelf(t *testing.T) {
	var s []S
	var p []P
	want := Zero()
	for i := 0; i < 130; i++ {
		a := rnd()
		if i%5 == 0 {
			a = Int(int64(i) - 20)
		}
		s, p = append(s, a), append(p, Gens("x", i+1)[i])
		want = PAdd(want, PMul(p[i], a))
	}
	if !PEq(want, MExp(s, p)) {
		t.Fatal("mexp")
	}
	Gens(bpLabel, 256)
	t0 := time.Now()
	r := (&Prover{Rand: rnd, Values: []S{Int(5), Int(77)}}).Prove()
	t.Log(time.Since(t0))
	t0 = time.Now()
	if err := r.Verify(); err != nil {
		t.Fatal(err)
	}
	t.Log(time.Since(t0))
	q, err := Parse(r.Bytes())
	if err != nil || q.Verify() != nil {
		t.Fatal(err)
	}
	r = (&Prover{Rand: rnd, Values: []S{Int(5), Int(-77)}}).Prove()
	if r.Verify() == nil {
		t.Fatal()
	}
	stage := map[string]string{"V0": "yx", "V1": "yx", "A": "yx", "S": "yx", "T1": "x", "T2": "x", "L0": "u0", "R0": "u0", "L3": "u3", "R6": "u6", "L6": "u6"}
	for _, f := range strings.Fields("V0 V1 A S T1 T2 L0 R0 L3 R6 L6") {
		for _, always := range []bool{false, true} {
			mg := func(st string, i int, m []Message) []byte {
				if m[i].Name == f && (always || strings.Contains(stage[f], st)) {
					return nil
				}
				return m[i].B
			}
			r = (&Prover{Rand: rnd, Values: []S{Int(-5), Int(-77)}, Mangle: mg, Free: f}).Prove()
			if r.Verify() == nil || !r.VerifyBelieving(mg) {
				t.Fatal(f)
			}
		}
	}
	for _, f := range []string{"A", "V0", "V1"} {
		mg := func(st string, i int, m []Message) []byte {
			if m[i].Name == f && st == "y" {
				return nil
			}
			return m[i].B
		}
		r = (&Prover{Rand: rnd, Values: []S{Int(-5), Int(-77)}, Mangle: mg, FreeZ: f}).Prove()
		if r.Verify() == nil || !r.VerifyBelieving(mg) {
			t.Fatal("afterZ", f)
		}
	}
}

func TestRing(t *testing.T) {
	decoys := [][]P{}
	for i := 0; i < 3; i++ {
		decoys = append(decoys, []P{PMul(Base(), rnd()), PMul(Base(), rnd())})
	}
	for pos := 0; pos < 4; pos++ {
		g := &RingSigner{Rand: rnd, Secrets: []S{rnd(), rnd()}, Decoys: decoys, Pos: pos, Msg: []byte("m")}
		s := g.Sign()
		if !s.Verify(g.OutImages) {
			t.Fatal("honest")
		}
		q, rest, err := ParseRing(append(s.Bytes(true), 1), true)
		q.Msg = s.Msg
		if err != nil || len(rest) != 1 || !q.Verify(g.OutImages) {
			t.Fatal("parse", err)
		}
		g.LateKey = true
		s = g.Sign()
		if !s.Verify(g.OutImages) {
			t.Fatal("late key")
		}
		g.LateKey, g.LateImage = false, true
		s = g.Sign()
		if s.Verify(g.OutImages) {
			t.Fatal("late image")
		}
		g.Hash = func(p int, m []byte, ls, rs []P) S {
			if p != pos {
				rs = nil
			}
			return HonestHash(p, m, ls, rs)
		}
		s = g.Sign()
		if s.Verify(g.OutImages) || !s.VerifyWith(g.Hash, g.OutImages) {
			t.Fatal("late image, believed")
		}
	}
	g := &RingSigner{Rand: rnd, Secrets: []S{rnd(), rnd()}, Msg: []byte("m"), LateImage: true}
	if s := g.Sign(); !s.Verify(g.OutImages) || PEq(g.OutImages[0], KeyImage(g.Secrets[0])) {
		t.Fatal("ring of one")
	}
}
