package rp

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"verif/harness/hx"
	"verif/harness/ref"
)

// drawLabel: labels with common prefixes and suffixes, with spare memory
// behind them.
func drawLabel(c *hx.C, label string) (lab, mem []byte) {
	var b []byte
	switch c.Pick(5, label) {
	case 0:
		b = []byte("dusk.BulletProof.vec1")
	case 1:
		b = nil
	case 2:
		b = []byte(fmt.Sprint("l", c.Pick(4, label+".n")))
	case 3:
		b = []byte{byte('l'), byte('0' + c.Pick(4, label+".n")), byte(c.Pick(4, label+".suffix"))}
	default:
		b = c.Bytes(c.Pick(40, label+".len"))
		if c.Chance(8, label+".long") {
			b = c.Bytes(c.Int(60, 300, label+".len"))
		}
	}
	mem = append(append([]byte(nil), b...), c.Bytes(c.Pick(5, label+".spare"))...)
	return mem[:len(b)], mem
}

// model: <v_i, gens of label with i appended (i>0)> + r*B
func refVectors(label []byte, r S, vs [][]S) P {
	sum := ref.PMul(ref.BlindBase(), r)
	for i, v := range vs {
		l := append([]byte(nil), label...)
		for n := i; n > 0; n /= 256 {
			l = append(l, byte(n))
		}
		sum = ref.PAdd(sum, ref.MExp(v, ref.Gens(string(l), len(v))))
	}
	return sum
}

func TestC11_Commitments(t *testing.T) {
	hx.Check(t, hx.N{Quick: 15000, Thorough: 200000},
		"1..3 committers with arbitrary labels (equal, prefixes of each other, spare memory behind) and a sequence of 1..8 operations on them (commit to a scalar, commit to 0..4, rarely 20 or 300, vectors of 0..7, rarely 130, entries, compute or clear generators); each commitment compared with the formula, sums of two with the formula for the sums, the caller's memory checked; non-trivial: at least one vector commitment",
		func(c *hx.C) {
			type committer struct {
				p        *pedersen.Pedersen
				lab, mem []byte
				snap     []byte
			}
			var ps []*committer
			for i := c.Int(1, 3, "committers"); i > 0; i-- {
				lab, mem := drawLabel(c, "label")
				x := &committer{pedersen.New(lab), append([]byte(nil), lab...), mem, nil}
				if c.Bool("label reused") { // the memory is the caller's
					for i := range mem {
						mem[i] ^= 0x5a
					}
				}
				x.snap = append([]byte(nil), mem...)
				ps = append(ps, x)
			}
			type opened struct {
				cm pedersen.Commitment
				v  S
			}
			var scalars []opened
			var log []string
			vec := false
			for k := c.Int(1, 8, "ops"); k > 0; k-- {
				i := c.Pick(len(ps), "which")
				x := ps[i]
				switch c.Pick(6, "op") {
				case 0, 1:
					v := drawScalar(c, "v")
					before := v
					cm := x.p.CommitToScalar(v)
					log = append(log, fmt.Sprint(i, ":scalar"))
					if !ref.PEq(cm.Value, ref.Commit(v, cm.BlindingFactor)) || v != before {
						c.Fatalf("%v: commitment to %v is wrong", log, ref.Val(v))
					}
					scalars = append(scalars, opened{cm, v})
				case 2, 3, 4:
					n := c.Int(0, 4, "vectors")
					if c.Chance(40, "many") {
						n = c.Int(5, 20, "vectors")
						if c.Chance(40, "hundreds") {
							n = c.Int(250, 300, "vectors")
						}
					}
					var vs, all, snaps [][]S
					var lens []int
					for j := 0; j < n; j++ {
						ln := c.Pick(8, "len")
						if n > 20 {
							ln = 1
						}
						if c.Chance(60, "long") {
							ln = c.Int(8, 130, "len")
						}
						m := make([]S, ln+c.Pick(3, "spare"))
						for q := range m {
							m[q] = anyScalar(c)
						}
						if j > 0 && c.Chance(8, "shared") { // the same memory again, as long or not
							m = all[c.Pick(j, "again")]
							ln = c.Int(0, len(m), "of it")
						}
						all, vs, snaps = append(all, m), append(vs, m[:ln]), append(snaps, snapS(m))
						lens = append(lens, ln)
					}
					log = append(log, fmt.Sprint(i, ":vectors", lens))
					cm := x.p.CommitToVectors(vs...)
					if !ref.PEq(cm.Value, refVectors(x.lab, cm.BlindingFactor, vs)) {
						c.Fatalf("label %x: %v: commitment is wrong", x.lab, log)
					}
					for j := range all {
						if !sameScalars(all[j], snaps[j]) {
							c.Fatalf("label %x: %v: vector %d was modified", x.lab, log, j)
						}
					}
					vec = true
				case 5:
					if c.Bool("clear") {
						x.p.BaseVector.Clear()
						log = append(log, fmt.Sprint(i, ":clear"))
					} else {
						n := c.Pick(6, "compute")
						if c.Chance(12, "much") {
							n = c.Int(6, 100, "compute")
						}
						x.p.BaseVector.Compute(uint32(n))
						log = append(log, fmt.Sprint(i, ":compute", n))
					}
				}
				for _, y := range ps {
					if !bytes.Equal(y.mem, y.snap) {
						c.Fatalf("%v: the label's memory was modified: %x, was %x", log, y.mem, y.snap)
					}
				}
			}
			for i := 1; i < len(scalars); i++ {
				a, b := scalars[i-1], scalars[i]
				if !ref.PEq(ref.PAdd(a.cm.Value, b.cm.Value), ref.Commit(ref.Add(a.v, b.v), ref.Add(a.cm.BlindingFactor, b.cm.BlindingFactor))) {
					c.Fatalf("%v: two commitments do not add up", log)
				}
				if !ref.PEq(a.cm.Value, ref.Commit(a.v, a.cm.BlindingFactor)) {
					c.Fatalf("%v: an earlier commitment changed", log)
				}
			}
			if vec {
				c.NT(log, hex.EncodeToString(ps[0].lab))
			}
			c.Note("label %x: %v", ps[0].lab, log)
		})
}

func TestC12_Generators(t *testing.T) {
	hx.Check(t, hx.N{Quick: 15000, Thorough: 200000},
		"1..4 generator objects with equal or different labels and a sequence of 1..12 operations (compute 0..9, rarely up to 1100, more, clear, iterate), the label's memory used for something else or not; the bases always are the first n of the chain defined by the label, iterate names the next one, all points within and across labels differ; non-trivial: at least two steps that compute",
		func(c *hx.C) {
			type obj struct {
				g    *generator.Generator
				lab  []byte
				n    int
				mem  []byte
				snap []byte
			}
			var gs []*obj
			for i := c.Int(1, 4, "objects"); i > 0; i-- {
				lab, mem := drawLabel(c, "label")
				x := &obj{g: generator.New(lab), lab: append([]byte(nil), lab...), mem: mem}
				if c.Bool("label reused") { // the memory is the caller's
					for i := range mem {
						mem[i] ^= 0x5a
					}
				}
				x.snap = append([]byte(nil), mem...)
				gs = append(gs, x)
			}
			var log []string
			steps := 0
			for k := c.Int(1, 12, "ops"); k > 0; k-- {
				i := c.Pick(len(gs), "which")
				x := gs[i]
				switch c.Pick(5, "op") {
				case 0:
					x.g.Clear()
					x.n = 0
					log = append(log, fmt.Sprint(i, ":clear"))
				case 1:
					p := x.g.Iterate()
					log = append(log, fmt.Sprint(i, ":iterate"))
					if !ref.PEq(p, ref.Gens(string(x.lab), x.n+1)[x.n]) {
						c.Fatalf("label %x: %v: iterate gives another point", x.lab, log)
					}
				default:
					n := c.Pick(10, "n")
					if c.Chance(60, "much") {
						n = c.Int(10, 300, "n")
						if c.Chance(10, "very much") {
							n = c.Int(500, 1100, "n")
						}
					}
					x.g.Compute(uint32(n))
					x.n += n
					steps++
					log = append(log, fmt.Sprint(i, ":compute", n))
				}
				for j, y := range gs {
					if !samePoints(y.g.Bases, ref.Gens(string(y.lab), y.n)) {
						c.Fatalf("labels %x..: %v: the %d bases of object %d are not the first %d of its chain", x.lab, log, len(y.g.Bases), j, y.n)
					}
					if !bytes.Equal(y.mem, y.snap) {
						c.Fatalf("%v: the label's memory was modified", log)
					}
				}
			}
			seen := map[string]string{}
			for _, x := range gs {
				for i, p := range x.g.Bases {
					k, me := string(p.Bytes()), fmt.Sprintf("%x/%d", x.lab, i)
					if o, ok := seen[k]; ok && o != me {
						c.Fatalf("%s and %s are the same point", o, me)
					}
					seen[k] = me
				}
			}
			if steps >= 2 {
				c.NT(log, hex.EncodeToString(gs[0].lab))
			}
			c.Note("label %x: %v", gs[0].lab, log)
		})
}

func TestC12_Transcript(t *testing.T) {
	hx.Check(t, hx.N{Quick: 60000, Thorough: 1000000},
		"1..3 transcripts and a sequence of 1..14 operations (append 0..3 byte strings which are overwritten afterwards, read, derive a challenge, clear, copy and read the copy), content and challenge compared with the concatenation; a changed byte changes the challenge; non-trivial: something was appended",
		func(c *hx.C) {
			n := c.Int(1, 3, "transcripts")
			hs := make([]*fiatshamir.HashCacher, n)
			model := make([][]byte, n)
			for i := range hs {
				if c.Bool("zero value") {
					hs[i] = &fiatshamir.HashCacher{}
				} else {
					hs[i] = &fiatshamir.HashCacher{Cache: []byte{}}
				}
			}
			check := func(h *fiatshamir.HashCacher, want []byte, log []string) {
				if got := h.Result(); !bytes.Equal(got, want) {
					c.Fatalf("%v: content is %s instead of %s", log, hx.Short(got), hx.Short(want))
				}
				if got := h.Derive(); !ref.Eq(got, ref.HashS(want)) {
					c.Fatalf("%v: wrong challenge", log)
				}
				if got := h.Result(); !bytes.Equal(got, want) {
					c.Fatalf("%v: reading changed it", log)
				}
			}
			var log []string
			total := 0
			for k := c.Int(1, 14, "ops"); k > 0; k-- {
				i := c.Pick(n, "which")
				switch c.Pick(6, "op") {
				case 0, 1, 2:
					var vals [][]byte
					for j := c.Pick(4, "vals"); j > 0; j-- {
						v := c.Bytes(hx.Choose(c, "len", 0, 1, 32, 32, 32, 33, 64, 200, 135, 136, 137, 500, 1024))
						if c.Chance(300, "long") {
							v = c.Bytes(hx.Choose(c, "len", 4095, 4096, 4097, 16384, 65535, 65536, 65537))
						}
						vals = append(vals, v)
						model[i] = append(model[i], v...)
						total += len(v)
					}
					hs[i].Append(vals...)
					for _, v := range vals { // the caller reuses its memory
						for q := range v {
							v[q] ^= 0x5a
						}
					}
					log = append(log, fmt.Sprint(i, ":append", len(vals)))
				case 3:
					hs[i].Clear()
					model[i] = nil
					log = append(log, fmt.Sprint(i, ":clear"))
				case 4:
					cp := *hs[i]
					log = append(log, fmt.Sprint(i, ":copy"))
					check(&cp, model[i], log)
				default:
					log = append(log, fmt.Sprint(i, ":read"))
				}
				for j := range hs {
					check(hs[j], model[j], log)
				}
			}
			if len(model[0]) > 0 {
				alt := append([]byte(nil), model[0]...)
				alt[c.Pick(len(alt), "pos")] ^= 1 << c.Pick(8, "bit")
				h := &fiatshamir.HashCacher{}
				h.Append(alt)
				a, b := h.Derive(), hs[0].Derive()
				if ref.Eq(a, b) {
					c.Fatalf("%v: a changed byte does not change the challenge", log)
				}
			}
			if total > 0 {
				c.NT(log, total)
			}
			c.Note("%v", log)
		})
}
