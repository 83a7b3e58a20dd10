package rp

import (
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"verif/harness/hx"
	"verif/harness/ref"
)

// drawList: the caller's slice, its whole memory, and a copy of that memory.
func drawList(c *hx.C, n int) (list, mem, snap []S, amounts []uint64) {
	spare := hx.Choose(c, "spare", 0, 1, 3, 16)
	mem = make([]S, n+spare)
	for i := range mem {
		mem[i] = ref.Int(int64(1000 + i)) // what the caller keeps behind the list
	}
	list = mem[:n]
	same := c.Chance(5, "same")
	for i := range list {
		a := uint64(0)
		if same && i > 0 {
			a = amounts[0]
		} else {
			a = drawAmount(c, "amount")
		}
		amounts = append(amounts, a)
		list[i] = amt(a)
	}
	snap = append([]S(nil), mem...)
	return
}

func sameScalars(a, b []S) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestC05_EveryAmountList(t *testing.T) {
	hx.Check(t, hx.N{Quick: 280, Thorough: 12000},
		"lists of 1..16 amounts (0, 2^64-1, powers of two and neighbours, random; repeated ones), with spare memory behind the list, debug on or off, proved, verified, encoded with and without commitments, decoded and verified; non-trivial: at least one amount is not zero",
		func(c *hx.C) {
			lens := []int{1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
			n := lens[c.Pick(len(lens), "n")]
			debug := n <= 4 && c.Chance(4, "debug")
			list, mem, snap, amounts := drawList(c, n)
			p, err := rangeproof.Prove(list, debug)
			if err != nil {
				c.Fatalf("amounts %v (debug %v): no proof: %v", amounts, debug, err)
			}
			if !sameScalars(mem, snap) {
				c.Fatalf("amounts %v: the caller's memory was modified", amounts)
			}
			m := pow2(n)
			if len(p.V) != m {
				c.Fatalf("%d commitments for %d amounts, expected %d", len(p.V), n, m)
			}
			for i := range p.V {
				v := S{}
				if i < n {
					v = amt(amounts[i])
				}
				if !ref.PEq(ref.Commit(v, p.V[i].BlindingFactor), p.V[i].Value) {
					c.Fatalf("amounts %v: commitment %d does not open to its amount", amounts, i)
				}
			}
			if ok, err := rangeproof.Verify(p); !ok || err != nil {
				c.Fatalf("amounts %v (debug %v): the proof does not verify: %v", amounts, debug, err)
			}
			full, err := decode(encode(&p, true), true)
			c.Must(err, "decode")
			if ok, err := rangeproof.Verify(full); !ok || err != nil {
				c.Fatalf("amounts %v: the proof does not verify after encoding: %v", amounts, err)
			}
			if n <= 8 {
				bare, err := decode(encode(&p, false), false)
				c.Must(err, "decode without commitments")
				bare.V = p.V
				if ok, err := rangeproof.Verify(bare); !ok || err != nil {
					c.Fatalf("amounts %v: the proof does not verify after encoding without commitments: %v", amounts, err)
				}
			}
			for _, a := range amounts {
				if a != 0 {
					c.NT(amounts, debug)
				}
			}
			c.Label([]string{"1", "2", "3-4", "5-8", "9-16"}[log2(m)])
			c.Note("amounts %v debug %v", amounts, debug)
		})
}

func log2(m int) int {
	k := 0
	for 1<<uint(k) < m {
		k++
	}
	return k
}

func TestC05_Refusals(t *testing.T) {
	hx.Check(t, hx.N{Quick: 400, Thorough: 4000},
		"empty lists (nil or not, with spare memory) and lists of 17..300 amounts are refused with an error and left alone; non-trivial: all",
		func(c *hx.C) {
			n := 0
			switch c.Pick(3, "kind") {
			case 0:
				n = c.Int(17, 40, "n")
			case 1:
				n = hx.Choose(c, "n", 17, 31, 32, 33, 64, 255, 256, 257, 272)
			}
			list, mem, snap, amounts := drawList(c, n)
			if n == 0 && c.Bool("nil") {
				list = nil
			}
			debug := c.Bool("debug")
			if _, err := rangeproof.Prove(list, debug); err == nil {
				c.Fatalf("a list of %d amounts is accepted", n)
			}
			if !sameScalars(mem, snap) {
				c.Fatalf("amounts %v: the caller's memory was modified", amounts)
			}
			c.NT(n, debug, len(mem))
			c.Note("%d amounts", n)
		})
}
