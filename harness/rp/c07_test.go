package rp

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"verif/harness/hx"
	"verif/harness/ref"
)

// op is one step of a history; run returns "" or what was wrong.
type op struct {
	name string
	run  func() string
}

func verdict(b []byte) bool { return accepts(b) }

// drawOp draws a step. Everything it needs is prepared here, so that run does
// nothing but call the code under test.
func drawOp(c *hx.C, maxM int) op {
	e, m := drawBase(c, maxM)
	switch c.Pick(10, "op") {
	case 0, 1: // a valid proof verifies
		b := e.bytes
		return op{fmt.Sprintf("verify(%d)", m), func() string {
			if !verdict(b) {
				return "a valid proof is rejected"
			}
			return ""
		}}
	case 2: // the proof object itself, as the prover returned it
		return op{fmt.Sprintf("verify object(%d)", m), func() string {
			if ok, err := rangeproof.Verify(e.proof); !ok {
				return fmt.Sprint("a valid proof object is rejected: ", err)
			}
			return ""
		}}
	case 3, 4: // an altered one does not
		r := e.ref.Clone()
		what := alter(c, r)
		b := r.Bytes()
		valid := bytes.Equal(b, e.bytes)
		return op{fmt.Sprintf("verify altered(%d, %s)", m, what), func() string {
			if verdict(b) != valid {
				return "wrong verdict for an altered proof"
			}
			return ""
		}}
	case 5, 6: // a new proof
		n := hx.Choose(c, "n", 1, 1, 2, 3)
		var list []S
		for i := 0; i < n; i++ {
			list = append(list, amt(drawAmount(c, "amount")))
		}
		debug := n == 1 && c.Chance(8, "debug")
		return op{fmt.Sprintf("prove+verify(%d)", n), func() string {
			p, err := rangeproof.Prove(list, debug)
			if err != nil {
				return fmt.Sprint("Prove: ", err)
			}
			if len(p.V) != pow2(n) {
				return fmt.Sprintf("%d commitments for %d amounts", len(p.V), n)
			}
			for i := range list {
				if !ref.PEq(p.V[i].Value, ref.Commit(list[i], p.V[i].BlindingFactor)) {
					return "a commitment does not open"
				}
			}
			if ok, err := rangeproof.Verify(p); !ok {
				return fmt.Sprint("a new proof is rejected: ", err)
			}
			return ""
		}}
	case 7: // refused input
		n := hx.Choose(c, "n", 0, 17, 40)
		return op{fmt.Sprintf("prove refused(%d)", n), func() string {
			if _, err := rangeproof.Prove(make([]S, n), false); err == nil {
				return "accepted"
			}
			return ""
		}}
	case 8: // garbage to the decoder
		b := append([]byte(nil), e.bytes[:c.Pick(len(e.bytes), "cut")]...)
		return op{"decode truncated", func() string {
			p, err := decode(b, true)
			if err == nil {
				if ok, _ := rangeproof.Verify(p); ok {
					return "accepted"
				}
			}
			return ""
		}}
	default: // an inconsistent object
		b := e.bytes
		k := c.Pick(3, "broken")
		return op{"verify inconsistent", func() string {
			p, err := decode(b, true)
			if err != nil {
				return err.Error()
			}
			switch k {
			case 0:
				p.IPProof = &innerproduct.Proof{}
			case 1:
				p.V = nil
			default:
				p.V = append(append([]pedersen.Commitment(nil), p.V...), p.V...)
			}
			if ok, _ := rangeproof.Verify(p); ok {
				return "accepted"
			}
			return ""
		}}
	}
}

func TestC07_Histories(t *testing.T) {
	hx.Check(t, hx.N{Quick: 160, Thorough: 15000},
		"histories of 3..9 operations (verify valid proofs of different sizes, as bytes or as the prover's object, verify altered ones, prove and verify new ones, refused calls, truncated input, inconsistent objects); each verdict is compared with the model, which is the proof's validity alone; non-trivial: the history contains proofs of two sizes or a refused step before a valid one",
		func(c *hx.C) {
			n := c.Int(3, 9, "steps")
			var names []string
			for i := 0; i < n; i++ {
				o := drawOp(c, 8)
				names = append(names, o.name)
				if msg := o.run(); msg != "" {
					c.Fatalf("after %v: %s", names, msg)
				}
			}
			c.NT(names)
			c.Note("%v", names)
		})
}

func TestC07_Concurrent(t *testing.T) {
	n, maxM := hx.N{Quick: 60, Thorough: 3000}, 4
	if hx.Race {
		n, maxM = hx.N{Quick: 16, Thorough: 600}, 2
	}
	hx.Check(t, n,
		"2..6 goroutines, each with a history of 1..4 such operations; every verdict as if run alone (race detector on in the second run); non-trivial: all",
		func(c *hx.C) {
			g := c.Int(2, 6, "goroutines")
			var ops [][]op
			var names []string
			for i := 0; i < g; i++ {
				var seq []op
				for k := c.Int(1, 4, "steps"); k > 0; k-- {
					o := drawOp(c, maxM)
					seq = append(seq, o)
					names = append(names, fmt.Sprint(i, ":", o.name))
				}
				ops = append(ops, seq)
			}
			out := make([]string, g)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range ops {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					if err := hx.NoPanic(func() {
						for _, o := range ops[i] {
							if msg := o.run(); msg != "" {
								out[i] = o.name + ": " + msg
								return
							}
						}
					}); err != nil {
						out[i] = err.Error()
					}
				}(i)
			}
			close(start)
			wg.Wait()
			for i, o := range out {
				if o != "" {
					c.Fatalf("goroutine %d of %v: %s", i, names, o)
				}
			}
			c.NT(names)
			c.Note("%v", names)
		})
}

// child is a fresh process: it carries out the commands it is given.
func child() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		switch f[0] {
		case "verify":
			b, _ := hex.DecodeString(f[1])
			fmt.Println("result", accepts(b))
		case "prove":
			var list []S
			for _, x := range f[1:] {
				v, _ := new(big.Int).SetString(x, 10)
				list = append(list, ref.Big(v))
			}
			p, err := rangeproof.Prove(list, false)
			if err != nil {
				fmt.Println("error", err)
				continue
			}
			fmt.Println("proof", hex.EncodeToString(encode(&p, true)))
		}
	}
}

func TestC07_FreshProcess(t *testing.T) {
	hx.Check(t, hx.N{Quick: 48, Thorough: 2000},
		"1..4 commands (verify a valid or an altered proof, prove) in a process of their own, compared with the model; proofs from there are verified here; non-trivial: all",
		func(c *hx.C) {
			var in bytes.Buffer
			var names, want []string
			for k := c.Int(1, 4, "commands"); k > 0; k-- {
				e, m := drawBase(c, 8)
				switch c.Pick(4, "command") {
				case 0, 1:
					fmt.Fprintf(&in, "verify %x\n", e.bytes)
					names, want = append(names, fmt.Sprintf("verify(%d)", m)), append(want, "result true")
				case 2:
					r := e.ref.Clone()
					what := alter(c, r)
					b := r.Bytes()
					fmt.Fprintf(&in, "verify %x\n", b)
					names = append(names, fmt.Sprintf("verify altered(%d, %s)", m, what))
					want = append(want, fmt.Sprint("result ", bytes.Equal(b, e.bytes)))
				default:
					n := hx.Choose(c, "n", 1, 2, 3)
					in.WriteString("prove")
					for i := 0; i < n; i++ {
						fmt.Fprint(&in, " ", drawAmount(c, "amount"))
					}
					in.WriteString("\n")
					names, want = append(names, fmt.Sprintf("prove(%d)", n)), append(want, "proof")
				}
			}
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
			cmd.Stdin = &in
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			out, err := cmd.Output()
			if err != nil && !strings.Contains(stderr.String(), "panic") {
				panic(fmt.Sprint("HARNESS-ERROR: child: ", err, stderr.String()))
			}
			if err != nil {
				c.Fatalf("%v in a fresh process: %s", names, stderr.String())
			}
			lines := strings.Split(strings.TrimSpace(string(out)), "\n")
			if len(lines) != len(want) {
				panic(fmt.Sprint("HARNESS-ERROR: child: ", string(out)))
			}
			for i, l := range lines {
				if want[i] == "proof" && strings.HasPrefix(l, "proof ") {
					b, _ := hex.DecodeString(strings.TrimPrefix(l, "proof "))
					if !accepts(b) {
						c.Fatalf("%v in a fresh process: proof %d is rejected here", names, i)
					}
				} else if l != want[i] {
					c.Fatalf("%v in a fresh process: step %d gives %q", names, i, l)
				}
			}
			c.NT(names)
			c.Note("%v", names)
		})
}

func TestC07_VerifyingChangesNothing(t *testing.T) {
	hx.Check(t, hx.N{Quick: 1200, Thorough: 30000},
		"honest proofs as proved or decoded, altered ones and ones of any shape, with spare memory behind their lists, verified up to three times: the verdict stays the same, and every component, blinding factor and the memory behind the lists too; non-trivial: all",
		func(c *hx.C) {
			e, m := drawBase(c, 4)
			p := e.proof
			what := hx.Choose(c, "what", "as proved", "decoded", "altered", "any shape")
			if what != "as proved" {
				b := e.bytes
				if what == "any shape" {
					b = drawObject(c).Bytes()
				}
				var err error
				p, err = decode(b, true)
				c.Must(err, "Decode")
				if what == "altered" {
					switch c.Pick(4, "where") {
					case 0:
						p.A = anyPoint(c)
					case 1:
						p.T2 = anyPoint(c)
					case 2:
						p.V[c.Pick(len(p.V), "i")].Value = anyPoint(c)
					default:
						p.IPProof.A = anyScalar(c)
					}
				}
			}
			// lists of our own with something behind them
			ip := *p.IPProof
			spare := func(v []P) []P {
				n := len(v)
				return append(append([]P(nil), v...), rndP(c), rndP(c))[:n]
			}
			ip.L, ip.R = spare(ip.L), spare(ip.R)
			nv := len(p.V)
			p.V = append(append([]pedersen.Commitment(nil), p.V...), pedersen.Commitment{Value: rndP(c), BlindingFactor: rnd(c)})[:nv]
			p.IPProof = &ip
			state := func() string {
				t := hx.Short(encode(&p, true))
				for _, v := range p.V[:nv+1] {
					t += string(v.Value.Bytes()) + string(v.BlindingFactor.Bytes())
				}
				for _, l := range [][]P{ip.L, ip.R} {
					for _, x := range l[:len(l)+2] {
						t += string(x.Bytes())
					}
				}
				return t + string(encode(&p, true))
			}
			before := state()
			first := false
			for k := 0; k < c.Int(1, 3, "times"); k++ {
				ok, err := rangeproof.Verify(p)
				if ok != (err == nil) {
					c.Fatalf("%s: verified %v, error %v", what, ok, err)
				}
				if k == 0 {
					first = ok
				}
				if ok != first {
					c.Fatalf("%s: verdict %v, before %v", what, ok, first)
				}
				if state() != before || p.IPProof != &ip || len(p.V) != nv {
					c.Fatalf("%s, %d commitments: verifying changed the proof", what, m)
				}
			}
			if (what == "as proved" || what == "decoded") && !first {
				c.Fatalf("%s: an honest proof is rejected", what)
			}
			c.NT(what, m, hx.Short([]byte(before)))
			c.Label(what)
		})
}
