package rings

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"sync"
	"testing"

	"verif/harness/hx"
	"verif/harness/ref"
)

// limit is what a chi-square statistic exceeds with a probability of about
// 1e-12 (Wilson-Hilferty).
func limit(cells int) float64 {
	k := float64(cells - 1)
	if k < 1 {
		return math.Inf(1)
	}
	x := 1 - 2/(9*k) + 7.03*math.Sqrt(2/(9*k))
	return k * x * x * x
}

func chi2(count []int) float64 {
	n := 0
	for _, v := range count {
		n += v
	}
	e := float64(n) / float64(len(count))
	s := 0.0
	for _, v := range count {
		s += (float64(v) - e) * (float64(v) - e) / e
	}
	return s
}

func uneven(count []int) bool { return chi2(count) > limit(len(count)) }

// batch makes N signatures in a row and looks at all of them.
func batch(c *hx.C, s scheme, n, N int) {
	var members [][]P
	for i := 0; i < n-1; i++ {
		members = append(members, distinctMembersFixed(i, s.keys))
	}
	c.Src.Shuffle(len(members), func(i, j int) { members[i], members[j] = members[j], members[i] })
	index := map[string]int{}
	for i, m := range members {
		index[string(rowBytes(m))] = i
	}
	secrets := s.secrets(c)
	for _, x := range secrets {
		if _, dup := index[string(rowBytes([]P{ref.PMul(ref.Base(), x)}))]; dup {
			return
		}
	}
	vary := c.Pick(4, "vary") // nothing, message, key, both
	msg := c.Msg("msg")
	what := fmt.Sprintf("%s: %d signatures in rings of %d, varying %s", s.name, N, n, []string{"nothing", "the message", "the key", "message and key"}[vary])

	pos := make([]int, n)
	pairs := make([]int, n*n)
	pred := make([]int, max(1, n-1))
	last := -1
	seen := map[S]string{}
	var bits [2][256]int
	var total [2]int
	for t := 0; t < N; t++ {
		if vary&1 == 1 {
			msg = c.Bytes(8)
		}
		if vary&2 == 2 {
			for i := range secrets {
				secrets[i] = rnd(c)
			}
		}
		r, _, err := s.sign(secrets, members, msg)
		c.Must(err, "sign")
		pub := pubOf(secrets)
		if !sameRing(r.K, append(append([][]P{}, members...), pub)) {
			c.Fatalf("%s: a ring is not the decoys plus the signer", what)
		}
		at := position(r, pub)
		pos[at]++
		if t%2 == 1 {
			pairs[last*n+at]++
		}
		last = at
		if n > 1 {
			pred[index[string(rowBytes(r.K[(at+n-1)%n]))]]++
		}
		if len(r.R) != n {
			c.Fatalf("%s: %d responses", what, len(r.R))
		}
		for i, row := range r.R {
			k := 0
			if i == at {
				k = 1
			}
			for j, x := range row {
				if ref.IsZero(x) {
					c.Fatalf("%s: response %d of member %d is zero", what, j, i)
				}
				where := fmt.Sprintf("signature %d, member %d (signer %v), response %d", t, i, i == at, j)
				if prev, dup := seen[x]; dup {
					c.Fatalf("%s: the same response twice: %s; %s", what, prev, where)
				}
				seen[x] = where
				total[k]++
				for b, v := range x.Bytes() {
					for ; v != 0; v &= v - 1 {
						bits[k][b*8+tz(v)]++
					}
				}
			}
		}
	}
	if N >= 20*n && uneven(pos) {
		c.Fatalf("%s: the signer's position is not spread evenly: %v", what, pos)
	}
	if N >= 40*n*n && uneven(pairs) {
		c.Fatalf("%s: the positions in consecutive signatures depend on each other: %v", what, pairs)
	}
	if s.keys == 2 && n > 2 && N >= 20*n && uneven(pred) {
		c.Fatalf("%s: the decoy before the signer is not spread evenly: %v", what, pred)
	}
	for k, who := range []string{"decoys", "signers"} {
		if total[k] < 200 {
			continue
		}
		dev := 7.1 * math.Sqrt(float64(total[k])) / 2
		for b := 0; b < 252; b++ {
			if math.Abs(float64(bits[k][b])-float64(total[k])/2) > dev {
				c.Fatalf("%s: bit %d of the responses of %s is set in %d of %d", what, b, who, bits[k][b], total[k])
			}
		}
	}
	c.NT(what, ref.Val(secrets[0]))
	c.Label(fmt.Sprint("ring ", n))
	c.Note("%s", what)
}

func tz(v byte) int {
	for i := 0; i < 8; i++ {
		if v>>i&1 == 1 {
			return i
		}
	}
	return 8
}

func distinctMembersFixed(i, k int) []P {
	var row []P
	for j := 0; j < k; j++ {
		row = append(row, stock[(i*k+j)%len(stock)])
	}
	return row
}

const batchRule = "signatures in a row by one signer or many, over one message or many, in rings of a fixed size; position of the signer, pairs of consecutive positions (small rings) and, for mlsag, the decoy before the signer are spread evenly (chi-square, p = 1e-12); responses are non-zero, never repeated, and every bit of them is set half the time for signers and decoys alike; non-trivial: all"

func TestC18_MlsagBatches(t *testing.T) {
	hx.Check(t, hx.N{Quick: 80, Thorough: 8000}, "400 mlsag "+batchRule,
		func(c *hx.C) { batch(c, mlsagS, c.Int(1, 14, "ring"), 400) })
}

func TestC18_BlsagBatches(t *testing.T) {
	hx.Check(t, hx.N{Quick: 96, Thorough: 12000}, "400 blsag "+batchRule,
		func(c *hx.C) { batch(c, blsagS, c.Int(1, 14, "ring"), 400) })
}

func TestC18_LongBatches(t *testing.T) {
	hx.Check(t, hx.N{Quick: 24, Thorough: 1000}, "4000 "+batchRule,
		func(c *hx.C) { batch(c, eachScheme(c), c.Int(2, 7, "ring"), 4000) })
}

func TestC18_WideRings(t *testing.T) {
	hx.Check(t, hx.N{Quick: 24, Thorough: 1000}, "rings of 17..40, rarely up to 300: 300 "+batchRule+"; positions are compared by thirds of the ring",
		func(c *hx.C) {
			s := eachScheme(c)
			n := c.Int(17, 40, "ring")
			if c.Chance(8, "wide") {
				n = c.Int(41, 300, "ring")
			}
			var members [][]P
			for i := 0; i < n-1; i++ {
				row := []P{}
				for k := 0; k < s.keys; k++ {
					row = append(row, ref.PMul(ref.Base(), ref.Int(int64(1000+2*i+k))))
				}
				members = append(members, row)
			}
			secrets := []S{rnd(c), rnd(c)}[:s.keys]
			count := make([]int, 3)
			hit := map[int]bool{}
			seen := map[S]bool{}
			for t := 0; t < 300; t++ {
				r, _, err := s.sign(secrets, members, nil)
				c.Must(err, "sign")
				p := position(r, pubOf(secrets))
				if p < 0 {
					c.Fatalf("%s: ring of %d: the signer is not there once", s.name, n)
				}
				hit[p] = true
				for i, row := range r.R {
					for j, x := range row {
						if ref.IsZero(x) || seen[x] {
							c.Fatalf("%s: ring of %d, signature %d: response %d of member %d (signer %d) is zero or was there before", s.name, n, t, j, i, p)
						}
						seen[x] = true
					}
				}
				if t < 2 && !s.verify(r, []P{ref.KeyImage(secrets[0])}) {
					c.Fatalf("%s: ring of %d does not verify", s.name, n)
				}
				if m := n / 3 * 3; p < m {
					count[p/(n/3)]++
				}
			}
			// 300 draws leave less than half of 40 places empty; of 300 places they hit 189 +- 9
			if uneven(count) || len(hit) < min(n/2, 100) {
				c.Fatalf("%s: ring of %d: signer by thirds %v, %d different places in 300", s.name, n, count, len(hit))
			}
			c.NT(s.name, n)
			c.Note("%s: ring of %d: %v", s.name, n, count)
		})
}

// drift is the largest distance of the observed distribution of positions from
// the even one, as exponent: chance alone reaches it with probability 2/e^drift.
func drift(count []int) float64 {
	n := 0
	for _, v := range count {
		n += v
	}
	sum, d := 0, 0.0
	for i, v := range count {
		sum += v
		d = max(d, math.Abs(float64(sum)/float64(n)-float64(i+1)/float64(len(count))))
	}
	return 2 * float64(n) * d * d
}

func TestC18_Drift(t *testing.T) {
	hx.Check(t, hx.N{Quick: 8, Thorough: 400}, "450 (mlsag) or 700 (blsag) signatures in rings of 165..215, where a position taken from a byte by division would prefer the front: the share of signers up to any position is the one expected (Kolmogorov-Smirnov, p = 1e-9); non-trivial: all",
		func(c *hx.C) {
			s := eachScheme(c)
			n := c.Int(165, 215, "ring")
			secrets := []S{rnd(c), rnd(c)}[:s.keys]
			decoys := distinctMembers(c, n-1, s.keys)
			count := make([]int, n)
			N := map[string]int{"mlsag": 450, "blsag": 700}[s.name]
			for t := 0; t < N; t++ {
				r, _, err := s.sign(secrets, decoys, nil)
				c.Must(err, "sign")
				p := position(r, pubOf(secrets))
				if p < 0 {
					c.Fatalf("%s: ring of %d: the signer is not there once", s.name, n)
				}
				count[p]++
			}
			if d := drift(count); d > 21.5 {
				c.Fatalf("%s: the signer's position in rings of %d drifts (%.1f): %v", s.name, n, d, count)
			}
			c.NT(s.name, n)
			c.Note("%s: ring of %d", s.name, n)
		})
}

func TestC18_LargeRings(t *testing.T) {
	hx.Check(t, hx.N{Quick: 8, Thorough: 200}, "45 signatures in rings of 510..560, where a position kept in a byte never gets past 255: the share of signers up to any position is the one expected (Kolmogorov-Smirnov, p = 1e-9); non-trivial: all",
		func(c *hx.C) {
			s := eachScheme(c)
			n := c.Int(510, 560, "ring")
			secrets := []S{rnd(c), rnd(c)}[:s.keys]
			decoys := make([][]P, n-1)
			for i := range decoys {
				decoys[i] = stock[1:][i%8 : i%8+s.keys]
			}
			count := make([]int, n)
			for t := 0; t < 45; t++ {
				r, _, err := s.sign(secrets, decoys, nil)
				c.Must(err, "sign")
				p := position(r, pubOf(secrets))
				if p < 0 {
					c.Fatalf("%s: ring of %d: the signer is not there once", s.name, n)
				}
				count[p]++
			}
			if d := drift(count); d > 21.5 {
				c.Fatalf("%s: the signer's position in rings of %d drifts (%.1f): %v", s.name, n, d, count)
			}
			c.NT(s.name, n)
			c.Note("%s: ring of %d", s.name, n)
		})
}

func TestC18_RandomSource(t *testing.T) {
	hx.Check(t, hx.N{Quick: 600, Thorough: 20000},
		"the same signature made 8 times with the same bytes from crypto/rand, in rings of 2..12 of either scheme: the position is the same each time, so nothing else (clock, other generators) decides it; non-trivial: all",
		func(c *hx.C) {
			s := eachScheme(c)
			n := c.Int(2, 12, "ring")
			secrets := s.secrets(c)
			decoys := distinctMembers(c, n-1, s.keys)
			msg := c.Msg("msg")
			first := -1
			for k := 0; k < 8; k++ {
				rand.Reader = hx.NewStream("again", ref.Val(secrets[0]), n)
				r, _, err := s.sign(secrets, decoys, msg)
				c.Must(err, "sign")
				p := position(r, pubOf(secrets))
				if k == 0 {
					first = p
				} else if p != first {
					c.Fatalf("%s: ring of %d: position %d, then %d from the same randomness", s.name, n, first, p)
				}
			}
			c.NT(s.name, n, first, ref.Val(secrets[0]))
			c.Note("%s: ring of %d, position %d", s.name, n, first)
		})
}

// faultySource gives random bytes but fails short reads, from one of them on.
// (The long ones are the scalars.) It does not fail what the standard library
// would end the process for.
type faultySource struct {
	io.Reader
	from   int
	short  int
	failed bool
}

var errSource = errors.New("no more randomness")

func (f *faultySource) Read(b []byte) (int, error) {
	if len(b) >= 16 || fatal() {
		return f.Reader.Read(b)
	}
	f.short++
	if f.short > f.from {
		f.failed = true
		return 0, errSource
	}
	return f.Reader.Read(b)
}

// fatal tells whether the bytes are read by rand.Read, which does not report errors.
func fatal() bool {
	pc := make([]uintptr, 16)
	fr := runtime.CallersFrames(pc[:runtime.Callers(1, pc)])
	for {
		f, more := fr.Next()
		if f.Function == "crypto/rand.Read" || f.Function == "crypto/rand.Text" {
			return true
		}
		if !more {
			return false
		}
	}
}

func TestC18_SourceFails(t *testing.T) {
	hx.Check(t, hx.N{Quick: 2000, Thorough: 60000},
		"signatures in rings of 2..12 while crypto/rand stops giving the bytes that positions are drawn from: there is no signature then, instead of one with a position that was not drawn; with no fault met the signature is as ever; non-trivial: a fault was met",
		func(c *hx.C) {
			s := eachScheme(c)
			n := c.Int(2, 12, "ring")
			secrets := s.secrets(c)
			decoys := distinctMembers(c, n-1, s.keys)
			msg := c.Msg("msg")
			f := &faultySource{Reader: rand.Reader, from: c.Int(0, n, "from")}
			rand.Reader = f
			var r *ref.Ring
			var err error
			if p := hx.NoPanic(func() { r, _, err = s.sign(secrets, decoys, msg) }); p != nil {
				err = p
			}
			if f.failed && err == nil {
				c.Fatalf("%s: ring of %d: the source of randomness failed at short read %d, and the signature was made: signer at %d", s.name, n, f.from, position(r, pubOf(secrets)))
			}
			if !f.failed {
				c.Must(err, "sign")
			} else {
				c.NT(s.name, n, f.from)
			}
			c.Label(fmt.Sprint("fault met ", f.failed))
			c.Note("%s: ring of %d, fault at short read %d", s.name, n, f.from)
		})
}

func TestC18_Concurrent(t *testing.T) {
	hx.Check(t, hx.N{Quick: 16, Thorough: 400},
		"600 signatures made by 6 goroutines at the same time: responses never repeat, signatures verify, positions are spread evenly; non-trivial: all",
		func(c *hx.C) {
			s := eachScheme(c)
			n := c.Int(2, 8, "ring")
			secrets := s.secrets(c)
			decoys := distinctMembers(c, n-1, s.keys)
			out := make([][]*ref.Ring, 6)
			errs := make([]error, 6)
			var wg sync.WaitGroup
			each := 100
			if hx.Race {
				each = 10
			}
			for g := range out {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[g] = hx.NoPanic(func() {
						for i := 0; i < each; i++ {
							r, im, err := s.sign(secrets, decoys, []byte("same"))
							if err == nil && i%20 == 0 && !s.verify(r, im) {
								err = fmt.Errorf("does not verify")
							}
							if err != nil {
								panic(err)
							}
							out[g] = append(out[g], r)
						}
					})
				}()
			}
			wg.Wait()
			pos := make([]int, n)
			seen := map[S]bool{}
			for g := range out {
				c.Must(errs[g], "signing concurrently")
				for _, r := range out[g] {
					at := position(r, pubOf(secrets))
					if at < 0 {
						c.Fatalf("%s: the signer is not in its ring once", s.name)
					}
					pos[at]++
					for _, row := range r.R {
						for _, x := range row {
							if seen[x] || ref.IsZero(x) {
								c.Fatalf("%s: a response twice in concurrent signatures", s.name)
							}
							seen[x] = true
						}
					}
				}
			}
			if each >= 100 && uneven(pos) {
				c.Fatalf("%s: ring of %d: positions in concurrent signatures %v", s.name, n, pos)
			}
			c.NT(s.name, n)
			c.Note("%s: ring of %d: %v", s.name, n, pos)
		})
}

// oneDraw: a byte of randomness goes into at most one of the decoys' responses.
func oneDraw(t *testing.T, n hx.N) {
	hx.Check(t, n,
		"pairs of signatures in rings of 2..40 of either scheme, made with bytes from crypto/rand that differ in one place: if the signer's position and the number of bytes drawn are the same, at most one of the decoys' responses and the signer's nonces differs, so that none is derived from another; non-trivial: one differs",
		func(c *hx.C) {
			s := eachScheme(c)
			n := c.Int(2, 40, "ring")
			secrets := s.secrets(c)
			decoys := distinctMembers(c, n-1, s.keys)
			msg := c.Msg("msg")
			seed := c.Src.Uint64()
			run := func(at int, by byte) (*ref.Ring, int, []S) {
				src := &hx.Tampered{R: hx.NewStream("one draw", seed), At: at, By: by}
				rand.Reader = src
				r, im, err := s.sign(secrets, decoys, msg)
				c.Must(err, "sign")
				return r, src.N, nonces(r, im, secrets)
			}
			a, drawn, na := run(-1, 0)
			at := int(c.Bits(30, "at")) % max(drawn, 1)
			by := byte(1 + c.Pick(255, "by"))
			b, again, nb := run(at, by)
			p := position(a, pubOf(secrets))
			if p < 0 || again != drawn || p != position(b, pubOf(secrets)) || !sameKeys(a.K, b.K) {
				c.Note("%s: ring of %d, byte %d of %d: another ring", s.name, n, at, drawn)
				return
			}
			var diff []string
			for i := range a.R {
				for j := range a.R[i] {
					if i != p && !ref.Eq(a.R[i][j], b.R[i][j]) {
						diff = append(diff, fmt.Sprintf("%d of member %d", j, i))
					}
				}
			}
			for i := range na {
				if !ref.Eq(na[i], nb[i]) {
					diff = append(diff, fmt.Sprint("nonce ", i))
				}
			}
			if len(diff) > 1 {
				c.Fatalf("%s: ring of %d, byte %d of %d other: responses of decoys and nonces %v other", s.name, n, at, drawn, diff)
			}
			if len(diff) == 1 {
				c.NT(s.name, n, at, by)
			}
			c.Note("%s: ring of %d, byte %d of %d: %v", s.name, n, at, drawn, diff)
		})
}

func sameKeys(a, b [][]P) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(rowBytes(a[i]), rowBytes(b[i])) {
			return false
		}
	}
	return true
}

func TestC18_OneDraw(t *testing.T) { oneDraw(t, hx.N{Quick: 800, Thorough: 60000}) }
func TestC27_OneDraw(t *testing.T) { oneDraw(t, hx.N{Quick: 400, Thorough: 30000}) }

// entropy: every nonce and every decoy's response is made of at least 128 bits
// of randomness, so that none can be found by trying.
func entropy(t *testing.T, n hx.N) {
	hx.Check(t, n,
		"a signature in a ring of 1..4 of either scheme, made again with each byte from crypto/rand changed in turn: each of the signer's nonces and of the decoys' responses depends on at least 16 of the bytes; non-trivial: all",
		func(c *hx.C) {
			s := eachScheme(c)
			n := c.Int(1, 4, "ring")
			secrets := s.secrets(c)
			decoys := distinctMembers(c, n-1, s.keys)
			msg := c.Msg("msg")
			seed := c.Src.Uint64()
			by := byte(1 + c.Pick(255, "by"))
			var drawn int
			run := func(at int) (*ref.Ring, []S) {
				src := &hx.Tampered{R: hx.NewStream("entropy", seed), At: at, By: by}
				rand.Reader = src
				r, im, err := s.sign(secrets, decoys, msg)
				c.Must(err, "sign")
				drawn = src.N
				return r, nonces(r, im, secrets)
			}
			a, na := run(-1)
			p := position(a, pubOf(secrets))
			if p < 0 {
				c.Fatalf("%s: the signer is not in its ring once", s.name)
			}
			total := drawn
			count := map[string]int{}
			for i := range na {
				count[fmt.Sprint("nonce ", i)] = 0
			}
			for i := range a.R {
				for j := range a.R[i] {
					if i != p {
						count[fmt.Sprintf("response %d of member %d", j, i)] = 0
					}
				}
			}
			for at := 0; at < total; at++ {
				b, nb := run(at)
				if p != position(b, pubOf(secrets)) || !sameKeys(a.K, b.K) {
					continue
				}
				for i := range na {
					if !ref.Eq(na[i], nb[i]) {
						count[fmt.Sprint("nonce ", i)]++
					}
				}
				for i := range a.R {
					for j := range a.R[i] {
						if i != p && !ref.Eq(a.R[i][j], b.R[i][j]) {
							count[fmt.Sprintf("response %d of member %d", j, i)]++
						}
					}
				}
			}
			for k, v := range count {
				if v < 16 {
					c.Fatalf("%s: ring of %d, %d bytes drawn: %s depends on %d of them", s.name, n, total, k, v)
				}
			}
			c.NT(s.name, n, seed)
			c.Note("%s: ring of %d, %d bytes drawn", s.name, n, total)
		})
}

func TestC18_Entropy(t *testing.T) { entropy(t, hx.N{Quick: 40, Thorough: 4000}) }
func TestC27_Entropy(t *testing.T) { entropy(t, hx.N{Quick: 40, Thorough: 4000}) }
