// Package hx is the small framework all property checks share: it drives
// rapid with per-test case budgets, makes every case deterministic (including
// the randomness the code under test draws), counts what was generated, and
// reports known findings and hangs.
package hx

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	mrand "math/rand/v2"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- settings

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

var (
	seed     = envInt("VERIF_SEED", 1)
	shard    = envInt("VERIF_SHARD", 0)
	shards   = envInt("VERIF_SHARDS", 1)
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	replay   = os.Getenv("VERIF_REPLAY") != ""
	deadline = time.Now().Add(time.Duration(envInt("VERIF_BUDGET_S", 3600)) * time.Second)
)

// Thorough tells which tier runs.
func Thorough() bool { return thorough }

// Shard is the index of this process among those sharing the work.
func Shard() int { return shard }

// ------------------------------------------------------------------- stats

type testStats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Skipped     int            `json:"skipped_after_deadline"`
	Keys        []string       `json:"keys"`
	Samples     []string       `json:"samples"`
	Labels      map[string]int `json:"labels"`
	keys        map[string]struct{}
}

type known struct {
	ID     string `json:"id"`
	Detail string `json:"detail"`
}

var (
	mu       sync.Mutex
	stats    = map[string]*testStats{}
	knownHit = map[string]known{}
)

// Flush writes what this process covered; called by Main.
func flush() {
	path := os.Getenv("VERIF_STATS")
	if path == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	var out struct {
		Tests []*testStats `json:"tests"`
		Known []known      `json:"known"`
	}
	for _, s := range stats {
		s.Keys = s.Keys[:0]
		for k := range s.keys {
			s.Keys = append(s.Keys, k)
		}
		out.Tests = append(out.Tests, s)
	}
	sort.Slice(out.Tests, func(i, j int) bool { return out.Tests[i].Test < out.Tests[j].Test })
	for _, k := range knownHit {
		out.Known = append(out.Known, k)
	}
	b, _ := json.Marshal(out)
	_ = os.WriteFile(path, b, 0o644)
}

// Main is the body of every TestMain.
func Main(m *testing.M) {
	if spec := os.Getenv("VERIF_COLD"); spec != "" {
		coldMain(spec)
	}
	flag.Parse()
	code := m.Run()
	flush()
	os.Exit(code)
}

// -------------------------------------------------------------------- rand

// Stream is a deterministic byte stream, safe for concurrent use.
type Stream struct {
	mu sync.Mutex
	c  *mrand.ChaCha8
}

func (s *Stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.c.Read(p)
}

// NewStream makes the stream determined by the given values.
func NewStream(vals ...any) *Stream {
	return &Stream{c: mrand.NewChaCha8(sha256.Sum256([]byte(fmt.Sprint(vals...))))}
}

// Tampered is a stream of which one byte is changed; N counts the bytes read.
type Tampered struct {
	R     io.Reader
	At, N int
	By    byte
}

func (t *Tampered) Read(p []byte) (int, error) {
	n, err := t.R.Read(p)
	if k := t.At - t.N; k >= 0 && k < n {
		p[k] ^= t.By
	}
	t.N += n
	return n, err
}

// WithRand runs f while crypto/rand is the stream determined by vals. It is
// used to build cached objects whose value must not depend on the case that
// happens to need them first.
func WithRand(f func(), vals ...any) {
	old := rand.Reader
	rand.Reader = NewStream(vals...)
	defer func() { rand.Reader = old }()
	f()
}

// -------------------------------------------------------------------- case

// C is one generated case.
type C struct {
	*rapid.T
	st     *testStats
	Src    *mrand.Rand // deterministic, derived from the case's drawn seed
	seed   uint64
	key    string
	labels []string
	notes  []string
}

// Bits draws n unbiased bits.
func (c *C) Bits(n int, label string) uint64 {
	g := rapid.Custom(func(t *rapid.T) uint64 {
		var v uint64
		for i := 0; i < n; i++ {
			v <<= 1
			if bit.Draw(t, "") {
				v |= 1
			}
		}
		return v
	})
	return g.Draw(c.T, label)
}

var bit = rapid.Bool()

// Pick draws an index in [0,n), all equally likely.
func (c *C) Pick(n int, label string) int {
	if n <= 1 {
		return 0
	}
	k := 6
	for 1<<uint(k-6) < n {
		k++
	}
	return int(c.Bits(k, label) % uint64(n))
}

// Int draws from [lo,hi], all equally likely.
func (c *C) Int(lo, hi int, label string) int { return lo + c.Pick(hi-lo+1, label) }

// Bool draws a coin.
func (c *C) Bool(label string) bool { return c.Bits(1, label) == 1 }

// Chance is true once in n.
func (c *C) Chance(n int, label string) bool { return c.Pick(n, label) == n-1 }

// Choose draws one of the given values, all equally likely.
func Choose[V any](c *C, label string, vals ...V) V { return vals[c.Pick(len(vals), label)] }

// Bytes returns n bytes determined by the case.
func (c *C) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.Src.Uint32())
	}
	return b
}

// Msg draws a message: empty, short, block-boundary or long, random or constant.
func (c *C) Msg(label string) []byte {
	var n int
	switch c.Pick(6, label+".kind") {
	case 0:
		n = c.Int(0, 3, label+".len")
	case 1:
		n = c.Int(30, 34, label+".len")
	case 2:
		n = c.Int(60, 70, label+".len")
	case 3:
		n = c.Int(126, 140, label+".len")
	case 4:
		n = c.Int(0, 600, label+".len")
		if c.Chance(12, label+".big") {
			n = Choose(c, label+".size", 256, 512, 1000, 1024, 2048, 4000, 4096, 5000, 8192, 10000, 16384, 65536, 100000) + c.Int(-2, 2, label+".off")
		}
	default:
		n = c.Int(4, 40, label+".len")
	}
	b := c.Bytes(n)
	if c.Chance(6, label+".const") {
		v := Choose(c, label+".fill", byte(0), byte(0xff))
		for i := range b {
			b[i] = v
		}
	} else if n > 0 && c.Chance(6, label+".pattern") {
		// parts of it filled or repeated
		k := c.Int(1, min(n, 40), label+".part")
		switch v := Choose(c, label+".fill", byte(0), byte(0xff)); c.Pick(3, label+".where") {
		case 0:
			for i := range k {
				b[i] = v
			}
		case 1:
			for i := range k {
				b[n-1-i] = v
			}
		default:
			for i := k; i < n; i++ {
				b[i] = b[i-k]
			}
		}
	} else if n > 0 && c.Chance(6, label+".text") {
		for i := range b {
			b[i] = textChars[int(b[i])%len(textChars)]
		}
	}
	return b
}

// LongPair draws a long message and one that differs from it in one place, both
// the length and the place being mostly at or next to a multiple of a block size.
func (c *C) LongPair(label string) (a, b []byte, what string) {
	block := func(l string) int { return 1 << c.Int(6, 16, label+l) }
	near := func(l string, most int) int {
		n := block(l)
		k := c.Int(0, max(1, min(8, most/n)), label+l+".k")
		return max(0, min(most, n*k+Choose(c, label+l+".off", 0, 0, -1, 1, -2, 2)))
	}
	n := max(1, near(".len", 1<<17))
	if n < 600 {
		n += block(".len2")
	}
	a = c.Bytes(n)
	b = append([]byte(nil), a...)
	at := min(n-1, near(".at", n-1))
	if c.Chance(3, label+".anywhere") {
		at = c.Pick(n, label+".at")
	}
	switch c.Pick(8, label+".how") {
	default:
		b[at] ^= 1 << c.Pick(8, label+".bit")
		what = fmt.Sprintf("%d bytes, byte %d", n, at)
	case 5: // the rest is missing
		b = b[:at]
		what = fmt.Sprintf("%d bytes, cut at %d", n, at)
	case 6: // one byte more or less in the middle
		if c.Bool(label + ".less") {
			b = append(b[:at], b[at+1:]...)
		} else {
			b = append(append(append([]byte(nil), a[:at]...), byte(c.Pick(2, label+".byte"))), a[at:]...)
		}
		what = fmt.Sprintf("%d bytes, longer or shorter at %d", n, at)
	case 7: // two blocks exchanged
		k := block(".block")
		if x, y := at/k*k, (at/k+1)*k; y+k <= n {
			copy(b[x:], a[y:y+k])
			copy(b[y:], a[x:x+k])
		}
		what = fmt.Sprintf("%d bytes, two blocks of %d exchanged at %d", n, k, at/k*k)
	}
	if bytes.Equal(a, b) {
		b[at] ^= 1
	}
	return a, b, what
}

const textChars = "abcdefgXYZ0123456789 \t\r\n.,:{}\"\x00\xc3\xa9 "

// AlterMsg returns a different message.
func (c *C) AlterMsg(m []byte, label string) []byte {
	out := append([]byte(nil), m...)
	n := len(m)
	switch c.Pick(11, label+".alter") {
	case 8: // the same to a reader: space at the ends, line ends
		v := Choose(c, label+".space", " ", "\n", "\t", "\r\n", "\x00")
		switch c.Pick(5, label+".how") {
		case 0:
			out = append(out, v...)
		case 1:
			out = append([]byte(v), out...)
		case 2:
			out = bytes.TrimSpace(out)
		case 3:
			out = bytes.ReplaceAll(out, []byte("\n"), []byte("\r\n"))
		default:
			out = bytes.Join(bytes.Fields(out), []byte(" "))
		}
	case 9: // case, and bytes that are no text
		switch c.Pick(3, label+".how") {
		case 0:
			out = bytes.ToUpper(out)
		case 1:
			out = bytes.ToLower(out)
		default:
			out = bytes.ToValidUTF8(out, []byte("\ufffd"))
		}
	case 0: // cut at the end
		out = out[:n-min(n, c.Int(1, 3, label+".cut"))]
	case 1: // anywhere
		out = out[:c.Int(0, n, label+".keep")]
	case 2: // cut in front
		out = out[min(n, c.Int(1, 3, label+".cut")):]
	case 3: // longer
		v := Choose(c, label+".fill", byte(0), byte(1), byte(0x80), byte(0xff))
		k := Choose(c, label+".more", 1, 2, 8, 32, 64-n%64, 128-n%128, 136-n%136)
		for range k {
			if c.Src.IntN(9) == 0 { // in front, once in a while
				out = append([]byte{v}, out...)
			} else {
				out = append(out, v)
			}
		}
	case 4: // said twice
		out = append(out, m...)
	case 5: // two parts exchanged
		if n > 1 {
			k := Choose(c, label+".at", 1, n/2, n-1)
			out = append(append([]byte(nil), m[k:]...), m[:k]...)
		}
	case 6: // a bit at one of the ends
		if n > 0 {
			out[Choose(c, label+".end", 0, n-1, n/2)] ^= 1 << c.Pick(8, label+".bit")
		}
	}
	if string(out) == string(m) {
		if n == 0 {
			return []byte{byte(c.Pick(2, label+".byte"))}
		}
		out[c.Pick(n, label+".pos")] ^= 1 << c.Pick(8, label+".bit")
	}
	return out
}

// NT marks the case as non-trivial; cases with the same key count once.
func (c *C) NT(key ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, key...)
	c.key = strconv.FormatUint(h.Sum64(), 36)
}

// Label counts how often a kind of case occurred.
func (c *C) Label(l string) { c.labels = append(c.labels, l) }

// Note describes the case for the evidence samples.
func (c *C) Note(format string, args ...any) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}

// Must fails the case on an unexpected error.
func (c *C) Must(err error, what string) {
	if err != nil {
		c.Fatalf("%s: unexpected error: %v", what, err)
	}
}

// Known reports a defect that the committed known-findings file may list; if
// it does not, the case fails.
func (c *C) Known(id, format string, args ...any) {
	detail := fmt.Sprintf(format, args...)
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k == id {
			mu.Lock()
			if _, ok := knownHit[id]; !ok {
				knownHit[id] = known{id, detail}
			}
			mu.Unlock()
			return
		}
	}
	c.Fatalf("%s: %s", id, detail)
}

// Short renders bytes for notes and messages.
func Short(b []byte) string {
	if len(b) <= 12 {
		return hex.EncodeToString(b)
	}
	return fmt.Sprintf("%s..(%d bytes)", hex.EncodeToString(b[:8]), len(b))
}

// NoPanic runs f and turns a panic into an error; for goroutines, where rapid
// cannot see it.
func NoPanic(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			err = fmt.Errorf("panic: %v\n%s", r, buf)
		}
	}()
	f()
	return nil
}

// Alloc runs f and returns how many bytes it allocated.
func Alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// ------------------------------------------------------------------- check

// N is the number of cases of a check per tier, over all shards.
type N struct{ Quick, Thorough int }

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

var (
	caseStartCPU  atomic.Uint64 // float bits *1000
	caseStartWall atomic.Int64
	caseName      atomic.Value
	watchdog      sync.Once
)

// a single case never needs more than a few CPU seconds; a case that used up
// these limits is reported as a hang.
const (
	hangCPU  = 120.0
	hangWall = 300.0
)

func startWatchdog() {
	go func() {
		for {
			time.Sleep(time.Second)
			start := caseStartWall.Load()
			if start == 0 {
				continue
			}
			cpu := cpuSeconds() - float64(caseStartCPU.Load())/1000
			wall := time.Since(time.Unix(0, start)).Seconds()
			if cpu > hangCPU || (wall > hangWall && cpu > hangCPU/4) || (wall > hangWall && cpu < 1) {
				fmt.Printf("VERIF-HANG %v cpu=%.0fs wall=%.0fs\n", caseName.Load(), cpu, wall)
				_ = pprof.Lookup("goroutine").WriteTo(os.Stdout, 1)
				os.Exit(97)
			}
		}
	}()
}

// Check runs prop on the tier's number of generated cases. rule says what the
// generator makes and when a case is non-trivial.
func Check(t *testing.T, n N, rule string, prop func(c *C)) {
	t.Helper()
	watchdog.Do(startWatchdog)
	st := &testStats{Test: t.Name(), Rule: rule, keys: map[string]struct{}{}, Labels: map[string]int{}}
	mu.Lock()
	stats[t.Name()] = st
	mu.Unlock()

	total := n.Quick
	if thorough {
		total = n.Thorough
	}
	mine := total / shards
	if shard < total%shards {
		mine++
	}
	if mine == 0 && !replay {
		return
	}
	if replay {
		mine = 1
	}
	sum := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d/%v", t.Name(), seed, shard, thorough)))
	s := binary.LittleEndian.Uint64(sum[:]) | 1
	_ = flag.Set("rapid.checks", strconv.Itoa(mine))
	_ = flag.Set("rapid.seed", strconv.FormatUint(s, 10))
	_ = flag.Set("rapid.shrinktime", "20s")

	oldReader := rand.Reader
	defer func() { rand.Reader = oldReader }()

	rapid.Check(t, func(rt *rapid.T) {
		if time.Now().After(deadline) && !t.Failed() {
			st.Skipped++
			return
		}
		c := &C{T: rt, st: st}
		c.seed = c.Bits(40, "seed")
		c.Src = mrand.New(mrand.NewChaCha8(sha256.Sum256([]byte(fmt.Sprint("src", c.seed)))))
		rand.Reader = NewStream("case", c.seed)
		caseName.Store(t.Name())
		caseStartCPU.Store(uint64(cpuSeconds() * 1000))
		caseStartWall.Store(time.Now().UnixNano())
		defer caseStartWall.Store(0)

		prop(c)

		st.Evaluations++
		for _, l := range c.labels {
			st.Labels[l]++
		}
		if c.key != "" {
			if _, ok := st.keys[c.key]; !ok {
				st.keys[c.key] = struct{}{}
				if len(st.Samples) < 3 && len(c.notes) > 0 {
					st.Samples = append(st.Samples, strings.Join(c.notes, "; "))
				}
			}
		}
	})
}

var _ io.Reader = (*Stream)(nil)
