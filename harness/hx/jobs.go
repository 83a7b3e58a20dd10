package hx

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Job is one thing a goroutine does with the code under test. Prep makes the
// input without using the code under test, run uses it, and check judges what
// came out; values in fresh have to be different in all results.
type Job struct {
	Name  string
	Props string
	Prep  func(r *mrand.Rand) (run func() any, check func(out any) (bad string, fresh []string))
}

var jobs []Job

// Jobs registers what the package's goroutines can do.
func Jobs(l ...Job) { jobs = append(jobs, l...) }

type group struct {
	job    int
	seed   uint64
	copies int // goroutines with the same input
	reps   int
}

func (g group) String() string { return fmt.Sprintf("%d:%d:%d:%d", g.job, g.seed, g.copies, g.reps) }

// together runs the groups' goroutines at the same time, or interleaved one
// step at a time; "" or what was wrong.
func together(gs []group, oneByOne bool) string {
	type slot struct {
		g     int
		run   func() any
		check func(any) (string, []string)
		reps  int
		outs  []any
		err   error
	}
	var slots []*slot
	for i, g := range gs {
		r := mrand.New(mrand.NewChaCha8(sha256.Sum256([]byte(fmt.Sprint("job", g.seed)))))
		run, check := jobs[g.job].Prep(r)
		for k := 0; k < g.copies; k++ {
			slots = append(slots, &slot{g: i, run: run, check: check, reps: g.reps})
		}
	}
	if oneByOne {
		for k := 0; k < 4; k++ {
			for _, s := range slots {
				if k < s.reps && s.err == nil {
					s.err = NoPanic(func() { s.outs = append(s.outs, s.run()) })
				}
			}
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, s := range slots {
		if oneByOne {
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			s.err = NoPanic(func() {
				for k := 0; k < s.reps; k++ {
					s.outs = append(s.outs, s.run())
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	seen := map[string]string{}
	for _, s := range slots {
		name := jobs[gs[s.g].job].Name
		if s.err != nil {
			return fmt.Sprintf("%s: %v", name, s.err)
		}
		for _, o := range s.outs {
			bad, fresh := s.check(o)
			if bad != "" {
				return name + ": " + bad
			}
			for _, f := range fresh {
				if other, ok := seen[f]; ok {
					return fmt.Sprintf("%s and %s: the same random value", other, name)
				}
				seen[f] = name
			}
		}
	}
	return ""
}

// Together checks that the property's jobs give the right results when done
// at the same time, in this process or in a new one where nothing was done
// before.
func Together(t *testing.T, n N) {
	t.Helper()
	prop := strings.TrimPrefix(strings.Split(t.Name(), "_")[0], "Test")
	var mine []int
	for i, j := range jobs {
		if strings.Contains(j.Props, prop) || prop == "C29" {
			mine = append(mine, i)
		}
	}
	if len(mine) == 0 {
		panic("HARNESS-ERROR: no jobs for " + prop)
	}
	if Race {
		n.Quick, n.Thorough = (n.Quick+3)/4, n.Thorough/4
	}
	Check(t, n, "1..4 inputs (drawn without the code under test), each used by 1..3 goroutines 1..2 times, all started at once, in a new process or in this one; every result judged by itself and random values compared between all (second run with the race detector); non-trivial: at least two goroutines",
		func(c *C) {
			rand.Reader = osRand
			if c.Chance(4, "slow source") {
				rand.Reader = slowRand{}
			}
			var gs []group
			total := 0
			for k := c.Int(1, 4, "inputs"); k > 0; k-- {
				g := group{mine[c.Pick(len(mine), "job")], c.Bits(32, "seed"), c.Int(1, 3, "copies"), c.Int(1, 2, "times")}
				gs = append(gs, g)
				total += g.copies
			}
			var names []string
			for _, g := range gs {
				names = append(names, fmt.Sprintf("%s x%d", jobs[g.job].Name, g.copies))
			}
			cold := c.Bool("new process")
			if cold {
				if out, err := coldRun(gs); err != nil {
					c.Fatalf("%v at once in a new process: %v\n%s", names, err, out)
				}
			} else if one := prop == "C29" && c.Bool("one by one"); one {
				if bad := together(gs, true); bad != "" {
					c.Fatalf("%v one after the other: %s", names, bad)
				}
			} else if bad := together(gs, false); bad != "" {
				c.Fatalf("%v at once: %s", names, bad)
			}
			if total > 1 {
				c.NT(cold, names, gs)
			}
			c.Note("new process %v: %v", cold, names)
		})
}

// Mixed lets goroutines switch between a few inputs for a while, so that each
// comes back to what it did before while others are busy with something else:
// whatever is remembered between calls is met at any moment.
func Mixed(t *testing.T, n N) {
	t.Helper()
	Check(t, n, "2..4 inputs, mostly for the same kind of call, used by 8 goroutines that switch between them at random for a third of a second; every result judged by itself and random values compared between all; non-trivial: all",
		func(c *C) {
			rand.Reader = osRand
			if c.Bool("slow source") {
				rand.Reader = slowRand{}
			}
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(runtime.NumCPU()))
			type input struct {
				name  string
				run   func() any
				check func(any) (string, []string)
			}
			var in []input
			var names []string
			job := c.Pick(len(jobs), "job")
			for k := c.Int(2, 4, "inputs"); k > 0; k-- {
				if c.Chance(4, "another kind") {
					job = c.Pick(len(jobs), "job")
				}
				r := mrand.New(mrand.NewChaCha8(sha256.Sum256([]byte(fmt.Sprint("job", c.Bits(32, "seed"))))))
				run, check := jobs[job].Prep(r)
				in = append(in, input{jobs[job].Name, run, check})
				names = append(names, jobs[job].Name)
			}
			type out struct {
				in int
				o  any
			}
			outs := make([][]out, 8)
			errs := make([]error, len(outs))
			end := time.Now().Add(time.Second / 3)
			seed := c.Bits(32, "order")
			var wg sync.WaitGroup
			for g := range outs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := mrand.New(mrand.NewPCG(seed, uint64(g)))
					i := 0
					errs[g] = NoPanic(func() {
						for k := 0; k < 2 || k < 400 && time.Now().Before(end); k++ {
							if r.IntN(3) > 0 {
								i = r.IntN(len(in))
							}
							outs[g] = append(outs[g], out{i, in[i].run()})
						}
					})
				}()
			}
			wg.Wait()
			seen := map[string]string{}
			for g := range outs {
				if errs[g] != nil {
					c.Fatalf("%v: %v", names, errs[g])
				}
				for k, o := range outs[g] {
					// judging is slow for some: not all of them
					if k >= 100 && k < len(outs[g])-4 && o.o != any("") {
						continue
					}
					bad, fresh := in[o.in].check(o.o)
					if bad != "" {
						c.Fatalf("%v by turns in 8 goroutines: %s (the %dth call of one): %s", names, in[o.in].name, k+1, bad)
					}
					for _, f := range fresh {
						if other, ok := seen[f]; ok {
							c.Fatalf("%v by turns in 8 goroutines: %s and %s: the same random value", names, other, in[o.in].name)
						}
						seen[f] = in[o.in].name
					}
				}
			}
			c.NT(names, seed)
			c.Note("%v", names)
		})
}

var osRand = rand.Reader

// slowRand is the random source with pauses, so that others get to do a lot
// between two steps of one that draws something.
type slowRand struct{}

func (slowRand) Read(b []byte) (int, error) {
	switch mrand.IntN(8) {
	case 0:
		time.Sleep(time.Millisecond)
	case 1:
		runtime.Gosched()
	}
	return osRand.Read(b)
}

func coldRun(gs []group) (string, error) {
	var l []string
	for _, g := range gs {
		l = append(l, g.String())
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_COLD="+strings.Join(l, ","), "GOMAXPROCS="+strconv.Itoa(min(4, runtime.NumCPU())), "GORACE=exitcode=66 atexit_sleep_ms=0")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	s := out.String()
	if err == nil || strings.Contains(s, "DATA RACE") || strings.Contains(s, "VERIF-WRONG") || strings.Contains(s, "fatal error") || strings.Contains(s, "panic") {
		return s, err
	}
	panic(fmt.Sprint("HARNESS-ERROR: child: ", err, s))
}

// coldMain is the new process.
func coldMain(spec string) {
	var gs []group
	for _, f := range strings.Split(spec, ",") {
		p := strings.Split(f, ":")
		num := func(i int) int { n, _ := strconv.Atoi(p[i]); return n }
		s, _ := strconv.ParseUint(p[1], 10, 64)
		gs = append(gs, group{num(0), s, num(2), num(3)})
	}
	if bad := together(gs, false); bad != "" {
		fmt.Println("VERIF-WRONG", bad)
		os.Exit(1)
	}
	os.Exit(0)
}
