// Package main is the bounded companion of the proofs: for every property it
// runs the real exported code of the plugin on generated inputs and compares
// it with an independent oracle written from the property text.  It is used
// (1) to replay a failed obligation on the real code and (2) as a labelled,
// bounded stand-in for the functions the verifier cannot reach.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Case is one generated case.
type Case struct {
	R     *rand.Rand
	Sub   string
	Seed  int64
	N     int // running number of the case inside its sub test: grows the size
	log   []string
	fails []string
	key   string
	triv  bool
}

func (c *Case) In(format string, a ...interface{}) { c.log = append(c.log, fmt.Sprintf(format, a...)) }
func (c *Case) Fail(format string, a ...interface{}) {
	c.fails = append(c.fails, fmt.Sprintf(format, a...))
}
func (c *Case) Failed() bool    { return len(c.fails) > 0 }
func (c *Case) Key(s string)    { c.key = s }
func (c *Case) Trivial()        { c.triv = true }
func (c *Case) Intn(n int) int  { return c.R.Intn(n) }
func (c *Case) Chance(p float64) bool { return c.R.Float64() < p }

// Size grows slowly with the number of the case, so the first failing case is small.
func (c *Case) Size(lo, hi int) int {
	var m = lo + c.N/40
	if m > hi {
		m = hi
	}
	if m < lo+1 {
		m = lo + 1
		if m > hi {
			m = hi
		}
	}
	return lo + c.R.Intn(m-lo+1)
}

type Sub struct {
	Prop, Name string
	Rule       string
	Max        int // at most this many cases per quick run (0: time only)
	Fn         func(*Case)
}

var subs []Sub

func reg(prop, name, rule string, fn func(*Case)) {
	subs = append(subs, Sub{Prop: prop, Name: name, Rule: rule, Fn: fn})
}

type Failure struct {
	Sub   string   `json:"sub"`
	Seed  int64    `json:"seed"`
	N     int      `json:"n"`
	Input []string `json:"input"`
	Fails []string `json:"fails"`
}

type Report struct {
	Property    string         `json:"property"`
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Rules       []string       `json:"rules"`
	Samples     []string       `json:"samples"`
	Failures    []Failure      `json:"failures"`
	PerSub      map[string]int `json:"per_sub"`
	Wall        float64        `json:"wall_s"`
}

func mix(a, b int64) int64 {
	var x = uint64(a)*0x9E3779B97F4A7C15 + uint64(b)
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return int64(x >> 1)
}

func hashStr(s string) int64 {
	var h uint64 = 1469598103934665603
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return int64(h >> 1)
}

var caseTimeout = 20 * time.Second

func runCase(s *Sub, seed int64, n int) *Case {
	var c = &Case{R: rand.New(rand.NewSource(seed)), Sub: s.Name, Seed: seed, N: n}
	var done = make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				var st = strings.Split(string(debug.Stack()), "\n")
				var keep []string
				for _, l := range st {
					if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "core.go") {
						keep = append(keep, strings.TrimSpace(l))
					}
				}
				if len(keep) > 6 {
					keep = keep[:6]
				}
				c.Fail("panic: %v at %s", e, strings.Join(keep, " <- "))
			}
		}()
		s.Fn(c)
	}()
	select {
	case <-done:
	case <-time.After(caseTimeout):
		// the worker may still be running: report without touching c's slices
		return &Case{Sub: s.Name, Seed: seed, N: n, log: append([]string{}, c.log...),
			fails: []string{fmt.Sprintf("no result after %v: the call does not return", caseTimeout)}, key: "hang"}
	}
	return c
}

func main() {
	var prop = flag.String("prop", "", "property")
	var only = flag.String("sub", "", "only this sub test")
	var seed = flag.Int64("seed", 1, "seed")
	var secs = flag.Float64("time", 8, "seconds")
	var out = flag.String("out", "", "report file")
	var replaySeed = flag.Int64("replay-seed", 0, "case seed to replay")
	var replayN = flag.Int("replay-n", 0, "case number to replay")
	var maxFail = flag.Int("maxfail", 1, "stop a sub test after this many failures")
	flag.Parse()
	runtime.GOMAXPROCS(runtime.NumCPU())

	var mine []*Sub
	for i := range subs {
		if subs[i].Prop == *prop && (*only == "" || subs[i].Name == *only) {
			mine = append(mine, &subs[i])
		}
	}
	if len(mine) == 0 {
		fmt.Println("no sub tests for", *prop)
		os.Exit(3)
	}
	var rep = Report{Property: *prop, PerSub: map[string]int{}}
	if *replaySeed != 0 {
		var c = runCase(mine[0], *replaySeed, *replayN)
		for _, l := range c.log {
			fmt.Println("input:", l)
		}
		for _, l := range c.fails {
			fmt.Println("FAIL:", l)
		}
		if len(c.fails) > 0 {
			os.Exit(1)
		}
		fmt.Println("OK")
		return
	}
	var t0 = time.Now()
	var seen = map[string]bool{}
	var nfail = map[string]int{}
	for _, s := range mine {
		rep.Rules = append(rep.Rules, s.Name+": "+s.Rule)
	}
	var per = time.Duration(*secs * float64(time.Second) / float64(len(mine)))
	for _, s := range mine {
		var ts = time.Now()
		var ns = hashStr(s.Name)
		for n := 0; time.Since(ts) < per; n++ {
			if nfail[s.Name] >= *maxFail {
				break
			}
			var cs = mix(mix(*seed, ns), int64(n)) | 1
			var c = runCase(s, cs, n)
			rep.Evaluations++
			rep.PerSub[s.Name]++
			var key = c.key
			if key == "" {
				key = strings.Join(c.log, ";")
			}
			if !c.triv {
				var k = fmt.Sprint(s.Name, "|", hashStr(key))
				if !seen[k] {
					seen[k] = true
					rep.Distinct++
					if rep.PerSub[s.Name] > 30 && len(rep.Samples) < 2*len(mine) && strings.Count(strings.Join(rep.Samples, "\n"), "["+s.Name+"]") < 2 && len(c.log) > 0 {
						var smp = strings.Join(c.log, " ; ")
						if len(smp) > 600 {
							smp = smp[:600] + "..."
						}
						rep.Samples = append(rep.Samples, "["+s.Name+"] "+smp)
					}
				}
			}
			if len(c.fails) > 0 {
				nfail[s.Name]++
				rep.Failures = append(rep.Failures, Failure{s.Name, cs, n, c.log, c.fails})
			}
		}
	}
	sort.SliceStable(rep.Failures, func(i, j int) bool {
		return len(strings.Join(rep.Failures[i].Input, "")) < len(strings.Join(rep.Failures[j].Input, ""))
	})
	rep.Wall = time.Since(t0).Seconds()
	var dat, _ = json.MarshalIndent(rep, "", " ")
	if *out != "" {
		if err := os.WriteFile(*out, dat, 0644); err != nil {
			panic(err)
		}
	} else {
		fmt.Println(string(dat))
	}
}
