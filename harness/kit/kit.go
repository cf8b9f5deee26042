// Package kit holds what all monitors share: seeded cases, the reporter that
// turns oracle failures into violations with a replayable witness, coverage
// counters for the evidence, and the virtual-time bubble.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"mime"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

type Violation struct {
	Workload string   `json:"workload"`
	Case     int      `json:"case"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
}

type Result struct {
	Property     string            `json:"property"`
	Done         bool              `json:"done"`
	Cases        int               `json:"cases"`
	Counters     map[string]int64  `json:"counters"`
	Distinct     []uint64          `json:"distinct"`
	Samples      []any             `json:"samples"`
	Violations   []Violation       `json:"violations"`
	Findings     map[string]string `json:"findings"`
	Inconclusive []string          `json:"inconclusive"`
}

type Rep struct {
	T        *testing.T
	Prop     string
	Seed     uint64
	Thorough bool

	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	shard    int
	shards   int
	only     string // workload:case to replay
	out      string
	progress *os.File
	halt     string // the file that says that a violation was seen
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Run executes the monitor of one property.
func Run(t *testing.T, prop string, f func(r *Rep)) {
	r := &Rep{T: t, Prop: prop, Seed: uint64(envInt("VERIF_SEED", 1)), Thorough: os.Getenv("VERIF_TIER") == "thorough",
		distinct: map[uint64]struct{}{}, shard: envInt("VERIF_SHARD", 0), shards: envInt("VERIF_SHARDS", 1),
		only: os.Getenv("VERIF_ONLY"), out: os.Getenv("VERIF_OUT"), halt: os.Getenv("VERIF_HALT")}
	r.res.Property = prop
	r.res.Counters = map[string]int64{}
	r.res.Findings = map[string]string{}
	if p := os.Getenv("VERIF_PROGRESS"); p != "" {
		r.progress, _ = os.Create(p)
	}
	f(r)
	r.res.Done = true
	r.flush()
	for _, v := range r.res.Violations {
		fmt.Printf("violated: %s %s case %d: %s\n", prop, v.Workload, v.Case, v.Message)
	}
}

func (r *Rep) flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Distinct = r.res.Distinct[:0]
	for h := range r.distinct {
		r.res.Distinct = append(r.res.Distinct, h)
	}
	sort.Slice(r.res.Distinct, func(i, j int) bool { return r.res.Distinct[i] < r.res.Distinct[j] })
	if r.out == "" {
		return
	}
	b, err := json.Marshal(&r.res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(r.out, b, 0644); err != nil {
		panic(err)
	}
}

func (r *Rep) Count(name string, n int) {
	r.mu.Lock()
	r.res.Counters[name] += int64(n)
	r.mu.Unlock()
}

func (r *Rep) Max(name string, n int) {
	r.mu.Lock()
	if r.res.Counters["max_"+name] < int64(n) {
		r.res.Counters["max_"+name] = int64(n)
	}
	r.mu.Unlock()
}

// Pick returns q in the quick tier, th in the thorough one.
func (r *Rep) Pick(q, th int) int {
	if r.Thorough {
		return th
	}
	return max(q, min(th, q*envInt("VERIF_SCALE", 1)))
}

func (r *Rep) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	r.res.Inconclusive = append(r.res.Inconclusive, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

// Finding records that a specific, individually identified failing input was observed to fail.
// The driver reports it as a known finding if it is listed, as a violation otherwise.
func (r *Rep) Finding(id, what string) {
	r.mu.Lock()
	r.res.Findings[id] = what
	r.mu.Unlock()
}

type Case struct {
	*Rep
	Workload string
	N        int
	Rng      *rand.Rand
	tmu      sync.Mutex
	trace    []string
	failed   bool
	sig      uint64
}

const maxViolations = 5

// Cases runs f for n seeded cases of the named workload (this shard's share of them).
func (r *Rep) Cases(workload string, n int, f func(c *Case)) {
	for i := 0; i < n; i++ {
		if r.only != "" {
			if r.only != fmt.Sprintf("%s:%d", workload, i) && r.only != workload {
				continue
			}
		} else if i%r.shards != r.shard {
			continue
		}
		r.mu.Lock()
		stop := len(r.res.Violations) >= maxViolations
		r.mu.Unlock()
		if !stop && r.halt != "" {
			_, err := os.Stat(r.halt) // another process of this check has seen a violation
			stop = err == nil
		}
		if stop {
			return
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%s/%d/%d", r.Prop, workload, r.Seed, i)
		c := &Case{Rep: r, Workload: workload, N: i, Rng: rand.New(rand.NewPCG(h.Sum64(), r.Seed*0x9e3779b97f4a7c15+uint64(i)))}
		if r.progress != nil {
			r.progress.WriteAt([]byte(fmt.Sprintf("%-60s\n", fmt.Sprintf("%s:%d", workload, i))), 0)
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					if strings.Contains(st, "gocraft/health") {
						c.Failf("panic in the code under test: %v\n%s", p, trimStack(st))
					} else {
						panic(fmt.Sprintf("HARNESS: %v\n%s", p, st))
					}
				}
			}()
			f(c)
		}()
		r.mu.Lock()
		if i == r.shard && len(c.trace) > 0 {
			n := len(c.trace)
			r.res.Samples = append(r.res.Samples, map[string]any{"workload": workload, "case": i, "events_traced": n, "first": c.trace[:min(n, 8)]})
		}
		r.res.Cases++
		r.res.Counters["cases_"+workload]++
		if c.sig != 0 {
			r.distinct[c.sig] = struct{}{}
		}
		r.mu.Unlock()
	}
	r.flush()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Sig mixes something that characterises the case into its identity (for the distinct count).
func (c *Case) Sig(a ...any) {
	h := fnv.New64a()
	fmt.Fprintln(h, a...)
	c.tmu.Lock()
	c.sig += h.Sum64()
	c.tmu.Unlock()
}

func (c *Case) Tracef(format string, a ...any) {
	l := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	h.Write([]byte(l))
	c.tmu.Lock()
	if len(c.trace) < 400 {
		c.trace = append(c.trace, l)
	}
	// order-independent, so that concurrent tracing does not make equal cases differ
	c.sig += h.Sum64()
	c.tmu.Unlock()
}

// Failf records a violation (one per case).
func (c *Case) Failf(format string, a ...any) {
	c.tmu.Lock()
	if c.failed {
		c.tmu.Unlock()
		return
	}
	c.failed = true
	tr := append([]string(nil), c.trace...)
	c.tmu.Unlock()
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	c.Rep.mu.Lock()
	c.Rep.res.Violations = append(c.Rep.res.Violations, Violation{c.Workload, c.N, msg, tr})
	c.Rep.mu.Unlock()
	c.Rep.flush()
	if c.Rep.halt != "" {
		os.WriteFile(c.Rep.halt, nil, 0o644)
	}
}

func (c *Case) Failed() bool {
	c.tmu.Lock()
	defer c.tmu.Unlock()
	return c.failed
}

// Bubble runs body in a virtual-time bubble: clocks and timers of everything started
// inside are fake and advance only when every goroutine inside is durably blocked, so
// quiescence and deadlines are logical, not wall-clock. If body does not finish within
// limit of virtual time, or everything blocks for good, that is a lack of progress.
func (c *Case) Bubble(limit time.Duration, body func()) {
	finished := false
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		s := fmt.Sprint(p)
		if strings.Contains(s, "main bubble goroutine has exited but blocked goroutines remain") {
			return // goroutines of the code under test that live for ever; expected
		}
		if strings.Contains(s, "deadlock") {
			if !finished {
				c.Failf("no progress: every goroutine is blocked (%s)", s)
			}
			return
		}
		panic(p)
	}()
	synctest.Test(c.T, func(t *testing.T) {
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					if strings.Contains(st, "gocraft/health") {
						c.Failf("panic in the code under test: %v\n%s", p, trimStack(st))
					} else {
						fmt.Fprintf(os.Stderr, "HARNESS: %v\n%s", p, st)
						os.Exit(3)
					}
				}
			}()
			body()
		}()
		tm := time.NewTimer(limit)
		select {
		case <-done:
			tm.Stop()
		case <-tm.C:
			c.Failf("no progress: a call did not return within %v of virtual time", limit)
		}
		finished = true
	})
}

// Wait lets everything in the bubble run until it is durably blocked.
func Wait() { synctest.Wait() }

// IsJSON says whether a Content-Type header announces JSON in the only encoding it has.
func IsJSON(ct string) bool {
	t, par, err := mime.ParseMediaType(ct)
	cs, ok := par["charset"]
	return err == nil && t == "application/json" && (!ok || strings.EqualFold(cs, "utf-8"))
}
