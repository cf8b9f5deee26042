package core

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"github.com/gocraft/health"
	"github.com/gocraft/health/runtime_metrics"
)

type vitals struct {
	mem runtime.MemStats
	q   [3]time.Duration
	gor int
	cgo int64
	fds int
}

func readVitals() *vitals {
	v := &vitals{}
	runtime.ReadMemStats(&v.mem)
	var gc debug.GCStats
	gc.PauseQuantiles = make([]time.Duration, 3)
	debug.ReadGCStats(&gc)
	copy(v.q[:], gc.PauseQuantiles)
	v.gor = runtime.NumGoroutine()
	v.cgo = runtime.NumCgoCall()
	d, err := os.Open("/proc/self/fd")
	if err == nil {
		n, _ := d.Readdirnames(-1)
		d.Close()
		v.fds = len(n)
	}
	return v
}

// truthful: is val within what we read before and just after?
func truthful(name string, val float64, a, b *vitals) (string, bool) {
	rng := func(x, y float64) (string, bool) {
		lo, hi := math.Min(x, y), math.Max(x, y)
		if val >= lo && val <= hi {
			return "", true
		}
		return fmt.Sprintf("%v, but the true value was between %v and %v", val, lo, hi), false
	}
	ms := func(d time.Duration) float64 { return float64(d) / 1e6 }
	// quantiles are reported to the microsecond
	near := func(x, y float64) (string, bool) {
		lo, hi := math.Min(x, y)-0.00101, math.Max(x, y)+0.00101
		if val >= lo && val <= hi {
			return "", true
		}
		return fmt.Sprintf("%v ms, but the true value was between %v and %v", val, x, y), false
	}
	switch name {
	case "alloc":
		return rng(float64(a.mem.Alloc), float64(b.mem.Alloc))
	case "heap_objects":
		return rng(float64(a.mem.HeapObjects), float64(b.mem.HeapObjects))
	case "pause_total_ns":
		return rng(float64(a.mem.PauseTotalNs), float64(b.mem.PauseTotalNs))
	case "num_gc":
		return rng(float64(a.mem.NumGC), float64(b.mem.NumGC))
	case "next_gc":
		return rng(float64(a.mem.NextGC), float64(b.mem.NextGC))
	case "gc_cpu_fraction":
		return rng(a.mem.GCCPUFraction, b.mem.GCCPUFraction)
	case "gc_pause_quantile_50":
		return near(ms(a.q[1]), ms(b.q[1]))
	case "gc_pause_quantile_max":
		return near(ms(a.q[2]), ms(b.q[2]))
	case "num_goroutines":
		return rng(float64(a.gor), float64(b.gor))
	case "num_cgo_call":
		return rng(float64(a.cgo), float64(b.cgo))
	case "num_fds_used": // our reading has one more open, as may theirs
		return rng(math.Min(float64(a.fds), float64(b.fds))-1, math.Max(float64(a.fds), float64(b.fds)))
	}
	return "unknown gauge", false
}

type gaugeRec struct {
	mu    sync.Mutex
	names []string
	at    []time.Time
	bad   string
	other int
	prev  *vitals // read before the interval ends; nil: don't check values
	delay time.Duration
	check int
}

func (r *gaugeRec) Gauge(name string, v float64) { r.GaugeKv(name, v, nil) }
func (r *gaugeRec) GaugeKv(name string, v float64, _ map[string]string) {
	r.mu.Lock()
	r.names = append(r.names, name)
	r.at = append(r.at, time.Now())
	if r.prev != nil {
		now := readVitals()
		if now.mem.NumGC == r.prev.mem.NumGC {
			if msg, ok := truthful(name, v, r.prev, now); !ok && r.bad == "" {
				r.bad = fmt.Sprintf("gauge %q reported as %s", name, msg)
			}
			r.check++
		}
	}
	d := r.delay
	r.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
}
func (r *gaugeRec) Event(string)                      { r.other++ }
func (r *gaugeRec) EventKv(string, map[string]string) { r.other++ }
func (r *gaugeRec) EventErr(_ string, e error) error  { r.other++; return e }
func (r *gaugeRec) EventErrKv(_ string, e error, _ map[string]string) error {
	r.other++
	return e
}
func (r *gaugeRec) Timing(string, int64)                      { r.other++ }
func (r *gaugeRec) TimingKv(string, int64, map[string]string) { r.other++ }

func (r *gaugeRec) take() ([]string, []time.Time) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n, a := r.names, r.at
	r.names, r.at = nil, nil
	return n, a
}

var _ health.EventReceiver = (*gaugeRec)(nil)

var rmGroups = [6][]string{
	{"alloc", "heap_objects"},
	{"pause_total_ns", "num_gc", "next_gc", "gc_cpu_fraction"},
	{"gc_pause_quantile_50", "gc_pause_quantile_max"},
	{"num_goroutines"},
	{"num_cgo_call"},
	{"num_fds_used"},
}

func TestC18(t *testing.T) {
	kit.Run(t, "C18", func(r *kit.Rep) {
		old := debug.SetGCPercent(20000) // collections happen only when asked for
		defer debug.SetGCPercent(old)
		cfg := func(c *kit.Case) (*runtime_metrics.Options, time.Duration, []string) {
			g := c.Rng
			if c.N%65 == 64 {
				var all []string
				for _, n := range rmGroups {
					all = append(all, n...)
				}
				sort.Strings(all)
				c.Tracef("default options")
				return nil, 5 * time.Second, all
			}
			m := c.N % 65
			o := &runtime_metrics.Options{Interval: []time.Duration{time.Millisecond, 70 * time.Millisecond, time.Second, 5 * time.Second, 13 * time.Second}[g.IntN(5)],
				Memory: m&1 != 0, GC: m&2 != 0, GCQuantile: m&4 != 0, Goroutines: m&8 != 0, Cgo: m&16 != 0, FDs: m&32 != 0}
			var want []string
			for i, n := range rmGroups {
				if m&(1<<i) != 0 {
					want = append(want, n...)
				}
			}
			sort.Strings(want)
			c.Tracef("groups=%06b interval=%v", m, o.Interval)
			return o, o.Interval, want
		}
		r.Cases("intervals", r.Pick(65*60, 65*600), func(c *kit.Case) {
			g := c.Rng
			o, iv, want := cfg(c)
			n := 1 + g.IntN(5)
			var files []*os.File
			for i, last := 0, g.IntN(30); i < last; i++ {
				if f, err := os.Open(os.DevNull); err == nil {
					files = append(files, f)
				}
			}
			defer func() {
				for _, f := range files {
					f.Close()
				}
			}()
			c.Bubble(10*time.Hour, func() {
				park := make(chan struct{})
				var pg sync.WaitGroup
				for i, last := 0, g.IntN(40); i < last; i++ {
					pg.Add(1)
					go func() { defer pg.Done(); <-park }()
				}
				defer pg.Wait()
				defer close(park)
				rec := &gaugeRec{}
				rm := runtime_metrics.NewRuntimeMetrics(rec, o)
				if o != nil {
					// later changes of the caller's struct are not the business of a running reporter
					c.Count("option_sets", 1)
				}
				rm.Start()
				kit.Wait()
				start := time.Now()
				var ballast [][]byte
				for k := 1; k <= n; k++ {
					time.Sleep(time.Until(start.Add(time.Duration(k)*iv - iv/4)))
					if got, _ := rec.take(); len(got) > 0 {
						c.Failf("reported %v before the interval was over", got)
						return
					}
					for i, last := 0, g.IntN(20); i < last; i++ {
						ballast = append(ballast, make([]byte, g.IntN(20000)))
					}
					if g.IntN(2) == 0 {
						runtime.GC()
					}
					rec.mu.Lock()
					rec.prev = readVitals()
					rec.mu.Unlock()
					time.Sleep(iv / 2)
					kit.Wait()
					got, at := rec.take()
					sort.Strings(got)
					if strings.Join(got, " ") != strings.Join(want, " ") {
						c.Failf("interval %d reported gauges %v, want %v", k, got, want)
						return
					}
					for _, x := range at {
						if !x.Equal(start.Add(time.Duration(k) * iv)) {
							c.Failf("reported %v after start, want %v", x.Sub(start), time.Duration(k)*iv)
							return
						}
					}
					if rec.bad != "" {
						c.Failf("%s", rec.bad)
						return
					}
					if rec.other > 0 {
						c.Failf("something other than gauges was reported")
						return
					}
					c.Count("reports_observed", 1)
				}
				runtime.KeepAlive(ballast)
				if g.IntN(2) == 0 {
					time.Sleep(time.Duration(g.Int64N(int64(iv/5)) + 1))
				}
				rm.Stop()
				rec.take()
				time.Sleep(5 * iv)
				kit.Wait()
				if got, _ := rec.take(); len(got) > 0 {
					c.Failf("%v reported after Stop had returned", got)
				}
				c.Count("values_checked", rec.check)
				c.Count("stops_observed", 1)
			})
		})
		// Stop at any moment, also in the middle of a report to a slow receiver
		r.Cases("stop", r.Pick(1200, 16000), func(c *kit.Case) {
			g := c.Rng
			o, iv, want := cfg(c)
			c.Bubble(10*time.Hour, func() {
				rec := &gaugeRec{}
				if g.IntN(2) == 0 {
					rec.delay = time.Duration(g.Int64N(int64(iv)))
				}
				rm := runtime_metrics.NewRuntimeMetrics(rec, o)
				rm.Start()
				at := time.Duration(g.Int64N(int64(6 * iv)))
				c.Tracef("stop at %v, receiver takes %v", at, rec.delay)
				time.Sleep(at)
				if g.IntN(3) == 0 { // exactly on a tick
					time.Sleep(iv - time.Duration(int64(at)%int64(iv)))
				}
				rm.Stop()
				names, _ := rec.take()
				seen := map[string]int{}
				for _, n := range names {
					seen[n]++
				}
				hi, lo := 0, 1<<30
				for _, n := range want {
					hi, lo = max(hi, seen[n]), min(lo, seen[n])
					delete(seen, n)
				}
				if len(seen) > 0 {
					c.Failf("gauges of disabled groups were reported: %v", seen)
					return
				}
				if len(want) > 0 && hi-lo > 1 {
					c.Failf("gauges were not reported equally often: %v", names)
					return
				}
				time.Sleep(20 * iv)
				kit.Wait()
				if got, _ := rec.take(); len(got) > 0 {
					c.Failf("%v reported after Stop had returned", got)
					return
				}
				c.Count("stops_observed", 1)
			})
		})
	})
}
