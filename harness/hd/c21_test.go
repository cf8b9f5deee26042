package hd

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
)

func TestC21(t *testing.T) {
	kit.Run(t, "C21", func(r *kit.Rep) {
		r.Cases("emitted", r.Pick(240, 5000), func(c *kit.Case) { c21(c, false) })
		r.Cases("synthetic", r.Pick(240, 5000), func(c *kit.Case) { c21(c, true) })
	})
}

// synthJob: counts and sums as any number of real timings could produce them.
func synthJob(g *rand.Rand) *model.Job {
	j := &model.Job{}
	j.Events, j.Errs, j.Timers, j.Gauges = map[string]int64{}, map[string]int64{}, map[string]*model.Timer{}, map[string]float64{}
	var n, x int64
	switch g.IntN(6) {
	case 0: // no completions
		j.Events["e"] = 1 + g.Int64N(9)
		return j
	case 1: // all the same length: variance zero up to rounding
		n, x = 2+g.Int64N(50), 1+kit.PosNanos(g)
	case 2:
		n, x = 2+g.Int64N(1e6), 1+g.Int64N(1e10)
	case 3: // very many
		n, x = 3e9+g.Int64N(1e10), 1+g.Int64N(1e6)
	case 4:
		n, x = 1, kit.PosNanos(g)
	default:
		n, x = 0, 0
		for i := g.IntN(20); i >= 0; i-- {
			j.Timer.Add(kit.PosNanos(g))
		}
	}
	if n > 0 {
		if n > 1000000 && x > 1000000000 {
			x %= 1000000000
		}
		j.Timer = model.Timer{Count: n, Sum: n * x, SumSq: float64(n) * float64(x) * float64(x), Min: x, Max: x}
		if n <= 60 { // as repeated addition gives it
			j.Timer = model.Timer{}
			for ; n > 0; n-- {
				j.Timer.Add(x)
			}
		}
	}
	rest := j.Timer.Count
	for i := 0; i < 4; i++ {
		k := int64(0)
		if rest > 0 {
			k = g.Int64N(rest + 1)
		}
		j.Status[i] = k
		rest -= k
	}
	j.Status[4] = rest
	return j
}

func c21(c *kit.Case, synth bool) {
	g := c.Rng
	c.Bubble(100*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(time.Hour))))
		I := intervals[g.IntN(len(intervals))]
		s := newSim(c, I)
		n := 1 + g.IntN(4)
		for i := 0; i < n; i++ {
			h := s.add(hostName(g, i), fmt.Sprint("i", i))
			if synth {
				var docs []*model.Agg
				cur := time.Now().Truncate(I)
				for k := g.IntN(5); k >= 0; k-- {
					a := model.New(cur.Add(-I * time.Duration(k)))
					a.Serial = 1
					for m := g.IntN(12); m > 0; m-- {
						a.Jobs[model.JSONName(kit.Name(g))] = synthJob(g)
					}
					docs = append(docs, a)
				}
				w := model.WireHealth{InstanceId: h.inst, IntervalDuration: int64(I)}
				for _, a := range docs {
					w.Aggregations = append(w.Aggregations, a.Wire())
				}
				body, err := json.Marshal(w)
				if err != nil {
					panic(err)
				}
				h.serve = func() []byte { return body }
			} else {
				for k := g.IntN(60); k > 0; k-- {
					e := genEm(g)
					s.emit(h, e)
					c.Tracef("%v", e)
				}
			}
		}
		t0 := time.Now()
		if g.IntN(4) == 0 { // nothing reported yet
			for _, h := range s.hosts {
				h.plan = func(int) (how, time.Duration) { return answers, time.Second }
			}
			s.start(nil)
			if !c21Compare(s, true) {
				s.end()
				return
			}
		} else {
			s.start(nil)
		}
		defer s.end()
		rounds := 1
		if !synth {
			rounds = 1 + g.IntN(6)
		}
		for r := 0; r < rounds; r++ {
			base := t0.Add(time.Duration(r) * 10 * time.Second)
			sleepUntil(base.Add(5 * time.Second))
			if !synth {
				for k := g.IntN(30); k > 0; k-- {
					e := genEm(g)
					s.emit(s.hosts[g.IntN(n)], e)
					c.Tracef("%v", e)
				}
			}
			sleepUntil(base.Add(8 * time.Second))
			if !c21Compare(s, false) {
				return
			}
			sleepUntil(base.Add(9990 * time.Millisecond))
		}
		c21Paths(s)
		s.hd.Stop()
	})
}

func statuses(j *apiJob) [5]int64 {
	return [5]int64{j.CountSuccess, j.CountValidationError, j.CountPanic, j.CountError, j.CountJunk}
}

var sortKeys = map[string]func(j *apiJob) float64{
	"count":                  func(j *apiJob) float64 { return float64(j.Count) },
	"count_success":          func(j *apiJob) float64 { return float64(j.CountSuccess) },
	"count_validation_error": func(j *apiJob) float64 { return float64(j.CountValidationError) },
	"count_panic":            func(j *apiJob) float64 { return float64(j.CountPanic) },
	"count_error":            func(j *apiJob) float64 { return float64(j.CountError) },
	"count_junk":             func(j *apiJob) float64 { return float64(j.CountJunk) },
	"total_time":             func(j *apiJob) float64 { return float64(j.NanosSum) },
	"avg":                    func(j *apiJob) float64 { return j.NanosAvg },
	"min":                    func(j *apiJob) float64 { return float64(j.NanosMin) },
	"max":                    func(j *apiJob) float64 { return float64(j.NanosMax) },
	"stddev":                 func(j *apiJob) float64 { return j.NanosStdDev },
}
var sortNames = []string{"name", "count", "count_success", "count_validation_error", "count_panic", "count_error", "count_junk", "total_time", "avg", "min", "max", "stddev"}

func c21Compare(s *sim, empty bool) bool {
	c, g := s.c, s.c.Rng
	if !s.checkSeries("settled") {
		return false
	}
	var series apiAggs
	var ov apiOverall
	if !s.getJSON("/healthd/aggregations", &series) || !s.getJSON("/healthd/aggregations/overall", &ov) {
		return false
	}
	if empty != (len(series.Aggregations) == 0) {
		c.Failf("series has %d entries, expected empty=%v", len(series.Aggregations), empty)
		return false
	}
	want := model.New(time.Time{})
	for _, a := range series.Aggregations {
		want.Merge(a.Agg()) // oldest first, so gauges end with the latest
	}
	if ov.Overall == nil {
		if !empty {
			c.Failf("overall is null although the series has %d entries", len(series.Aggregations))
			return false
		}
	} else if d := want.Diff(ov.Overall.Agg().Real(), model.Opts{NoStart: true}); d != "" {
		c.Failf("overall: %s", d)
		return false
	}
	c.Count("overalls_compared", 1)

	all := map[string]*apiJob{}
	check := func(path string, jobs []*apiJob) bool {
		seen := map[string]bool{}
		for _, j := range jobs {
			if j == nil || seen[j.Name] {
				c.Failf("GET %s: job %v listed twice", path, j)
				return false
			}
			seen[j.Name] = true
			w := want.Jobs[j.Name]
			if w == nil {
				c.Failf("GET %s: job %q is not in the series", path, j.Name)
				return false
			}
			if j.Count != w.Count || statuses(j) != w.Status || j.NanosSum != w.Sum || !kit.Near(j.NanosSumSquares, w.SumSq) || (w.Count > 0 && (j.NanosMin != w.Timer.Min || j.NanosMax != w.Timer.Max)) {
				c.Failf("GET %s: job %q: want count %d statuses %v sum %d sumsq %g min %d max %d, got %+v", path, j.Name, w.Count, w.Status, w.Sum, w.SumSq, w.Timer.Min, w.Timer.Max, *j)
				return false
			}
			avg, vr, tol := 0.0, 0.0, 0.0
			if w.Count > 0 {
				avg = float64(w.Sum) / float64(w.Count)
			}
			if w.Count > 1 {
				n := float64(w.Count)
				vr = math.Max(0, (w.SumSq-avg*avg*n)/(n-1))
				tol = 1e-9 * w.SumSq / (n - 1)
			}
			if !kit.Near(j.NanosAvg, avg) || !(j.NanosStdDev >= 0) || math.Abs(j.NanosStdDev*j.NanosStdDev-vr) > tol+1e-9*vr {
				c.Failf("GET %s: job %q: avg %g stddev %g, want avg %g stddev %g (count %d sum %d sumsq %g)", path, j.Name, j.NanosAvg, j.NanosStdDev, avg, math.Sqrt(vr), w.Count, w.Sum, w.SumSq)
				return false
			}
			c.Count("jobs_compared", 1)
		}
		return true
	}
	var base apiJobs
	if !s.getJSON("/healthd/jobs", &base) || !check("/healthd/jobs", base.Jobs) {
		return false
	}
	if len(base.Jobs) != len(want.Jobs) {
		c.Failf("jobs lists %d jobs, the series has %d", len(base.Jobs), len(want.Jobs))
		return false
	}
	for _, j := range base.Jobs {
		all[j.Name] = j
	}

	limits := []string{"", "1", "2", "3", "1000000", "0", "-1", "-7", "abc", "1.5", "99999999999999999999999", " 2", "0x2", "2abc", strconv.Itoa(len(all)), strconv.Itoa(len(all) + 1), strconv.Itoa(max(1, len(all)-1)), "9223372036854775807"}
	for k := 0; k < 14; k++ {
		srt, lim := "", limits[g.IntN(len(limits))]
		switch g.IntN(8) {
		case 0:
		case 1:
			srt = []string{"NAME", "nope", "count_", "p99", "-count", "%00"}[g.IntN(6)]
		default:
			srt = sortNames[g.IntN(len(sortNames))]
		}
		if k < 12 && c.N%3 == 0 {
			srt = sortNames[k]
		}
		q := url.Values{}
		if srt != "" {
			q.Set("sort", srt)
		}
		if lim != "" {
			q.Set("limit", lim)
		}
		path := "/healthd/jobs"
		if len(q) > 0 {
			path += "?" + q.Encode()
		}
		c.Sig(path)
		var got apiJobs
		if !s.getJSON(path, &got) || !check(path, got.Jobs) {
			return false
		}
		n := len(all)
		if v, err := strconv.ParseInt(lim, 10, 64); err == nil && v > 0 && v < int64(n) {
			n = int(v)
		}
		if len(got.Jobs) != n {
			c.Failf("GET %s: %d jobs, want %d of %d", path, len(got.Jobs), n, len(all))
			return false
		}
		if srt == "name" {
			var names []string
			for k := range all {
				names = append(names, k)
			}
			sort.Strings(names)
			for i, j := range got.Jobs {
				if j.Name != names[i] {
					c.Failf("GET %s: position %d is %q, want %q", path, i, j.Name, names[i])
					return false
				}
			}
		} else if key := sortKeys[srt]; key != nil {
			var ks []float64
			for _, j := range all {
				ks = append(ks, key(j))
			}
			sort.Sort(sort.Reverse(sort.Float64Slice(ks)))
			for i, j := range got.Jobs {
				if key(j) != ks[i] {
					c.Failf("GET %s: position %d (%q) has %g, want %g", path, i, j.Name, key(j), ks[i])
					return false
				}
			}
		}
		c.Count("sorted_answers", 1)
	}
	return true
}

func c21Paths(s *sim) {
	c := s.c
	for _, p := range []string{"/", "/healthd", "/health", "/healthd/nope", "/healthd/jobs/x", "/healthd/aggregations/overal", "/jobs", "/healthd/hosts/1", "/%20"} {
		rec := s.get(p)
		if rec.Code != 404 || !json.Valid(rec.Body.Bytes()) || !strings.Contains(rec.Body.String(), "error") {
			c.Failf("GET %s: code %d body %q, want 404 with a JSON error", p, rec.Code, rec.Body.String())
			return
		}
		c.Count("not_found_answers", 1)
	}
	// many at once: each gets its own complete answer
	var wg sync.WaitGroup
	for i := 0; i < 24; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var x map[string]any
			s.getJSON([]string{"/healthd/jobs?sort=name", "/healthd/aggregations", "/healthd/aggregations/overall", "/healthd/hosts"}[i%4], &x)
		}()
	}
	wg.Wait()
}
