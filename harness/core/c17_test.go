package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"example.com/verif/vnet"
	"github.com/gocraft/health/sinks/librato"
)

// lkey accumulates what one Librato metric must carry.
type lkey struct {
	counter  bool
	count    int64
	sum, sq  float64
	min, max float64
	val      int64
}

type lperiod map[string]*lkey

func libName(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '.' || r == ':' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func (p lperiod) inc(k string) {
	if p[k] == nil {
		p[k] = &lkey{counter: true}
	}
	p[k].val++
}

func (p lperiod) measure(k string, v float64) {
	t := p[k]
	if t == nil {
		t = &lkey{min: v, max: v}
		p[k] = t
	}
	t.count++
	t.sum += v
	t.sq += v * v
	t.min = math.Min(t.min, v)
	t.max = math.Max(t.max, v)
}

func (p lperiod) apply(prefix string, e model.Em) {
	if prefix != "" {
		prefix += "."
	}
	a, b := prefix+libName(e.Event), prefix+libName(e.Job)+"."+libName(e.Event)
	switch e.Kind {
	case model.Event:
		p.inc(a + ".count")
		p.inc(b + ".count")
	case model.EventErr:
		p.inc(a + ".error.count")
		p.inc(b + ".error.count")
	case model.Timing:
		p.measure(a+".timing", float64(e.Nanos)/1e6)
		p.measure(b+".timing", float64(e.Nanos)/1e6)
	case model.Gauge:
		p.measure(a+".gauge", e.Value)
		p.measure(b+".gauge", e.Value)
	case model.Complete:
		p.measure(prefix+libName(e.Job)+"."+statusNames[e.Status]+".timing", float64(e.Nanos)/1e6)
	}
}

func (p lperiod) add(o lperiod) {
	for k, v := range o {
		t := p[k]
		if t == nil {
			c := *v
			p[k] = &c
			continue
		}
		t.val += v.val
		t.count += v.count
		t.sum += v.sum
		t.sq += v.sq
		t.min = math.Min(t.min, v.min)
		t.max = math.Max(t.max, v.max)
	}
}

// near for sums whose terms may cancel: relative to the magnitude of the terms
func nearSum(a, b, sq float64, n int64) bool {
	return kit.Near(a, b) || math.Abs(a-b) <= 1e-9*math.Sqrt(sq*float64(n+1))
}

func (p lperiod) diff(got lperiod) string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, g := p[k], got[k]
		if g == nil {
			return fmt.Sprintf("metric %q is missing", k)
		}
		if w.counter {
			if w.val != g.val || !g.counter {
				return fmt.Sprintf("counter %q is %d, want %d", k, g.val, w.val)
			}
			continue
		}
		if g.counter || w.count != g.count || w.min != g.min || w.max != g.max || !nearSum(w.sum, g.sum, w.sq, w.count) || !kit.Near(w.sq, g.sq) {
			return fmt.Sprintf("metric %q is %+v, want %+v", k, *g, *w)
		}
	}
	for k := range got {
		if p[k] == nil {
			return fmt.Sprintf("extra metric %q", k)
		}
	}
	return ""
}

func parsePost(b []byte) (time.Time, int64, string, lperiod, error) {
	var m struct {
		MeasureTime *int64 `json:"measure_time"`
		Period      *int64 `json:"period"`
		Source      string `json:"source"`
		Gauges      map[string]struct {
			Value         *int64 `json:"value"`
			Count         *int64 `json:"count"`
			Sum, Min, Max *float64
			SumSquares    *float64 `json:"sum_squares"`
			Attributes    struct {
				Aggregate bool   `json:"aggregate"`
				Long      string `json:"display_units_long"`
				Short     string `json:"display_units_short"`
			} `json:"attributes"`
		} `json:"gauges"`
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	if err := dec.Decode(&m); err != nil {
		return time.Time{}, 0, "", nil, err
	}
	if m.MeasureTime == nil || m.Period == nil {
		return time.Time{}, 0, "", nil, errors.New("no measure_time or period")
	}
	p := lperiod{}
	for k, v := range m.Gauges {
		if libName(k) != k {
			return time.Time{}, 0, "", nil, fmt.Errorf("name %q has characters Librato does not accept", k)
		}
		unit := v.Attributes.Long
		if unit == "" {
			unit = v.Attributes.Short
		}
		if !v.Attributes.Aggregate || v.Value != nil && unit != "count" || v.Value == nil && strings.HasSuffix(k, ".timing") && unit != "ms" {
			return time.Time{}, 0, "", nil, fmt.Errorf("metric %q is described as %+v", k, v.Attributes)
		}
		switch {
		case v.Value != nil && v.Count == nil:
			p[k] = &lkey{counter: true, val: *v.Value}
		case v.Value == nil && v.Count != nil && v.Sum != nil && v.Min != nil && v.Max != nil && v.SumSquares != nil:
			p[k] = &lkey{count: *v.Count, sum: *v.Sum, min: *v.Min, max: *v.Max, sq: *v.SumSquares}
		default:
			return time.Time{}, 0, "", nil, fmt.Errorf("metric %q is incomplete", k)
		}
	}
	return time.Unix(*m.MeasureTime, 0), *m.Period, m.Source, p, nil
}

type lpost struct {
	at  time.Time
	req *vnet.Request
}

func TestC17(t *testing.T) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	kit.Run(t, "C17", func(r *kit.Rep) {
		out := os.Stdout
		os.Stdout = null // the sink prints what it posts
		defer func() { os.Stdout = out }()

		prefixes := []string{"", "metroid", "a.b", "my-app:1"}
		type outcome struct {
			kind  int
			delay time.Duration
			rep   vnet.Reply
		}
		reply := func(o outcome) vnet.Reply {
			switch o.kind {
			case 1:
				return vnet.Reply{Err: errors.New("connection refused")}
			case 2:
				return vnet.Reply{Code: 500, Body: []byte("oops")}
			case 3:
				return vnet.Reply{Code: 401, Body: []byte(`{"errors":{}}`)}
			case 4:
				return vnet.Reply{Code: 200, Body: []byte("half"), ReadErr: errors.New("reset")}
			case 5:
				return o.rep
			}
			return vnet.Reply{Code: 200, Body: []byte("{}")}
		}
		genOutcome := func(g *rand.Rand, slow bool) outcome {
			var o outcome
			if g.IntN(3) == 0 {
				o.kind = 1 + g.IntN(8)
				if o.kind >= 5 {
					o.kind, o.rep = 5, vnet.Trouble(g)
				}
			}
			if g.IntN(4) == 0 {
				o.delay = time.Duration(g.IntN(10000)) * time.Millisecond
				if slow {
					o.delay = time.Duration(g.IntN(70)) * time.Second
				}
			}
			return o
		}

		run := func(c *kit.Case, slow bool, burst bool) {
			g := c.Rng
			prefix := prefixes[g.IntN(len(prefixes))]
			user, key := kit.RandASCII(g, 8), kit.RandASCII(g, 12)
			if i := strings.IndexByte(user, ':'); i >= 0 {
				user = strings.ReplaceAll(user, ":", "_")
			}
			periods := 1 + g.IntN(6)
			ng := 1
			if g.IntN(2) == 0 {
				ng = 1 + g.IntN(5)
			}
			type emit struct {
				at time.Duration
				e  model.Em
			}
			plans := make([][]emit, ng)
			total := lperiod{}
			wide := 0 // many names in a period
			if burst && g.IntN(2) == 0 {
				wide = []int{30, 500, 5000}[g.IntN(3)]
			}
			for i := range plans {
				n := g.IntN(80)
				if burst {
					n = 2500
				}
				for k := 0; k < n; k++ {
					p := g.IntN(periods)
					if g.IntN(3) == 0 {
						p = periods / 2
					}
					at := time.Duration(p)*15*time.Second + time.Duration(1+g.IntN(14998))*time.Millisecond
					if burst {
						at = 7 * time.Second
						if slow {
							// into a queue that nobody empties while the first post takes long
							at = 16*time.Second + time.Duration(g.IntN(3))*time.Second
							if k == 0 {
								at = time.Second
							}
						}
					}
					e := model.Gen(g, statsdName)
					e.Job, e.Event = kit.Spread(g, e.Job, wide), kit.Spread(g, e.Event, wide)
					plans[i] = append(plans[i], emit{at, e})
					total.apply(prefix, e)
				}
				sort.SliceStable(plans[i], func(a, b int) bool { return plans[i][a].at < plans[i][b].at })
				for _, x := range plans[i] {
					c.Tracef("%d@%v %v", i, x.at, x.e)
				}
			}
			outcomes := make([]outcome, 40)
			for i := range outcomes {
				outcomes[i] = genOutcome(g, slow)
			}
			if slow && burst {
				outcomes[0].delay = time.Duration(10000+g.IntN(30000)) * time.Millisecond
				periods = max(periods, 3)
			}
			source := []string{"", "web1", "日本 host"}[g.IntN(3)]
			c.Sig(prefix, user, outcomes[:6])
			c.Bubble(24*time.Hour, func() {
				var mu sync.Mutex
				var posts []lpost
				net, restore := vnet.Install(func(r *vnet.Request) vnet.Reply {
					mu.Lock()
					n := len(posts)
					posts = append(posts, lpost{time.Now(), r})
					mu.Unlock()
					o := outcomes[n%len(outcomes)]
					if o.delay > 0 {
						time.Sleep(o.delay)
					}
					return reply(o)
				})
				defer restore()
				begin := time.Now()
				sink := librato.New(user, key, prefix)
				host := sink.Source
				if c.N%2 == 0 {
					sink.Source, host = source, source
				}
				var wg sync.WaitGroup
				var emu sync.Mutex
				per := map[int]lperiod{}
				for i := range plans {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for _, x := range plans[i] {
							if d := time.Until(begin.Add(x.at)); d > 0 {
								time.Sleep(d)
							}
							x.e.To(sink)
							emu.Lock()
							p := int(x.at / (15 * time.Second))
							if per[p] == nil {
								per[p] = lperiod{}
							}
							per[p].apply(prefix, x.e)
							emu.Unlock()
						}
					}()
				}
				wg.Wait()
				kit.Wait()
				time.Sleep(time.Until(begin.Add(time.Duration(periods)*15*time.Second + time.Millisecond)))
				tail := 40 * time.Second // and two quiet periods
				if slow {
					tail = 40 * 70 * time.Second / 10
				}
				time.Sleep(tail)
				kit.Wait()
				mu.Lock()
				got := append([]lpost(nil), posts...)
				mu.Unlock()
				sum := lperiod{}
				seen := map[int]bool{}
				for n, p := range got {
					q := p.req
					if q.Method != "POST" || q.URL != "https://metrics-api.librato.com/v1/metrics" {
						c.Failf("post %d is %s %s", n, q.Method, q.URL)
						return
					}
					if !q.HasAuth || q.User != user || q.Pass != key {
						c.Failf("post %d has credentials %q/%q, want %q/%q", n, q.User, q.Pass, user, key)
						return
					}
					if ct := q.Header.Get("Content-Type"); !kit.IsJSON(ct) {
						c.Failf("post %d has content type %q", n, ct)
						return
					}
					mt, period, src, data, err := parsePost(q.Body)
					if err != nil {
						c.Failf("post %d: %v: %s", n, err, q.Body)
						return
					}
					if period != 15 || src != host {
						c.Failf("post %d has period %d and source %q, want 15 and %q", n, period, src, host)
						return
					}
					if mt.After(p.at) || p.at.Sub(mt) >= time.Second {
						c.Failf("post %d at %v has measure_time %v", n, p.at, mt)
						return
					}
					if len(data) == 0 {
						c.Failf("post %d at %v has no data", n, p.at.Sub(begin))
						return
					}
					sum.add(data)
					if !slow {
						k := int(p.at.Sub(begin)/(15*time.Second)) - 1
						if off := p.at.Sub(begin) % (15 * time.Second); off != 0 || seen[k] {
							c.Failf("post %d at %v, not at the end of a period of its own", n, p.at.Sub(begin))
							return
						}
						seen[k] = true
						if per[k] == nil {
							c.Failf("post %d at %v for a period without data: %s", n, p.at.Sub(begin), q.Body)
							return
						}
						if d := per[k].diff(data); d != "" {
							c.Failf("post %d at %v: %s", n, p.at.Sub(begin), d)
							return
						}
						c.Count("periods_compared", 1)
					}
				}
				if !slow {
					for k := range per {
						if !seen[k] {
							c.Failf("nothing was posted for period %d", k)
							return
						}
					}
				}
				if d := total.diff(sum); d != "" {
					c.Failf("over all %d posts: %s", len(got), d)
					return
				}
				c.Count("posts_observed", len(got))
				c.Count("metrics_compared", len(total))
				c.Max("metrics_in_a_case", len(total))
				if o, cl := net.Opened.Load(), net.Closed.Load(); o != cl {
					c.Failf("%d responses were received, %d of their bodies were never closed: the connections are never released", o, o-cl)
					return
				}
				sink.Stop()
			})
		}
		r.Cases("periods", r.Pick(7500, 80000), func(c *kit.Case) { run(c, false, false) })
		r.Cases("overrun", r.Pick(1500, 12000), func(c *kit.Case) { run(c, true, false) })
		r.Cases("burst", r.Pick(60, 480), func(c *kit.Case) { run(c, false, true) })
		r.Cases("overload", r.Pick(60, 480), func(c *kit.Case) { run(c, true, true) })

		r.Cases("nonfinite", 12, func(c *kit.Case) {
			v := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e200}[c.N%4]
			c.Tracef("gauge %v", v)
			c.Bubble(time.Hour, func() {
				var mu sync.Mutex
				var posts []lpost
				_, restore := vnet.Install(func(r *vnet.Request) vnet.Reply {
					mu.Lock()
					posts = append(posts, lpost{time.Now(), r})
					mu.Unlock()
					return vnet.Reply{}
				})
				defer restore()
				sink := librato.New("u", "k", "")
				want := []lperiod{{}, {}, {}}
				var e model.Em
				for i := range want {
					e = model.Em{Kind: model.Event, Job: "j", Event: fmt.Sprint("e", i)}
					e.To(sink)
					want[i].apply("", e)
					if i == 1 {
						sink.EmitGauge("j", "g", v, nil)
					}
					time.Sleep(15*time.Second + time.Millisecond)
					kit.Wait()
				}
				mu.Lock()
				defer mu.Unlock()
				var ds []lperiod
				for _, p := range posts {
					_, _, _, d, err := parsePost(p.req.Body)
					if err != nil {
						c.Failf("%v: %s", err, p.req.Body)
						return
					}
					delete(d, "g.gauge")
					delete(d, "j.g.gauge")
					ds = append(ds, d)
				}
				if len(ds) == 2 {
					want = []lperiod{want[0], want[2]}
				}
				for i := range want {
					if i >= len(ds) || want[i].diff(ds[i]) != "" {
						c.Failf("gauge %v in the second of three periods: %d posts, post %d is wrong", v, len(ds), i)
						return
					}
				}
				if len(ds) == 2 {
					c.Finding("nonfinite-gauge", "a gauge of NaN or an infinity, or whose square overflows, loses everything else of its period")
				}
				c.Count("nonfinite_periods", 1)
			})
		})
	})
}
