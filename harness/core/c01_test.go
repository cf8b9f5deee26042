package core

import (
	"fmt"
	"math"
	"sync"
	"testing"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

func genOp(c *kit.Case, job string, id int) model.Em {
	e := model.Gen(c.Rng, kit.Name)
	e.Job = job
	e.Kvs = kit.Kvs(c.Rng, kit.Name)
	switch e.Kind {
	case model.EventErr:
		e.Err = genErr(c.Rng, id)
		if c.Rng.IntN(4) == 0 {
			e.Err = health.Mute(e.Err)
		}
	case model.Timing:
		if c.Rng.IntN(2) == 0 {
			e.Nanos = int64(id)
		} else if c.Rng.IntN(10) == 0 {
			e.Nanos = []int64{math.MaxInt64, math.MinInt64}[c.Rng.IntN(2)]
		}
	case model.Complete:
		if c.Rng.IntN(12) == 0 { // an application's own status
			e.Status = health.CompletionStatus(c.Rng.IntN(1000) - 500)
		}
	case model.Gauge:
		switch c.Rng.IntN(12) {
		case 0:
			e.Value = math.NaN()
		case 1:
			e.Value = math.Inf(1 - 2*c.Rng.IntN(2))
		case 2:
			e.Value = math.MaxFloat64
		case 3:
			e.Value = float64(id)
		}
	}
	return e
}

// C01: recorder sinks compared with the program that was executed.
func TestC01(t *testing.T) {
	kit.Run(t, "C01", func(r *kit.Rep) {
		r.Cases("sequential", r.Pick(18000, 144000), func(c *kit.Case) {
			g := c.Rng
			type strm struct {
				s     *health.Stream
				sinks []*rec // in attachment order, repeats included
				jobs  []*health.Job
				names []string
			}
			want := map[*rec][]model.Em{}
			var pool []*rec
			for i, last := 0, 1+g.IntN(5); i < last; i++ {
				pool = append(pool, &rec{})
			}
			var ss []*strm
			for i, last := 0, 1+g.IntN(3); i < last; i++ {
				ss = append(ss, &strm{s: health.NewStream()})
			}
			attach := func(s *strm) {
				k := pool[g.IntN(len(pool))]
				s.s.AddSink(k)
				s.sinks = append(s.sinks, k)
			}
			for _, s := range ss {
				n := g.IntN(5)
				if g.IntN(20) == 0 {
					n = 5 + g.IntN(30)
				}
				for i := 0; i < n; i++ {
					attach(s)
				}
			}
			n := 5 + g.IntN(60)
			total := 0
			for i := 0; i < n; i++ {
				s := ss[g.IntN(len(ss))]
				switch g.IntN(12) {
				case 0:
					attach(s)
					continue
				case 1:
					name := kit.Name(g)
					s.jobs = append(s.jobs, s.s.NewJob(name))
					s.names = append(s.names, name)
					continue
				case 2:
					s.s.KeyValue(kit.Name(g), kit.Name(g))
				}
				var rc receiver = s.s
				job := "general"
				if len(s.jobs) > 0 && g.IntN(4) > 0 {
					x := g.IntN(len(s.jobs))
					rc, job = s.jobs[x], s.names[x]
				}
				e := genOp(c, job, i)
				kv := g.IntN(2) == 0
				c.Tracef("stream %d sinks %d kv=%v %v", indexOf(ss, s), len(s.sinks), kv, e)
				emitThrough(rc, e, kv)
				for _, k := range s.sinks {
					want[k] = append(want[k], e)
					total++
				}
			}
			c.Sig(total, len(pool), len(ss))
			c.Count("deliveries_observed", total)
			for i, k := range pool {
				got := k.take()
				w := want[k]
				if len(got) != len(w) {
					c.Failf("sink %d: %d emissions were made while it was attached, it received %d", i, len(w), len(got))
					return
				}
				for x := range w {
					if d := sameDelivery(w[x], got[x]); d != "" {
						c.Failf("sink %d, delivery %d: %s", i, x, d)
						return
					}
				}
			}
		})

		// Goroutines, each with jobs of its own, all sharing one stream.
		r.Cases("concurrent", r.Pick(900, 7200), func(c *kit.Case) {
			g := c.Rng
			s := health.NewStream()
			nsinks := 1 + g.IntN(4)
			var sinks []*rec
			for i := 0; i < nsinks; i++ {
				k := &rec{}
				sinks = append(sinks, k)
				s.AddSink(k)
			}
			if g.IntN(2) == 0 {
				s.KeyValue("host", "h")
			}
			ng := 2 + g.IntN(10)
			plans := make([][]model.Em, ng)
			kvs := make([][]bool, ng)
			for i := range plans {
				per := 20 + g.IntN(200)
				for x := 0; x < per; x++ {
					e := genOp(c, fmt.Sprintf("g%d.%s", i, kit.Name(g)), x)
					plans[i] = append(plans[i], e)
					kvs[i] = append(kvs[i], g.IntN(2) == 0)
				}
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < ng; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					jobs := map[string]*health.Job{}
					for x, e := range plans[i] {
						j := jobs[e.Job]
						if j == nil {
							j = s.NewJob(e.Job)
							jobs[e.Job] = j
						}
						emitThrough(j, e, kvs[i][x])
					}
				}()
			}
			close(start)
			wg.Wait()
			for si, k := range sinks {
				per := make([][]entry, ng)
				switches := 0
				last := -1
				for _, e := range k.take() {
					var i int
					if _, err := fmt.Sscanf(e.Job, "g%d.", &i); err != nil || i < 0 || i >= ng {
						c.Failf("sink %d received an emission nobody made: %v", si, e.Em)
						return
					}
					if i != last {
						switches++
						last = i
					}
					per[i] = append(per[i], e)
				}
				c.Count("goroutine_switches_observed", switches)
				if si == 0 {
					c.Sig(switches)
				}
				for i := range plans {
					if len(per[i]) != len(plans[i]) {
						c.Failf("sink %d: goroutine %d made %d emissions, %d arrived", si, i, len(plans[i]), len(per[i]))
						return
					}
					for x := range plans[i] {
						if d := sameDelivery(plans[i][x], per[i][x]); d != "" {
							c.Failf("sink %d, goroutine %d, emission %d: %s", si, i, x, d)
							return
						}
					}
					c.Count("deliveries_observed", len(per[i]))
				}
			}
		})
	})
}

func indexOf[T comparable](s []T, v T) int {
	for i, x := range s {
		if x == v {
			return i
		}
	}
	return -1
}
