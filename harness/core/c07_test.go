package core

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

// genAgg makes an emission for aggregation checks: finite values, no overflow of sums.
func genAgg(g *rand.Rand) model.Em {
	e := model.Gen(g, kit.Name)
	if e.Kind == model.EventErr {
		e.Err = genErr(g, g.IntN(8))
		if g.IntN(4) == 0 {
			e.Err = health.Mute(e.Err)
		}
	}
	return e
}

// emitAny sends the emission directly or through a stream's job.
func emitAny(g *rand.Rand, sink health.Sink, s *health.Stream, e model.Em) model.Em {
	if g.IntN(2) == 0 || e.Kind == model.Complete {
		e.To(sink)
		return e
	}
	if g.IntN(4) == 0 {
		e.Job = "general"
		emitThrough(s, e, g.IntN(2) == 0)
		return e
	}
	emitThrough(s.NewJob(e.Job), e, g.IntN(2) == 0)
	return e
}

func TestC07(t *testing.T) {
	kit.Run(t, "C07", func(r *kit.Rep) {
		r.Cases("sequential", r.Pick(6000, 48000), func(c *kit.Case) {
			c.Bubble(time.Hour, func() {
				g := c.Rng
				sink := health.NewJsonPollingSink(time.Hour*24, time.Hour*24*3)
				defer sink.ShutdownServer()
				s := health.NewStream().AddSink(sink)
				m := model.New(time.Now().Truncate(24 * time.Hour))
				n := 1 + g.IntN(200)
				var lastSerial int64
				for i := 0; i < n; i++ {
					e := emitAny(g, sink, s, genAgg(g))
					m.Apply(e)
					c.Tracef("%v", e)
					if g.IntN(10) == 0 || i == n-1 {
						kit.Wait()
						ms := sink.GetMetrics()
						if len(ms) != 1 {
							c.Failf("%d intervals reported within one", len(ms))
							return
						}
						if d := m.Diff(ms[0], model.Opts{Serial: true}); d != "" {
							c.Failf("after %d emissions: %s", i+1, d)
							return
						}
						// reading or time passing does not count as a change
						if g.IntN(3) == 0 {
							time.Sleep(1100 * time.Millisecond)
							again := sink.GetMetrics()
							if len(again) != 1 || again[0].SerialNumber != m.Serial {
								c.Failf("serial number changed without an emission")
								return
							}
						}
						if ms[0].SerialNumber < lastSerial {
							c.Failf("serial went back")
						}
						lastSerial = ms[0].SerialNumber
						c.Count("reads_compared", 1)
					}
				}
				c.Count("emissions_folded", n)
			})
		})
		r.Cases("concurrent", r.Pick(600, 4800), func(c *kit.Case) {
			big := c.N%6 == 0
			c.Bubble(time.Hour, func() {
				g := c.Rng
				sink := health.NewJsonPollingSink(time.Hour*24, time.Hour*24*3)
				defer sink.ShutdownServer()
				s := health.NewStream().AddSink(sink)
				ng := 2 + g.IntN(8)
				per := 20 + g.IntN(100)
				if big {
					per = 15000 / ng // well beyond the sink's buffer
				}
				plans := make([][]model.Em, ng)
				m := model.New(time.Now().Truncate(24 * time.Hour))
				last := map[string]map[float64]bool{}
				for i := range plans {
					mine := map[string]float64{}
					for x := 0; x < per; x++ {
						e := genAgg(g)
						plans[i] = append(plans[i], e)
						m.Apply(e)
						if e.Kind == model.Gauge {
							mine[model.Total+"/"+e.Event] = e.Value
							mine[e.Job+"/"+e.Event] = e.Value
						}
					}
					for k, v := range mine {
						if last[k] == nil {
							last[k] = map[float64]bool{}
						}
						last[k][v] = true
					}
				}
				var wg sync.WaitGroup
				for i := range plans {
					wg.Add(1)
					go func() {
						defer wg.Done()
						jobs := map[string]*health.Job{}
						for _, e := range plans[i] {
							if i%2 == 0 || e.Kind == model.Complete {
								e.To(sink)
								continue
							}
							j := jobs[e.Job]
							if j == nil {
								j = s.NewJob(e.Job)
								jobs[e.Job] = j
							}
							emitThrough(j, e, false)
						}
					}()
				}
				wg.Wait()
				kit.Wait()
				ms := sink.GetMetrics()
				if len(ms) != 1 {
					c.Failf("%d intervals reported within one", len(ms))
					return
				}
				d := m.Diff(ms[0], model.Opts{Serial: true, GaugeOK: func(job, key string, v float64) bool {
					return last[job+"/"+key][v]
				}})
				c.Tracef("goroutines=%d per=%d", ng, per)
				c.Sig(model.Dump(ms[0]))
				c.Count("emissions_folded", ng*per)
				c.Count("reads_compared", 1)
				c.Max("burst", ng*per)
				if d != "" {
					c.Failf("%d goroutines x %d emissions: %s", ng, per, d)
				}
			})
		})
		// Thousands of jobs and events at once.
		r.Cases("wide", r.Pick(60, 480), func(c *kit.Case) {
			c.Bubble(time.Hour, func() {
				g := c.Rng
				sink := health.NewJsonPollingSink(time.Hour*24, time.Hour*24*3)
				defer sink.ShutdownServer()
				m := model.New(time.Now().Truncate(24 * time.Hour))
				wj, we := []int{0, 100, 3000}[g.IntN(3)], []int{1, 100, 3000}[g.IntN(3)]
				n := 1000 + g.IntN(6000)
				c.Sig(wj, we, n)
				for i := 0; i < n; i++ {
					e := genAgg(g)
					e.Job, e.Event = kit.Spread(g, e.Job, wj), kit.Spread(g, e.Event, we)
					m.Apply(e)
					e.To(sink)
					if i == n-1 || g.IntN(3000) == 0 {
						kit.Wait()
						ms := sink.GetMetrics()
						if len(ms) != 1 {
							c.Failf("%d intervals reported within one", len(ms))
							return
						}
						if d := m.Diff(ms[0], model.Opts{Serial: true}); d != "" {
							c.Failf("after %d emissions: %s", i+1, d)
							return
						}
						c.Count("reads_compared", 1)
						c.Max("jobs_in_an_interval", len(ms[0].Jobs))
					}
				}
				c.Count("emissions_folded", n)
			})
		})
		// Emitters that outrun the aggregating goroutine until the buffer is full: nothing may be dropped.
		r.Cases("overload", r.Pick(30, 240), func(c *kit.Case) {
			c.Bubble(time.Hour, func() {
				g := c.Rng
				sink := health.NewJsonPollingSink(time.Hour*24, time.Hour*24*3)
				defer sink.ShutdownServer()
				n := 5000 + g.IntN(8000)
				var wg sync.WaitGroup
				ng := 1 + g.IntN(4)
				for i := 0; i < ng; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for x := 0; x < n/ng; x++ {
							sink.EmitEvent(fmt.Sprintf("j%d", i), "e", nil)
						}
					}()
				}
				wg.Wait()
				kit.Wait()
				ms := sink.GetMetrics()
				var sum int64
				for i := 0; i < ng; i++ {
					if j := ms[0].Jobs[fmt.Sprintf("j%d", i)]; j != nil {
						sum += j.Events["e"]
					}
				}
				c.Tracef("emitters=%d emissions=%d", ng, n/ng*ng)
				c.Count("emissions_folded", n/ng*ng)
				if ms[0].Events["e"] != int64(n/ng*ng) || sum != int64(n/ng*ng) {
					c.Failf("%d events emitted in one burst, %d counted in total, %d over the jobs", n/ng*ng, ms[0].Events["e"], sum)
				}
			})
		})
	})
}
