package hd

import (
	"fmt"
	"net/http/httptest"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

func TestC19(t *testing.T) {
	kit.Run(t, "C19", func(r *kit.Rep) {
		r.Cases("scripted", r.Pick(2400, 19200), c19Scripted)
		r.Cases("realsinks", r.Pick(360, 2880), c19Real)
	})
}

// c19Scripted: hosts with scripted metrics, outages, restarts, zones and response orders.
func c19Scripted(c *kit.Case) {
	g := c.Rng
	c.Bubble(100*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(3 * time.Hour))))
		I := intervals[g.IntN(len(intervals))]
		s := newSim(c, I)
		n := 1 + g.IntN(6)
		shared := g.IntN(3) == 0 // same instance id everywhere (eg container hostnames and pids)
		gen := 0
		inst := func() string {
			gen++
			if shared {
				return fmt.Sprintf("app.%d", gen/(n+1)) // changes on restart
			}
			return fmt.Sprintf("app%d.%d", g.IntN(3), gen)
		}
		round := 0
		faulty := g.IntN(2) == 0
		for i := 0; i < n; i++ {
			h := s.add(hostName(g, i), inst())
			h.keep = 1 + g.IntN(5)
			first := i == 0
			h.plan = func(k int) (how, time.Duration) {
				g := h.g
				d := time.Duration(0)
				if g.IntN(2) == 0 {
					d = time.Duration(g.IntN(4800)) * time.Millisecond
				}
				if first && round == 0 {
					return answers, 0
				}
				if faulty && g.IntN(3) == 0 {
					m := how(g.IntN(int(nHow)))
					if m == mismatch && (round == 0 && d == 0) {
						m = answers
					}
					if m == mismatch && d == 0 {
						d = time.Millisecond
					}
					return m, d
				}
				return answers, d
			}
		}
		emitSome := func(max int) {
			for i := g.IntN(max); i > 0; i-- {
				h := s.hosts[g.IntN(len(s.hosts))]
				e := genEm(g)
				s.emit(h, e)
				c.Tracef("r%d %s %v", round, h.hp, e)
			}
		}
		emitSome(20)
		// duplicates in the configuration name the same host
		var hps []string
		for _, h := range s.hosts {
			hps = append(hps, h.hp)
			if g.IntN(8) == 0 {
				hps = append(hps, h.hp)
			}
		}
		g.Shuffle(len(hps), func(i, j int) { hps[i], hps[j] = hps[j], hps[i] })
		t0 := time.Now()
		s.start(hps)
		defer s.end()
		rounds := 2 + g.IntN(14)
		for ; round < rounds; round++ {
			base := t0.Add(time.Duration(round) * 10 * time.Second)
			sleepUntil(base.Add(time.Duration(g.IntN(5000)) * time.Millisecond))
			emitSome(6) // while polls are in flight
			sleepUntil(base.Add(8500 * time.Millisecond))
			if s.ambiguous {
				c.Count("ended_ambiguous", 1)
				break
			}
			if !s.checkSeries(fmt.Sprintf("round %d", round)) {
				return
			}
			emitSome(12)
			if g.IntN(6) == 0 && !shared {
				h := s.hosts[g.IntN(n)]
				s.restart(h, inst())
				c.Tracef("r%d restart %s", round, h.hp)
				c.Count("restarts", 1)
			}
			if g.IntN(6) == 0 {
				// a container: the new process has the old one's hostname and pid
				h := s.hosts[g.IntN(n)]
				s.restart(h, h.inst)
				c.Tracef("r%d restart %s with the same id", round, h.hp)
				for i := 1 + g.IntN(3); i > 0; i-- {
					e := genEm(g)
					s.emit(h, e)
					c.Tracef("r%d %s %v", round, h.hp, e)
				}
				c.Count("restarts_same_id", 1)
			}
			if g.IntN(10) == 0 && round > 0 {
				h := s.hosts[g.IntN(n)]
				s.kill(h)
				c.Tracef("r%d kill %s", round, h.hp)
			}
			sleepUntil(base.Add(9990 * time.Millisecond))
		}
		s.hd.Stop()
	})
}

// c19Real: real polling sinks play the hosts, so producer and consumer of the document are both real.
func c19Real(c *kit.Case) {
	g := c.Rng
	c.Bubble(100*time.Hour, func() {
		I := []time.Duration{5 * time.Second, 10 * time.Second, 30 * time.Second, time.Minute}[g.IntN(4)]
		time.Sleep(time.Duration(g.Int64N(int64(time.Hour))))
		s := newSim(c, I)
		n := 1 + g.IntN(4)
		var sinks []*health.JsonPollingSink
		for i := 0; i < n; i++ {
			sink := health.NewJsonPollingSink(I, 5*I)
			sinks = append(sinks, sink)
			h := s.add(hostName(g, i), "")
			h.serve = func() []byte {
				rec := httptest.NewRecorder()
				sink.ServeHTTP(rec, httptest.NewRequest("GET", "http://x/health", nil))
				return rec.Body.Bytes()
			}
			h.plan = func(int) (how, time.Duration) {
				g := h.g
				return answers, time.Duration(g.IntN(4000)) * time.Millisecond
			}
		}
		s.start(nil)
		defer s.end()
		t0 := time.Now()
		truth := map[int64]*model.Agg{}
		for round, last := 0, 3+g.IntN(10); round < last; round++ {
			base := t0.Add(time.Duration(round) * 10 * time.Second)
			for k := g.IntN(4); k > 0; k-- {
				sleepUntil(base.Add(time.Duration(g.IntN(4900)) * time.Millisecond))
				for i := g.IntN(8); i > 0; i-- {
					e := genEm(g)
					e.To(sinks[g.IntN(n)])
					c.Tracef("r%d %v", round, e)
					at := time.Now().Truncate(I).UnixNano()
					if truth[at] == nil {
						truth[at] = model.New(time.Unix(0, at))
					}
					truth[at].Apply(e)
				}
				kit.Wait()
			}
			sleepUntil(base.Add(8500 * time.Millisecond))
			if !s.checkSeries(fmt.Sprintf("round %d", round)) {
				return
			}
			sleepUntil(base.Add(9990 * time.Millisecond))
		}
		// Everything has been quiet for two more rounds: the totals are those of all emissions.
		sleepUntil(time.Now().Add(20 * time.Second))
		var got apiAggs
		if !s.getJSON("/healthd/aggregations", &got) {
			return
		}
		served := map[int64]*model.WireAgg{}
		for _, a := range got.Aggregations {
			served[a.IntervalStart.UnixNano()] = a
		}
		for k, want := range truth {
			if I < 10*time.Second {
				break // five intervals are shorter than two polls: some are never seen
			}
			a := served[k]
			if a == nil {
				c.Failf("interval %s was emitted into but is not served", time.Unix(0, k).UTC())
				return
			}
			if d := want.Diff(a.Agg().Real(), model.Opts{NoGauges: true}); d != "" {
				c.Failf("interval %s end to end: %s", time.Unix(0, k).UTC(), d)
				return
			}
			c.Count("end_to_end_intervals", 1)
		}
		s.hd.Stop()
	})
}
