package hd

import (
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
)

func TestC23(t *testing.T) {
	kit.Run(t, "C23", func(r *kit.Rep) {
		r.Cases("prompt", r.Pick(400, 8000), func(c *kit.Case) { c23Prompt(c, false) })
		r.Cases("storm", r.Pick(96, 2000), func(c *kit.Case) { c23Prompt(c, true) })
		r.Cases("stop", r.Pick(640, 16000), c23Stop)
	})
}

// getT is get with a (virtual) deadline: healthd must always answer.
func (s *sim) getT(path string) *httptest.ResponseRecorder {
	ch := make(chan *httptest.ResponseRecorder, 1)
	go func() { ch <- s.get(path) }()
	tm := time.NewTimer(2 * time.Second)
	defer tm.Stop()
	select {
	case r := <-ch:
		return r
	case <-tm.C:
		s.c.Failf("GET %s was not answered within 2 s", path)
		return nil
	}
}

func (s *sim) goodAnswer(path string, rec *httptest.ResponseRecorder) bool {
	if rec == nil {
		return false
	}
	if rec.Code != 200 || !kit.IsJSON(rec.Header().Get("Content-Type")) || !json.Valid(rec.Body.Bytes()) {
		s.c.Failf("GET %s: code %d, body %.200q", path, rec.Code, rec.Body.String())
		return false
	}
	return true
}

var apiPaths = []string{"/healthd/aggregations", "/healthd/aggregations/overall", "/healthd/jobs", "/healthd/jobs?sort=avg&limit=2", "/healthd/hosts"}

type delivery struct {
	at    time.Time
	host  int
	start int64
	count int64
}

// c23Prompt: any number of hosts and any response timing; what was delivered shows within 3 s.
// A storm of requests keeps healthd busy at the instants at which its own timers are due.
func c23Prompt(c *kit.Case, storm bool) {
	g := c.Rng
	c.Bubble(100*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(time.Hour))))
		I := []time.Duration{time.Minute, 10 * time.Second, 30 * time.Second, time.Hour}[g.IntN(4)]
		s := newSim(c, I)
		n := []int{1, 2, 1 + g.IntN(20), 60 + g.IntN(10), 65 + g.IntN(70), 130 + g.IntN(170)}[g.IntN(6)]
		pattern := g.IntN(7)
		first := time.Duration(g.IntN(400)) * time.Millisecond
		after := 1500 + g.IntN(1400) // when the burst comes, in ms after the first answer
		spread := 1 + g.IntN(400)
		names := 0
		if storm {
			n, pattern, names = 2+g.IntN(40), 7, 200
		}
		c.Tracef("hosts %d interval %v pattern %d first %v after %d spread %d", n, I, pattern, first, after, spread)
		var mu sync.Mutex
		var log []delivery
		for i := 0; i < n; i++ {
			h := s.add(fmt.Sprintf("h%03d:1", i), fmt.Sprint("i", i))
			h.zone = time.UTC
			name := fmt.Sprint("n", i)
			h.plan = func(k int) (how, time.Duration) {
				g := h.g
				w := s.slide(h)
				w.Apply(model.Em{Kind: model.Event, Job: "j", Event: name})
				for x := 0; x < names; x++ {
					w.Apply(model.Em{Kind: model.Event, Job: fmt.Sprint("bulk", x), Event: "bulk"})
				}
				ms := func(x int) time.Duration { return time.Duration(x) * time.Millisecond }
				switch pattern {
				case 0:
					return answers, 0
				case 1: // one early, the rest in a burst
					if i == 0 {
						return answers, first
					}
					return answers, first + ms(after+g.IntN(spread))
				case 2:
					return answers, ms(g.IntN(4900))
				case 3: // steady trickle
					return answers, ms(1 + i*4800/n)
				case 4: // two bursts
					return answers, first + ms((i%2)*after)
				case 5: // some fail or time out
					if g.IntN(3) == 0 {
						return how(1 + g.IntN(int(mismatch)-1)), ms(g.IntN(4900))
					}
					return answers, ms(g.IntN(4900))
				case 7: // some early, the others at the last moment or too late
					if i < 1+n/2 {
						return answers, first
					}
					if i%2 == 0 {
						return hangs, 0
					}
					return answers, 4800 * time.Millisecond
				default: // a different pattern for each host, bursts at the debounce period
					return answers, ms((i%3)*2300 + g.IntN(20))
				}
			}
		}
		s.onDeliver = func(h *host, p *poll, aggs []*model.Agg) {
			var idx int
			fmt.Sscanf(h.hp, "h%03d", &idx)
			mu.Lock()
			for _, a := range aggs {
				log = append(log, delivery{p.End, idx, a.Start.UnixNano(), a.Events[fmt.Sprint("n", idx)]})
			}
			mu.Unlock()
		}
		t0 := time.Now()
		s.start(nil)
		defer s.end()
		rounds := 1 + g.IntN(4)
		var storms sync.WaitGroup
		if storm {
			rounds = 1 + g.IntN(2)
			crowd := 5 + g.IntN(40)
			grid := []time.Duration{300, 100, 500}[g.IntN(3)] * time.Millisecond
			storms.Add(1)
			go func() {
				defer storms.Done()
				for k := 1; k < rounds*int(10*time.Second/grid); k++ {
					time.Sleep(time.Until(t0.Add(time.Duration(k) * grid)))
					if off := time.Since(t0) % (10 * time.Second); off < 1900*time.Millisecond || off > 3*time.Second {
						continue
					}
					var wg sync.WaitGroup
					for i := 0; i < crowd; i++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for x := 0; x < 3; x++ {
								s.getT([]string{"/healthd/aggregations", "/healthd/hosts"}[i%2])
							}
						}()
					}
					wg.Wait()
					c.Count("storms", 1)
				}
			}()
		}
		step := []int{250, 400, 700, 1000}[g.IntN(4)]
		end := t0.Add(time.Duration(rounds)*10*time.Second - time.Millisecond)
		for at := t0.Add(time.Duration(1+g.IntN(step)) * time.Millisecond); at.Before(end); at = at.Add(time.Duration(step) * time.Millisecond) {
			sleepUntil(at)
			rec := s.getT("/healthd/aggregations")
			if !s.goodAnswer("/healthd/aggregations", rec) {
				return
			}
			if g.IntN(4) == 0 {
				p := apiPaths[g.IntN(len(apiPaths))]
				if !s.goodAnswer(p, s.getT(p)) {
					return
				}
			}
			if time.Since(at) > time.Second {
				c.Failf("an answer took %v", time.Since(at))
				return
			}
			var got apiAggs
			json.Unmarshal(rec.Body.Bytes(), &got)
			shown := map[int64]map[string]int64{}
			for _, a := range got.Aggregations {
				shown[a.IntervalStart.UnixNano()] = a.Events
			}
			now := time.Now()
			mu.Lock()
			hi := map[string]int64{}
			for _, d := range log {
				k := fmt.Sprint(d.start, d.host)
				if !d.at.After(now) && d.count > hi[k] {
					hi[k] = d.count
				}
			}
			for _, d := range log {
				v := shown[d.start][fmt.Sprint("n", d.host)]
				if now.Sub(d.at) >= 3*time.Second && v < d.count {
					mu.Unlock()
					c.Failf("host %d answered with %d at +%v; at +%v the series still shows %d", d.host, d.count, d.at.Sub(t0), now.Sub(t0), v)
					return
				}
				if v > hi[fmt.Sprint(d.start, d.host)] {
					mu.Unlock()
					c.Failf("host %d: series shows %d, at most %d was ever delivered", d.host, v, hi[fmt.Sprint(d.start, d.host)])
					return
				}
			}
			c.Count("visibility_checks", len(log))
			mu.Unlock()
		}
		sleepUntil(end)
		storms.Wait()
		for i, h := range s.hosts {
			if len(h.polls) != rounds {
				c.Failf("host %d was polled %d times in %d rounds", i, len(h.polls), rounds)
				return
			}
			for k, p := range h.polls {
				if d := p.At.Sub(t0) - time.Duration(k)*10*time.Second; d < 0 || d > 500*time.Millisecond {
					c.Failf("host %d: poll %d came at +%v", i, k, p.At.Sub(t0))
					return
				}
			}
		}
		c.Max("hosts", n)
		done := make(chan struct{})
		go func() { s.hd.Stop(); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			c.Failf("Stop did not return within 5 s")
		}
	})
}

// c23Stop: requests of all kinds racing Stop, at any moment, with hosts that answer, fail or hang.
func c23Stop(c *kit.Case) {
	g := c.Rng
	c.Bubble(100*time.Hour, func() {
		I := time.Minute
		s := newSim(c, I)
		n := []int{1, 3, 20, 140}[g.IntN(4)]
		for i := 0; i < n; i++ {
			h := s.add(fmt.Sprintf("h%03d:1", i), fmt.Sprint("i", i))
			slow := g.IntN(3)
			h.plan = func(k int) (how, time.Duration) {
				g := h.g
				s.slide(h).Apply(model.Em{Kind: model.Complete, Job: fmt.Sprint("j", i%5), Nanos: int64(k)})
				switch slow {
				case 0:
					return answers, 0
				case 1:
					return answers, time.Duration(g.IntN(4900)) * time.Millisecond
				}
				return how(g.IntN(int(mismatch))), time.Duration(g.IntN(4900)) * time.Millisecond
			}
		}
		t0 := time.Now()
		s.start(nil)
		defer s.end()
		// Stop now and then at the very instant at which a round starts or data comes in.
		off := time.Duration(g.IntN(25000)) * time.Millisecond
		switch g.IntN(4) {
		case 0:
			off = time.Duration(g.IntN(3)) * 10 * time.Second
		case 1:
			off = 0
		}
		k := g.IntN(60)
		c.Sig(n, off, k)
		if off > 0 {
			time.Sleep(off)
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := 0; i < k; i++ {
			p := apiPaths[g.IntN(len(apiPaths))]
			reps := 1 + g.IntN(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for ; reps > 0; reps-- {
					if !s.goodAnswer(p, s.getT(p)) {
						return
					}
				}
			}()
		}
		stopped := make(chan time.Time, 1)
		spin := g.IntN(3) * 50
		go func() {
			<-gate
			for i := spin; i > 0; i-- {
				time.Now()
			}
			s.hd.Stop()
			stopped <- time.Now()
		}()
		close(gate)
		var at time.Time
		select {
		case at = <-stopped:
		case <-time.After(5 * time.Second):
			c.Failf("Stop, called at +%v, did not return within 5 s", off)
			return
		}
		wg.Wait()
		if c.Failed() {
			return
		}
		for _, p := range apiPaths {
			if !s.goodAnswer(p, s.getT(p)) {
				return
			}
		}
		c.Count("requests_racing_stop", k)
		time.Sleep(time.Duration(15+g.IntN(40)) * time.Second)
		kit.Wait()
		s.mu.Lock()
		for i, h := range s.hosts {
			// the rounds up to Stop took place, whatever the hosts did in those before
			if need := int(off/(10*time.Second)) + 1; off%(10*time.Second) != 0 && len(h.polls) < need {
				s.mu.Unlock()
				c.Failf("host %d was polled %d times, healthd ran for %v", i, len(h.polls), off)
				return
			}
			for _, p := range h.polls {
				if p.At.After(at) {
					s.mu.Unlock()
					c.Failf("host %d was polled at +%v although Stop returned at +%v", i, p.At.Sub(t0), at.Sub(t0))
					return
				}
			}
		}
		s.mu.Unlock()
		c.Count("stops", 1)
		for _, p := range apiPaths {
			if !s.goodAnswer(p, s.getT(p)) {
				return
			}
		}
	})
}
