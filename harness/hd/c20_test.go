package hd

import (
	"fmt"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
)

func TestC20(t *testing.T) {
	kit.Run(t, "C20", func(r *kit.Rep) {
		r.Cases("longrun", r.Pick(48, 800), c20Long)
		r.Cases("outage", r.Pick(80, 1500), c20Outage)
		r.Cases("deephost", r.Pick(1, 1), c20Deep)
	})
}

// c20Long: hours of operation, with hosts that come, go and restart; the series is compared
// with everything ever reported, so that loss, repetition and disorder all show.
func c20Long(c *kit.Case) {
	g := c.Rng
	c.Bubble(1000*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(3 * time.Hour))))
		I := intervals[g.IntN(len(intervals))]
		hours := 1 + 4*g.Float64()
		if I < 10*time.Second {
			hours = 2.2 + g.Float64()/4 // long series: make it just overflow
		}
		s := newSim(c, I)
		n := 1 + g.IntN(3)
		gen := 0
		for i := 0; i < n; i++ {
			h := s.add(hostName(g, i), fmt.Sprintf("i%d", gen))
			gen++
			h.plan = func(int) (how, time.Duration) {
				g := h.g
				if g.IntN(10) == 0 {
					return how(g.IntN(int(mismatch))), time.Duration(g.IntN(4800)) * time.Millisecond
				}
				return answers, time.Duration(g.IntN(3)*g.IntN(1500)) * time.Millisecond
			}
		}
		first := s.hosts[0].plan
		s.hosts[0].plan = func(k int) (how, time.Duration) {
			if k == 0 {
				return answers, 0
			}
			return first(k)
		}
		c.Tracef("interval %v hours %.2f hosts %d", I, hours, n)
		t0 := time.Now()
		s.start(nil)
		defer s.end()
		rounds := int(hours * 360)
		every := 1 + g.IntN(30)
		if I < 10*time.Second {
			every = 100 + g.IntN(100)
		}
		for round := 0; round < rounds; round++ {
			base := t0.Add(time.Duration(round) * 10 * time.Second)
			sleepUntil(base.Add(time.Duration(g.IntN(5000)) * time.Millisecond))
			for i := g.IntN(4); i > 0; i-- {
				s.emit(s.hosts[g.IntN(n)], genEm(g))
			}
			sleepUntil(base.Add(8500 * time.Millisecond))
			if round%every == 0 || round == rounds-1 {
				if !s.checkSeries(fmt.Sprintf("round %d", round)) {
					return
				}
			}
			switch g.IntN(40) {
			case 0:
				h := s.hosts[g.IntN(n)]
				s.kill(h)
				c.Tracef("r%d kill", round)
			case 1, 2:
				h := s.hosts[g.IntN(n)]
				gen++
				s.restart(h, fmt.Sprintf("i%d", gen))
				c.Tracef("r%d restart", round)
			}
			sleepUntil(base.Add(9990 * time.Millisecond))
		}
		if len(s.instants(-1)) > s.maxIntervals() {
			c.Count("series_overflowed", 1)
		}
		c.Count("virtual_hours", int(hours))
		s.hd.Stop()
	})
}

// c20Outage: every host disappears for long; what was reported stays, answers keep coming.
// Each settled answer is compared with the previous one: nothing that stays listed may shrink.
func c20Outage(c *kit.Case) {
	g := c.Rng
	c.Bubble(1000*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(3 * time.Hour))))
		I := []time.Duration{10 * time.Second, 30 * time.Second, time.Minute, 5 * time.Minute, 20 * time.Minute, time.Hour, 50 * time.Minute, 2 * time.Hour}[g.IntN(8)]
		s := newSim(c, I)
		n := 1 + g.IntN(4)
		for i := 0; i < n; i++ {
			h := s.add(hostName(g, i), fmt.Sprintf("i%d", i))
			h.plan = func(int) (how, time.Duration) { return answers, time.Duration(h.g.IntN(2500)) * time.Millisecond }
		}
		t0 := time.Now()
		s.start(nil)
		defer s.end()
		round := 0
		prev := map[int64]int64{}
		run := func(rounds int, check bool) bool {
			for ; rounds > 0; rounds-- {
				base := t0.Add(time.Duration(round) * 10 * time.Second)
				sleepUntil(base.Add(time.Duration(g.IntN(3000)) * time.Millisecond))
				for i := g.IntN(4); i > 0; i-- {
					s.emit(s.hosts[g.IntN(n)], genEm(g))
				}
				sleepUntil(base.Add(8500 * time.Millisecond))
				if check || rounds == 1 {
					if !s.checkSeries(fmt.Sprintf("round %d", round)) {
						return false
					}
					var got apiAggs
					if !s.getJSON("/healthd/aggregations", &got) {
						return false
					}
					for _, a := range got.Aggregations {
						k, sum := a.IntervalStart.UnixNano(), int64(0)
						for _, v := range a.Events {
							sum += v
						}
						for _, v := range a.EventErrs {
							sum += v.Count
						}
						for _, j := range a.Jobs {
							sum += j.Count
						}
						if sum < prev[k] {
							c.Failf("round %d: totals of interval %s shrank from %d to %d", round, time.Unix(0, k).UTC(), prev[k], sum)
							return false
						}
						prev[k] = sum
					}
				}
				sleepUntil(base.Add(9990 * time.Millisecond))
				round++
			}
			return true
		}
		per := int(I / (10 * time.Second))
		if !run(1+g.IntN(min(60, 3*per+3)), true) {
			return
		}
		gen := 0
		for leg, last := 0, 1+g.IntN(3); leg < last; leg++ {
			for _, h := range s.hosts {
				if leg == 0 || g.IntN(3) > 0 {
					s.kill(h)
				}
			}
			out := 1 + g.IntN(min(900, 8*per+8))
			c.Tracef("I=%v out %d rounds", I, out)
			if !run(out, false) {
				return
			}
			for _, h := range s.hosts {
				switch g.IntN(3) {
				case 0: // new process
					gen++
					s.restart(h, fmt.Sprintf("n%d", gen))
				case 1: // it was only unreachable
					s.mu.Lock()
					h.down = false
					s.mu.Unlock()
				}
			}
			if !run(1+g.IntN(min(40, 3*per+3)), true) {
				return
			}
			c.Count("outages", 1)
		}
		s.hd.Stop()
	})
}

// c20Deep is the recorded finding: hosts that retain more than the five intervals healthd keeps
// per host. One of two such hosts dies; its share of intervals older than that disappears.
func c20Deep(c *kit.Case) {
	c.Bubble(100*time.Hour, func() {
		I := time.Minute
		s := newSim(c, I)
		a, b := s.add("a:1", "a1"), s.add("b:1", "b1")
		a.keep, b.keep = 10, 10
		t0 := time.Now()
		ev := func(h *host) { s.emit(h, model.Em{Kind: model.Event, Job: "j", Event: "e"}) }
		s.start(nil)
		defer s.end()
		ev(a)
		ev(b)
		read := func() int64 {
			var got apiAggs
			if s.getJSON("/healthd/aggregations", &got) {
				for _, x := range got.Aggregations {
					if x.IntervalStart.Equal(t0.Truncate(I)) {
						return x.Events["e"]
					}
				}
			}
			return -1
		}
		sleepUntil(t0.Add(28500 * time.Millisecond))
		before := read()
		s.kill(b)
		sleepUntil(t0.Add(7*time.Minute + 8500*time.Millisecond))
		after := read()
		c.Tracef("before %d after %d", before, after)
		if before != 2 {
			c.Failf("two hosts reported one event each, served %d", before)
		}
		if after < before {
			c.Finding("deephost", fmt.Sprintf("hosts retaining 10 intervals: after one died, the events of a 7-interval-old interval went from %d to %d", before, after))
		}
	})
}
