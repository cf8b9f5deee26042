package hd

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"github.com/braintree/manners"
	"github.com/gocraft/health"
)

// healthd measures itself: the stream it was given tells of every poll and every request.
func TestC27(t *testing.T) {
	kit.Run(t, "C27", func(r *kit.Rep) {
		r.Cases("selfmetrics", r.Pick(1600, 16000), c27)
	})
}

type own struct {
	at    time.Time
	kind  string // event, error, complete
	job   string
	event string
	text  string
	stat  health.CompletionStatus
	nanos int64
	kvs   map[string]string
}

type ownSink struct {
	mu  sync.Mutex
	log []own
}

func (s *ownSink) add(o own, kvs map[string]string) {
	o.at, o.kvs = time.Now(), kit.CopyMap(kvs)
	s.mu.Lock()
	s.log = append(s.log, o)
	s.mu.Unlock()
}
func (s *ownSink) EmitEvent(job, event string, kvs map[string]string) {
	s.add(own{kind: "event", job: job, event: event}, kvs)
}
func (s *ownSink) EmitEventErr(job, event string, err error, kvs map[string]string) {
	s.add(own{kind: "error", job: job, event: event, text: err.Error()}, kvs)
}
func (s *ownSink) EmitTiming(job, event string, n int64, kvs map[string]string)  {}
func (s *ownSink) EmitGauge(job, event string, v float64, kvs map[string]string) {}
func (s *ownSink) EmitComplete(job string, st health.CompletionStatus, n int64, kvs map[string]string) {
	s.add(own{kind: "complete", job: job, stat: st, nanos: n}, kvs)
}

func tally(l []string) string {
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func c27(c *kit.Case) {
	g := c.Rng
	c.Bubble(100*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(time.Hour))))
		s := newSim(c, intervals[g.IntN(len(intervals))])
		sink := &ownSink{}
		s.stream.AddSink(sink)
		n := 1 + g.IntN(8)
		if g.IntN(20) == 0 {
			n = 70
		}
		for i := 0; i < n; i++ {
			h := s.add(hostName(g, i), fmt.Sprint("i", i))
			bad := g.IntN(4)
			anchor := i == 0
			h.plan = func(k int) (how, time.Duration) {
				g := h.g
				d := time.Duration(g.IntN(2)*(1+g.IntN(4800))) * time.Millisecond
				if anchor && k == 0 {
					return answers, 0
				}
				m := answers
				if g.IntN(4) < bad {
					m = how(g.IntN(int(nHow)))
				}
				if m == mismatch && d == 0 {
					d = time.Millisecond
				}
				c.Sig(h.hp, k, m, d)
				return m, d
			}
			h.down = g.IntN(8) == 0 && i > 0
		}
		t0 := time.Now()
		s.start(nil)
		defer s.end()
		var asked []string
		for round, rounds := 0, 1+g.IntN(6); round < rounds; round++ {
			base := t0.Add(time.Duration(round) * 10 * time.Second)
			for k := g.IntN(6); k > 0; k-- {
				sleepUntil(base.Add(time.Duration(g.IntN(9900)) * time.Millisecond))
				var wg sync.WaitGroup
				for x := 1 + g.IntN(3)*g.IntN(8); x > 0; x-- {
					p := apiPaths[g.IntN(len(apiPaths))]
					path, _, _ := strings.Cut(p, "?")
					asked = append(asked, path+" 200")
					wg.Add(1)
					gone, early := g.IntN(4) == 0, g.IntN(2) == 0
					go func() {
						defer wg.Done()
						if gone {
							s.getGone(p, early)
							return
						}
						s.goodAnswer(p, s.getT(p))
					}()
				}
				wg.Wait()
				if c.Failed() {
					return
				}
			}
			sleepUntil(base.Add(9950 * time.Millisecond))
			var want, have, errs []string
			s.mu.Lock()
			failed := 0
			var texts []string
			for _, h := range s.hosts {
				for _, p := range h.polls {
					if p.End.IsZero() {
						continue
					}
					st := "success"
					if p.Err != "" && p.Err != "-" {
						st = "error"
						failed++
						if p.Err == "refused" || p.Err == "reset" {
							texts = append(texts, p.Err)
						}
					}
					want = append(want, fmt.Sprintf("%s %s +%v took %v", h.hp, st, p.End.Sub(t0), p.End.Sub(p.At)))
				}
			}
			s.mu.Unlock()
			sink.mu.Lock()
			var reqs, begun []string
			for _, o := range sink.log {
				switch {
				case o.job == "poll" && o.kind == "complete":
					have = append(have, fmt.Sprintf("%s %s +%v took %v", o.kvs["host_port"], o.stat, o.at.Sub(t0), time.Duration(o.nanos)))
				case o.job == "poll" && o.kind == "error":
					errs = append(errs, o.text)
				case strings.HasPrefix(o.job, "/healthd") && o.kind == "complete":
					if o.stat != health.Success || o.kvs["path"] != o.job {
						c.Failf("request completed as %+v", o)
					}
					reqs = append(reqs, o.job+" "+o.kvs["code"])
				case strings.HasPrefix(o.job, "/healthd") && o.kind == "event" && o.event == "starting_request":
					begun = append(begun, o.kvs["path"]+" 200")
				case o.job == "recalculate" && o.kind == "complete":
					if o.stat != health.Success {
						c.Failf("recalculation completed as %v", o.stat)
					}
					c.Count("recalculations_seen", 1)
				}
			}
			sink.mu.Unlock()
			if a, b := tally(want), tally(have); a != b {
				c.Failf("round %d: polls were\n%s\ncompletions of them were\n%s", round, a, b)
				return
			}
			if len(errs) != failed {
				c.Failf("round %d: %d polls failed, %d errors were logged: %q", round, failed, len(errs), errs)
				return
			}
			for _, t := range []string{"refused", "reset"} {
				w, h := 0, 0
				for _, x := range texts {
					if x == t {
						w++
					}
				}
				for _, x := range errs {
					if strings.Contains(x, "connection "+t) {
						h++
					}
				}
				if w != h {
					c.Failf("round %d: %d polls failed with %q, %d errors say so", round, w, t, h)
					return
				}
			}
			a := tally(append([]string(nil), asked...))
			if b := tally(reqs); a != b {
				c.Failf("round %d: requests made were\n%s\ncompletions of them were\n%s", round, a, b)
				return
			}
			if b := tally(begun); a != b {
				c.Failf("round %d: requests made were\n%s\nrequests begun were\n%s", round, a, b)
				return
			}
			c.Count("polls_accounted_for", len(want))
			c.Count("failed_polls_accounted_for", failed)
			c.Count("requests_accounted_for", len(asked))
			sleepUntil(base.Add(9990 * time.Millisecond))
		}
		s.hd.Stop()
	})
}

// getGone asks like a client that has gone away, before or while it is answered.
func (s *sim) getGone(path string, early bool) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := &brokenWriter{h: http.Header{}, cancel: cancel}
	if early {
		cancel()
	}
	manners.LookupAny(s.addr).ServeHTTP(w, httptest.NewRequest("GET", "http://"+s.addr+path, nil).WithContext(ctx))
	s.c.Count("requests_abandoned", 1)
}

type brokenWriter struct {
	h      http.Header
	cancel func()
}

func (w *brokenWriter) Header() http.Header { return w.h }
func (w *brokenWriter) WriteHeader(int)     {}
func (w *brokenWriter) Write([]byte) (int, error) {
	w.cancel()
	return 0, errReset
}
