package hd

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
)

func TestC22(t *testing.T) {
	kit.Run(t, "C22", func(r *kit.Rep) {
		r.Cases("statuses", r.Pick(1280, 16000), c22Statuses)
		r.Cases("hostile", r.Pick(1920, 24000), c22Hostile)
		r.Cases("directed", len(directed)*2, c22Directed)
	})
}

// hostMon remembers what the hosts answer said before.
type hostMon struct {
	first, last time.Time
}

// checkHosts compares the hosts answer with the log of polls.
func (s *sim) checkHosts(when string, mon map[string]*hostMon) bool {
	c := s.c
	var got apiHosts
	if !s.getJSON("/healthd/hosts", &got) {
		return false
	}
	now := time.Now()
	s.mu.Lock()
	defer s.mu.Unlock()
	var want []string
	for hp := range s.by {
		want = append(want, hp)
	}
	sort.Strings(want)
	var have []string
	for _, h := range got.Hosts {
		have = append(have, h.HostPort)
	}
	if fmt.Sprint(want) != fmt.Sprint(have) {
		c.Failf("%s: hosts listed %q, want %q", when, have, want)
		return false
	}
	for _, g := range got.Hosts {
		h := s.by[g.HostPort]
		var p, firstOK, lastOK *poll
		raw := false
		for _, x := range h.polls {
			if x.End.IsZero() || x.End.After(now) {
				continue
			}
			p = x
			if x.Raw {
				raw = true
			} else if x.Code == 200 && (x.Err == "" || x.Err == "-") {
				if firstOK == nil {
					firstOK = x
				}
				lastOK = x
			}
		}
		bad := func(f string, a ...any) bool {
			c.Failf("%s: host %s after poll %+v: %s; got %+v", when, g.HostPort, p, fmt.Sprintf(f, a...), *g)
			return false
		}
		if p == nil {
			if g.LastErr != "" || g.LastCode != 0 || g.LastInstanceId != "" || g.LastIntervalDuration != 0 || !g.LastCheckTime.IsZero() || !g.FirstSuccessfulResponse.IsZero() || !g.LastSuccessfulResponse.IsZero() {
				return bad("no poll has finished")
			}
			continue
		}
		if g.LastCheckTime.Before(p.At) || g.LastCheckTime.After(p.End) {
			return bad("last check time outside of the poll")
		}
		if g.LastCode != p.Code {
			return bad("code")
		}
		if !p.Raw {
			switch p.Err {
			case "", "-":
				if g.LastErr != "" {
					return bad("error text for a poll without error")
				}
			case "refused", "reset":
				if !strings.Contains(g.LastErr, p.Err) {
					return bad("error text should tell %q", p.Err)
				}
			default:
				if g.LastErr == "" {
					return bad("no error text")
				}
			}
			if g.LastInstanceId != p.Inst || g.LastIntervalDuration != p.Dur {
				return bad("instance id or interval duration")
			}
		} else if p.Err == "*" && g.LastErr == "" {
			return bad("no error text for a body that is not JSON")
		}
		if p.Code != 0 && g.LastNanos != int64(p.End.Sub(p.At)) {
			return bad("response time should be %v", p.End.Sub(p.At))
		}
		m := mon[g.HostPort]
		if m == nil {
			m = &hostMon{}
			mon[g.HostPort] = m
		}
		if !m.first.IsZero() && !g.FirstSuccessfulResponse.Equal(m.first) {
			return bad("first success changed from %v", m.first)
		}
		if g.LastSuccessfulResponse.Before(m.last) {
			return bad("last success went back from %v", m.last)
		}
		m.first, m.last = g.FirstSuccessfulResponse, g.LastSuccessfulResponse
		if !raw {
			near := func(t time.Time, x *poll) bool {
				if x == nil {
					return t.IsZero()
				}
				return !t.Before(x.At) && !t.After(x.End.Add(3*time.Second))
			}
			if !near(g.FirstSuccessfulResponse, firstOK) {
				return bad("first success, want that of %+v", firstOK)
			}
			if !near(g.LastSuccessfulResponse, lastOK) {
				return bad("last success, want that of %+v", lastOK)
			}
		}
		c.Count("statuses_compared", 1)
		if p.Code != 200 || (p.Err != "" && p.Err != "-") {
			c.Count("failure_statuses_compared", 1)
		}
	}
	return true
}

func c22Statuses(c *kit.Case) {
	g := c.Rng
	c.Bubble(100*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(time.Hour))))
		I := intervals[g.IntN(len(intervals))]
		s := newSim(c, I)
		n := 1 + g.IntN(8)
		for i := 0; i < n; i++ {
			h := s.add(hostName(g, i), fmt.Sprint("i", i))
			bad := g.IntN(4) // 0: never fails ... 3: mostly
			anchor := i == 0
			h.plan = func(k int) (how, time.Duration) {
				g := h.g
				d := time.Duration(g.IntN(2)*(1+g.IntN(4800))) * time.Millisecond
				if anchor && k == 0 {
					return answers, 0 // somebody sets the interval duration first
				}
				m := answers
				if g.IntN(4) < bad {
					m = how(g.IntN(int(nHow)))
				}
				if m == mismatch && d == 0 {
					d = time.Millisecond
				}
				c.Sig(h.hp, k, m, d)
				return m, d
			}
			if g.IntN(6) == 0 && i > 0 {
				h.down = true
			}
		}
		mon := map[string]*hostMon{}
		t0 := time.Now()
		s.start(nil)
		defer s.end()
		for round, last := 0, 2+g.IntN(12); round < last; round++ {
			base := t0.Add(time.Duration(round) * 10 * time.Second)
			for k := g.IntN(4); k > 0; k-- {
				off := time.Duration(g.IntN(6000))*time.Millisecond + 500*time.Microsecond
				sleepUntil(base.Add(off))
				if !s.checkHosts(fmt.Sprintf("round %d +%v", round, off), mon) {
					return
				}
			}
			sleepUntil(base.Add(8500 * time.Millisecond))
			if !s.checkHosts(fmt.Sprintf("round %d settled", round), mon) {
				return
			}
			if g.IntN(4) == 0 {
				h := s.hosts[g.IntN(n)]
				if h.down || g.IntN(2) == 0 {
					s.restart(h, fmt.Sprintf("r%d", round))
				} else if round > 0 {
					s.kill(h)
				}
			}
			sleepUntil(base.Add(9990 * time.Millisecond))
		}
		s.hd.Stop()
	})
}

// mutate replaces, removes or nulls random nodes of a decoded document.
func mutate(g *rand.Rand, v any) any {
	repl := func() any {
		switch g.IntN(12) {
		case 0, 1, 2, 3, 4:
			return nil
		case 5:
			return map[string]any{}
		case 6:
			return []any{}
		case 7:
			return 0
		case 8:
			return -1
		case 9:
			return "x"
		case 10:
			return []any{nil}
		default:
			return map[string]any{"rogue": nil}
		}
	}
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) == 0 || g.IntN(8) == 0 {
			return repl()
		}
		k := ks[g.IntN(len(ks))]
		if g.IntN(6) == 0 {
			delete(x, k)
		} else {
			x[k] = mutate(g, x[k])
		}
		return x
	case []any:
		if len(x) == 0 || g.IntN(8) == 0 {
			return repl()
		}
		i := g.IntN(len(x))
		x[i] = mutate(g, x[i])
		return x
	}
	return repl()
}

func rogueName(g *rand.Rand) string { return "rogue." + model.JSONName(kit.Name(g)) }

// hostileBody makes what a confused or broken service might send instead of metrics.
func hostileBody(g *rand.Rand, I time.Duration) []byte {
	w := model.WireHealth{InstanceId: "rogue", IntervalDuration: int64(I)}
	cur := time.Now().Truncate(I)
	for k := g.IntN(4); k >= 0; k-- {
		a := model.New(cur.Add(-I * time.Duration(k)))
		for i := g.IntN(10); i > 0; i-- {
			a.Apply(model.Gen(g, rogueName))
		}
		w.Aggregations = append(w.Aggregations, a.Wire())
	}
	b, err := json.Marshal(w)
	if err != nil {
		panic(err)
	}
	switch g.IntN(16) {
	case 0:
		return b[:g.IntN(len(b))]
	case 1:
		n := strings.Count(string(b), "rogue")
		i := g.IntN(len(b))
		b[i] ^= byte(1 + g.IntN(255))
		if strings.Count(string(b), "rogue") != n {
			return b[:i] // what remains recognisable as the rogue's is what the oracle can set aside
		}
		return b
	case 2:
		return []byte(kit.RandString(g, g.IntN(200)))
	case 3:
		return []byte([]string{"", " ", "null", "[]", "{}", "0", "\"x\"", "true", "{}{}", "[[]]", "\ufeff{}", "nul", "{\"error\": \"not_found\"}"}[g.IntN(13)])
	case 4:
		return append(b, b...)
	case 5:
		return []byte(strings.Repeat("[", 20000))
	}
	var v any
	json.Unmarshal(b, &v)
	m := v.(map[string]any)
	for k := 1 + g.IntN(5); k > 0; k-- {
		x := mutate(g, m)
		if y, ok := x.(map[string]any); ok {
			m = y
		}
	}
	b, _ = json.Marshal(m)
	return b
}

// usable tells whether the body carries another, valid interval duration.
func otherDuration(body []byte, I time.Duration) bool {
	var x struct {
		D json.Number `json:"interval_duration"`
	}
	json.Unmarshal(body, &x)
	n, err := x.D.Int64()
	return err == nil && n > 0 && n != int64(I)
}

// checkGood compares the good hosts' part of the series; rogue names and intervals are ignored.
func (s *sim) checkGood(when string) bool {
	c := s.c
	var got apiAggs
	if !s.getJSON("/healthd/aggregations", &got) {
		return false
	}
	served := map[int64]*model.WireAgg{}
	for i, a := range got.Aggregations {
		if i > 0 && !got.Aggregations[i-1].IntervalStart.Before(a.IntervalStart) {
			c.Failf("%s: series out of order", when)
			return false
		}
		if a.IntervalStart.Year() > 1900 {
			served[a.IntervalStart.UnixNano()] = a
		}
	}
	for _, k := range s.instants(s.maxIntervals()) {
		a := served[k]
		if a == nil {
			c.Failf("%s: interval %v is missing", when, time.Unix(0, k).UTC())
			return false
		}
		for n := range a.Jobs {
			if strings.HasPrefix(n, "rogue") {
				delete(a.Jobs, n)
			}
		}
		for n := range a.Events {
			if strings.HasPrefix(n, "rogue") {
				delete(a.Events, n)
			}
		}
		for n := range a.EventErrs {
			if strings.HasPrefix(n, "rogue") {
				delete(a.EventErrs, n)
			}
		}
		for n := range a.Timers {
			if strings.HasPrefix(n, "rogue") {
				delete(a.Timers, n)
			}
		}
		for n := range a.Gauges {
			if strings.HasPrefix(n, "rogue") {
				delete(a.Gauges, n)
			}
		}
		want, gok := s.want(k)
		if d := want.Diff(a.Agg().Real(), model.Opts{GaugeOK: gok}); d != "" {
			c.Failf("%s: good hosts' interval %v: %s", when, time.Unix(0, k).UTC(), d)
			return false
		}
		c.Count("good_intervals_compared", 1)
	}
	for _, p := range []string{"/healthd/aggregations/overall", "/healthd/jobs", "/healthd/hosts"} {
		var x map[string]any
		if !s.getJSON(p, &x) {
			return false
		}
	}
	return true
}

func c22Run(c *kit.Case, s *sim, rounds int) {
	g := c.Rng
	mon := map[string]*hostMon{}
	t0 := time.Now()
	s.start(nil)
	defer s.end()
	for round := 0; round < rounds; round++ {
		base := t0.Add(time.Duration(round) * 10 * time.Second)
		sleepUntil(base.Add(time.Duration(g.IntN(5000)) * time.Millisecond))
		for _, h := range s.hosts {
			if h.script == nil {
				for i := g.IntN(3); i > 0; i-- {
					s.emit(h, genEm(g))
				}
			}
		}
		sleepUntil(base.Add(8500 * time.Millisecond))
		if !s.checkGood(fmt.Sprintf("round %d", round)) || !s.checkHosts(fmt.Sprintf("round %d", round), mon) {
			return
		}
		sleepUntil(base.Add(9990 * time.Millisecond))
	}
	s.hd.Stop()
	if o, cl := s.net.Opened.Load(), s.net.Closed.Load(); o-cl > int64(len(s.hosts)) {
		c.Failf("%d response bodies were opened and only %d closed", o, cl)
	}
}

func c22Hostile(c *kit.Case) {
	g := c.Rng
	c.Bubble(100*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(time.Hour))))
		I := intervals[g.IntN(len(intervals))]
		s := newSim(c, I)
		good, rogues := 1+g.IntN(3), 1+g.IntN(4)
		goodFirst := g.IntN(2) == 0
		for i := 0; i < good+rogues; i++ {
			h := s.add(hostName(g, i), fmt.Sprint("i", i))
			if i < good {
				if goodFirst && i == 0 {
					continue
				}
				h.plan = func(int) (how, time.Duration) { return answers, time.Duration(h.g.IntN(3000)) * time.Millisecond }
				continue
			}
			h.plan = func(k int) (how, time.Duration) {
				g := h.g
				d := time.Duration(1+g.IntN(4000)) * time.Millisecond
				if g.IntN(3) == 0 {
					m := how(g.IntN(int(mismatch))) // its scripted window must not matter: these never deliver
					if m != answers && m != slowBody && m != fails {
						return m, d
					}
				}
				return answers, d
			}
			h.script = func(k int) (int, []byte) {
				g := h.g
				b := hostileBody(g, I)
				for otherDuration(b, I) && !(goodFirst && k > 0) {
					b = hostileBody(g, I)
				}
				code := 200
				if g.IntN(6) == 0 {
					code = []int{500, 404, 202, 418, 503}[g.IntN(5)]
				}
				c.Tracef("host %d poll %d: code %d %.300q", i, k, code, b)
				c.Count("hostile_bodies", 1)
				if json.Valid(b) {
					c.Count("hostile_bodies_valid_json", 1)
				}
				return code, b
			}
		}
		c22Run(c, s, 2+g.IntN(8))
	})
}

// each of these stands alone as what a host might send, first thing and later
var directed = []string{
	`{}`, `null`, `{"aggregations":null}`, `{"interval_duration":0,"aggregations":[]}`, `{"interval_duration":-60000000000}`,
	`{"interval_duration":%d}`, `{"interval_duration":%d,"aggregations":null}`, `{"interval_duration":%d,"aggregations":[null]}`,
	`{"interval_duration":%d,"aggregations":[{}]}`, `{"interval_duration":%d,"aggregations":[{"interval_start":"%s"}]}`,
	`{"interval_duration":%d,"aggregations":[{"interval_start":"%s","jobs":null,"timers":null,"gauges":null,"events":null,"event_errs":null}]}`,
	`{"interval_duration":%d,"aggregations":[{"interval_start":"%s","jobs":{"rogue":null}}]}`,
	`{"interval_duration":%d,"aggregations":[{"interval_start":"%s","jobs":{"rogue":{}}}]}`,
	`{"interval_duration":%d,"aggregations":[{"interval_start":"%s","jobs":{"rogue":{"timers":{"x":null}}}}]}`,
	`{"interval_duration":%d,"aggregations":[{"interval_start":"%s","jobs":{"rogue":{"timers":null,"event_errs":{"x":null}}}}]}`,
	`{"interval_duration":%d,"aggregations":[{"interval_start":"%s","timers":{"rogue":null}}]}`,
	`{"interval_duration":%d,"aggregations":[{"interval_start":"%s","event_errs":{"rogue":null}}]}`,
	`{"interval_duration":%d,"aggregations":[{"interval_start":"%s","events":{"rogue":null},"gauges":{"rogue":null}}]}`,
	`{"instance_id":null,"interval_duration":%d,"aggregations":[{"interval_start":"%s"},{"interval_start":"%[2]s","serial_number":7},null]}`,
	`{"interval_duration":"1m"}`, `{"aggregations":{}}`, `[]`, `"ok"`, ``, `<html>`,
}

func c22Directed(c *kit.Case) {
	g := c.Rng
	c.Bubble(100*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(time.Hour))))
		I := time.Minute
		s := newSim(c, I)
		doc := directed[c.N/2]
		for i := 0; i < 2; i++ {
			s.add(fmt.Sprintf("good%d:1", i), fmt.Sprint("g", i))
		}
		rogueFirst := c.N%2 == 0
		for i := 0; i < 2; i++ {
			h := s.add(fmt.Sprintf("rogue%d:1", i), "r")
			h.script = func(int) (int, []byte) {
				b := doc
				if strings.Contains(b, "%") {
					a := []any{int64(I), time.Now().Truncate(I).Format(time.RFC3339)}
					b = fmt.Sprintf(b, a[:1+strings.Count(b, `"%s"`)]...)
				}
				c.Tracef("%s", b)
				return 200, []byte(b)
			}
		}
		for i, h := range s.hosts {
			late := (i < 2) == rogueFirst
			h.plan = func(int) (how, time.Duration) {
				if late {
					return answers, 4 * time.Second
				}
				return answers, 0
			}
		}
		c22Run(c, s, 4)
	})
}
