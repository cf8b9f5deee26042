package hd

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"example.com/verif/vnet"
	"github.com/braintree/manners"
	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
)

// The race detector decides; it needs real time, because a virtual clock orders what it separates.
func TestC25(t *testing.T) {
	kit.Run(t, "C25", func(r *kit.Rep) {
		_, restore := vnet.Install(func(r *vnet.Request) vnet.Reply {
			hp := strings.TrimSuffix(strings.TrimPrefix(r.URL, "http://"), "/health")
			if f, ok := c25hosts.Load(hp); ok {
				return f.(func() vnet.Reply)()
			}
			return vnet.Reply{Err: errRefused}
		})
		_ = restore // never: polls of earlier cases may still be on their way
		r.Cases("short", r.Pick(320, 8000), func(c *kit.Case) { c25(c, 0) })
		r.Cases("debounced", r.Pick(16, 200), func(c *kit.Case) { c25(c, 2700) })
		r.Cases("rounds", r.Pick(8, 48), func(c *kit.Case) { c25(c, 11500) })
	})
}

var c25hosts sync.Map // host:port -> func() vnet.Reply

func c25(c *kit.Case, ms int) {
	g := c.Rng
	n := 1 + g.IntN(12)
	if ms == 0 {
		ms = 5 + g.IntN(60)
	} else {
		n = 1 + g.IntN(100)
	}
	I := []time.Duration{time.Second, time.Minute}[g.IntN(2)]
	stream := health.NewStream()
	sink := health.NewJsonPollingSink(time.Second, 5*time.Second)
	stream.AddSink(sink)
	stream.AddSink(&health.WriterSink{Writer: io.Discard})
	type hst struct {
		mu    sync.Mutex
		polls int
		agg   *model.Agg
	}
	hosts := map[string]*hst{}
	var hps []string
	for i := 0; i < n; i++ {
		hp := fmt.Sprintf("h%d-%d:1", i, addrs.Add(1))
		hps = append(hps, hp)
		hosts[hp] = &hst{}
	}
	slow := g.IntN(3)
	seed := g.Uint64()
	answer := func(hp string) vnet.Reply {
		h := hosts[hp]
		h.mu.Lock()
		h.polls++
		k := h.polls
		cur := time.Now().Truncate(I)
		if h.agg == nil || !h.agg.Start.Equal(cur) {
			h.agg = model.New(cur)
		}
		x := seed ^ uint64(k)*2654435761 ^ uint64(len(hp)) ^ uint64(hp[1])<<7
		for i := 0; i < 3; i++ {
			h.agg.Apply(model.Em{Kind: model.Kind((x >> i) % 5), Job: fmt.Sprint("j", x%4), Event: fmt.Sprint("e", x>>2%3), Nanos: int64(x % 1000), Err: errReset})
		}
		b, _ := json.Marshal(model.WireHealth{InstanceId: "i", IntervalDuration: int64(I), Aggregations: []*model.WireAgg{h.agg.Wire()}})
		h.mu.Unlock()
		if slow > 0 {
			time.Sleep(time.Duration(x%uint64(ms*800)) * time.Microsecond)
		}
		if slow > 1 && x%7 == 0 {
			return vnet.Reply{Err: errRefused}
		}
		return vnet.Reply{Body: b}
	}
	for _, hp := range hps {
		c25hosts.Store(hp, func() vnet.Reply { return answer(hp) })
	}
	addr := fmt.Sprintf("hd%d:5032", addrs.Add(1))
	hd := healthd.StartNewHealthD(hps, addr, stream)
	for manners.LookupAny(addr) == nil {
		time.Sleep(50 * time.Microsecond)
	}
	h := manners.LookupAny(addr)
	var stop atomic.Bool
	var wg sync.WaitGroup
	readers := 1 + g.IntN(6)
	crowd := g.IntN(5) == 0 // more clients at once than any buffer holds
	if crowd {
		readers = 30 + g.IntN(60)
	}
	c.Sig(n, ms, I, readers, slow)
	for i := 0; i < readers; i++ {
		wg.Add(1)
		k := g.IntN(len(apiPaths))
		pause := time.Duration(g.IntN(2000)) * time.Microsecond
		if crowd {
			k, pause = len(apiPaths)-2, pause*20
		}
		go func() {
			defer wg.Done()
			for !stop.Load() {
				k++
				p := apiPaths[k%len(apiPaths)]
				rec := httptest.NewRecorder()
				h.ServeHTTP(rec, httptest.NewRequest("GET", "http://x"+p, nil))
				c.Count("api_answers", 1)
				if rec.Code != 200 || !json.Valid(rec.Body.Bytes()) {
					c.Failf("GET %s: code %d body %.200q", p, rec.Code, rec.Body.String())
					return
				}
				time.Sleep(pause)
			}
		}()
	}
	time.Sleep(time.Duration(ms) * time.Millisecond)
	hd.Stop()
	time.Sleep(time.Duration(g.IntN(4)) * time.Millisecond)
	stop.Store(true)
	wg.Wait()
	polls := 0
	for _, x := range hosts {
		x.mu.Lock()
		polls += x.polls
		x.mu.Unlock()
	}
	c.Count("polls", polls)
	c.Count("stops", 1)
	if ms > 10000 {
		c.Count("second_rounds", 1)
	}
	sink.ShutdownServer()
}
