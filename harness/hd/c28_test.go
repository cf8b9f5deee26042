package hd

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"example.com/verif/vnet"
	"github.com/braintree/manners"
	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
	"github.com/gocraft/health/runtime_metrics"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
)

// What runs for ever must not grow for ever: heap, goroutines and open responses are
// watched over long (virtual) times of steady work with a bounded set of names.
func TestC28(t *testing.T) {
	kit.Run(t, "C28", func(r *kit.Rep) {
		r.Cases("polling", r.Pick(12, 60), c28Polling)
		r.Cases("statsd", r.Pick(8, 40), c28Statsd)
		r.Cases("librato", r.Pick(8, 40), c28Librato)
		r.Cases("bugsnag", r.Pick(8, 40), c28Bugsnag)
		r.Cases("stream", r.Pick(8, 40), c28Stream)
		r.Cases("healthd", r.Pick(16, 80), c28Healthd)
	})
}

type level struct {
	heap       int64
	goroutines int
}

func measure() level {
	kit.Wait()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return level{int64(m.HeapAlloc), runtime.NumGoroutine()}
}

// steady does chunks of work, all alike, and looks at what is still held after each.
// units is the number of emissions, polls, ... per chunk.
func steady(c *kit.Case, what string, warm, units int, chunk func()) bool {
	for i := 0; i < warm; i++ {
		chunk()
	}
	const chunks = 5
	ls := []level{measure()}
	for i := 0; i < chunks; i++ {
		chunk()
		if c.Failed() {
			return false
		}
		ls = append(ls, measure())
	}
	c.Count("work_units", (warm+chunks)*units)
	c.Count("levels_measured", len(ls))
	growing, gor := 0, 0
	for i := 1; i < len(ls); i++ {
		if ls[i].heap-ls[i-1].heap > int64(units)*8 {
			growing++
		}
		if ls[i].goroutines > ls[i-1].goroutines {
			gor++
		}
	}
	total := ls[chunks].heap - ls[0].heap
	c.Tracef("%s: %+v", what, ls)
	if growing == chunks && total > 128<<10 && total > int64(units)*chunks*16 {
		c.Failf("%s: after each of %d equal chunks of %d units of work more memory is held: %+v", what, chunks, units, ls)
		return false
	}
	if gor == chunks && ls[chunks].goroutines-ls[0].goroutines >= chunks {
		c.Failf("%s: after each of %d equal chunks of %d units of work there are more goroutines: %+v", what, chunks, units, ls)
		return false
	}
	return true
}

func c28Em(c *kit.Case) model.Em {
	g := c.Rng
	e := model.Gen(g, func(*rand.Rand) string { return fmt.Sprint("n", g.IntN(12)) })
	if e.Kind == model.EventErr {
		// messages never repeat
		e.Err = fmt.Errorf("error %d of host %d", g.Uint64(), g.IntN(5))
	}
	return e
}

func c28Polling(c *kit.Case) {
	g := c.Rng
	c.Bubble(100000*time.Hour, func() {
		I := []time.Duration{time.Second, 5 * time.Second, time.Minute}[g.IntN(3)]
		sink := health.NewJsonPollingSink(I, time.Duration(1+g.IntN(10))*I)
		per := 1 + g.IntN(5)
		read := g.IntN(3)
		c.Sig(I, per, read)
		const n = 1500
		steady(c, fmt.Sprintf("polling sink, interval %v", I), 2, n, func() {
			for i := 0; i < n; i++ {
				for k := 0; k < per; k++ {
					c28Em(c).To(sink)
				}
				time.Sleep(I / 2)
				if read == 1 {
					sink.GetMetrics()
				} else if read == 2 {
					sink.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/health", nil))
				}
			}
		})
		sink.ShutdownServer()
	})
}

func c28Statsd(c *kit.Case) {
	g := c.Rng
	conn, err := net.ListenPacket("udp", "127.0.0.1:0") // nobody reads
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	c.Bubble(100000*time.Hour, func() {
		sink, err := health.NewStatsDSink(conn.LocalAddr().String(), &health.StatsDSinkOptions{Prefix: "p"})
		if err != nil {
			panic(err)
		}
		drain := g.IntN(2) == 0
		c.Sig(drain, g.Uint64())
		const n = 6000
		steady(c, "StatsD sink", 2, n, func() {
			for i := 0; i < n; i++ {
				c28Em(c).To(sink)
				if i%50 == 0 {
					if drain {
						sink.Drain()
					} else {
						time.Sleep(120 * time.Millisecond)
					}
				}
			}
		})
		sink.Stop()
	})
}

func c28Librato(c *kit.Case) {
	g := c.Rng
	c.Bubble(100000*time.Hour, func() {
		bad := g.IntN(3)
		net, restore := vnet.Install(func(r *vnet.Request) vnet.Reply {
			switch {
			case bad > 0 && g.IntN(3) == 0:
				return vnet.Trouble(g)
			case bad > 1 && g.IntN(2) == 0:
				return vnet.Reply{Err: errRefused}
			}
			return vnet.Reply{Body: []byte("{}")}
		})
		defer restore()
		sink := librato.New("u", "k", "p")
		c.Sig(bad, g.Uint64())
		const n = 600
		steady(c, "Librato sink", 1, n, func() {
			for i := 0; i < n; i++ {
				for k := g.IntN(4); k > 0; k-- {
					c28Em(c).To(sink)
				}
				time.Sleep(15 * time.Second)
			}
		})
		kit.Wait()
		if o, cl := net.Opened.Load(), net.Closed.Load(); o != cl {
			c.Failf("Librato sink: %d of %d response bodies were never closed", o-cl, o)
		}
		sink.Stop()
	})
}

func c28Bugsnag(c *kit.Case) {
	g := c.Rng
	c.Bubble(100000*time.Hour, func() {
		bad := g.IntN(3)
		net, restore := vnet.Install(func(r *vnet.Request) vnet.Reply {
			switch {
			case bad > 0 && g.IntN(3) == 0:
				return vnet.Trouble(g)
			case bad > 1 && g.IntN(2) == 0:
				return vnet.Reply{Err: errRefused}
			}
			return vnet.Reply{Body: []byte("OK")}
		})
		defer restore()
		s := health.NewStream().AddSink(bugsnag.NewSink(&bugsnag.Config{APIKey: "k", Endpoint: "http://b.test/"}))
		c.Sig(bad, g.Uint64())
		const n = 1500
		steady(c, "Bugsnag sink", 1, n, func() {
			for i := 0; i < n; i++ {
				err := errors.New(fmt.Sprint("error ", g.Uint64()))
				if g.IntN(5) == 0 {
					err = health.Mute(err)
				}
				s.NewJob("j").EventErrKv("e", err, health.Kvs{"k": fmt.Sprint(i)})
			}
		})
		kit.Wait()
		if o, cl := net.Opened.Load(), net.Closed.Load(); o != cl {
			c.Failf("Bugsnag sink: %d of %d response bodies were never closed", o-cl, o)
		}
	})
}

func c28Stream(c *kit.Case) {
	g := c.Rng
	c.Bubble(100000*time.Hour, func() {
		s := health.NewStream()
		s.AddSink(&health.WriterSink{Writer: io.Discard})
		s.AddSink(&health.JsonWriterSink{Writer: io.Discard})
		rm := runtime_metrics.NewRuntimeMetrics(s, nil)
		rm.Start()
		last := errors.New("first")
		c.Sig(g.Uint64())
		const n = 2500
		steady(c, "stream, jobs and writers", 2, n, func() {
			for i := 0; i < n; i++ {
				j := s.NewJob(fmt.Sprint("job", g.IntN(9)))
				j.KeyValue(fmt.Sprint("k", g.Uint64()), "v")
				e := c28Em(c)
				switch g.IntN(6) {
				case 0:
					j.Run(func() error { return e.Err })
				case 1:
					j.Run(func() error { panic(i) })
				case 2:
					last = j.EventErr("x", last)
					if g.IntN(4) == 0 {
						last = errors.New(fmt.Sprint(g.Uint64()))
					}
				default:
					j.Event(e.Event)
					j.TimingKv(e.Event, e.Nanos, health.Kvs{"a": fmt.Sprint(i)})
					j.Complete(health.Junk)
				}
				if i%10 == 0 {
					time.Sleep(time.Second)
				}
			}
		})
		rm.Stop()
	})
}

// lean is a monitored host that keeps no history.
type lean struct {
	born time.Time
	inst string
}

func c28Healthd(c *kit.Case) {
	g := c.Rng
	c.Bubble(100000*time.Hour, func() {
		time.Sleep(time.Duration(g.Int64N(int64(time.Hour))))
		I := []time.Duration{10 * time.Second, 20 * time.Second, time.Minute}[g.IntN(3)]
		n := 1 + g.IntN(8)
		restart := g.IntN(2) * (20 + g.IntN(100)) // on average every so many polls
		var mu sync.Mutex
		hosts := map[string]*lean{}
		var hps []string
		for i := 0; i < n; i++ {
			hp := fmt.Sprintf("h%d-%d:1", i, addrs.Add(1))
			hosts[hp] = &lean{time.Now(), fmt.Sprint("i", i)}
			hps = append(hps, hp)
		}
		var polls atomic.Int64
		bad := g.IntN(3)
		net, restore := vnet.Install(func(r *vnet.Request) vnet.Reply {
			hp := strings.TrimSuffix(strings.TrimPrefix(r.URL, "http://"), "/health")
			mu.Lock()
			h := hosts[hp]
			polls.Add(1)
			x := 99
			if bad > 0 {
				x = g.IntN(40 / (1 + bad*3))
			}
			if restart > 0 && g.IntN(restart) == 0 {
				h.born, h.inst = time.Now(), fmt.Sprint("r", g.Uint64())
			}
			w := model.WireHealth{InstanceId: h.inst, IntervalDuration: int64(I)}
			now := time.Now()
			for k := 4; k >= 0; k-- {
				at := now.Truncate(I).Add(-I * time.Duration(k))
				if at.Add(I).Before(h.born) {
					continue
				}
				a := model.New(at)
				cnt := int64(7)
				if k == 0 {
					cnt = 1 + int64(now.Sub(at)/(10*time.Second))
				}
				for ; cnt > 0; cnt-- {
					a.Apply(model.Em{Kind: model.Kind(cnt % 5), Job: fmt.Sprint("j", cnt%3), Event: "e", Nanos: cnt, Err: errReset})
				}
				w.Aggregations = append(w.Aggregations, a.Wire())
			}
			mu.Unlock()
			b, err := json.Marshal(w)
			if err != nil {
				panic(err)
			}
			switch x {
			case 0:
				return vnet.Reply{Err: errRefused}
			case 1:
				return vnet.Reply{Code: 500, Body: b}
			case 2:
				return vnet.Reply{Body: b, ReadErr: errReset}
			case 3:
				return vnet.Reply{Body: b[:len(b)/2]}
			case 4:
				w.IntervalDuration++
				b, _ = json.Marshal(w)
			case 5:
				time.Sleep(6 * time.Second)
			}
			return vnet.Reply{Body: b}
		})
		defer restore()
		stream := health.NewStream()
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		stream.AddSink(sink)
		addr := fmt.Sprintf("hd%d:5032", addrs.Add(1))
		hd := healthd.StartNewHealthD(hps, addr, stream)
		kit.Wait()
		api := manners.LookupAny(addr)
		c.Sig(I, n, restart, bad)
		// A chunk is 50 minutes; the series is full after two hours.
		const rounds = 300
		steady(c, fmt.Sprintf("healthd, %d hosts, interval %v", n, I), 3, rounds*n, func() {
			for i := 0; i < rounds; i++ {
				time.Sleep(10 * time.Second)
				if i%20 == 0 {
					for _, p := range apiPaths {
						rec := httptest.NewRecorder()
						api.ServeHTTP(rec, httptest.NewRequest("GET", "http://x"+p, nil))
						c.Count("api_answers", 1)
					}
				}
			}
			time.Sleep(7 * time.Second) // nothing is under way
		})
		c.Count("polls", int(polls.Load()))
		if o, cl := net.Opened.Load(), net.Closed.Load(); o != cl {
			c.Failf("healthd: %d of %d response bodies were never closed", o-cl, o)
		}
		hd.Stop()
		sink.ShutdownServer()
	})
}
