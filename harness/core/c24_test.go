package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http/httptest"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/vnet"
	"github.com/gocraft/health"
	"github.com/gocraft/health/runtime_metrics"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
)

// TestC24 decides with the race detector: the driver runs it in a -race build and turns
// reports into violations. What runs here is the mix of concurrent uses the property names.
func TestC24(t *testing.T) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	kit.Run(t, "C24", func(r *kit.Rep) {
		out, errw := os.Stdout, os.Stderr
		os.Stdout, os.Stderr = null, null
		defer func() { os.Stdout, os.Stderr = out, errw }()

		r.Cases("mix", r.Pick(240, 6000), func(c *kit.Case) {
			g := c.Rng
			mask := 1 + g.IntN(63)
			if g.IntN(3) == 0 {
				mask = 63
			}
			ng := 2 + g.IntN(7)
			steps := 10 + g.IntN(80)
			iv := []time.Duration{time.Second, 2 * time.Second, time.Minute}[g.IntN(3)]
			slow := time.Duration(g.IntN(3)) * 700 * time.Millisecond
			streamKv := g.IntN(2) == 0
			kvKind := g.IntN(3)
			seeds := make([]uint64, ng)
			for i := range seeds {
				seeds[i] = g.Uint64()
			}
			readers := 1 + g.IntN(4)
			c.Tracef("sinks=%06b goroutines=%d steps=%d interval=%v readers=%d slow=%v", mask, ng, steps, iv, readers, slow)
			c.Sig(seeds)
			u := newUDP()
			defer u.close()
			c.Bubble(2*time.Hour, func() {
				var posts atomic.Int64
				_, restore := vnet.Install(func(q *vnet.Request) vnet.Reply {
					n := posts.Add(1)
					if slow > 0 && n%3 == 0 {
						time.Sleep(slow)
					}
					if n%5 == 0 {
						return vnet.Reply{Err: errors.New("refused")}
					}
					return vnet.Reply{Body: []byte("{}")}
				})
				defer restore()
				s := health.NewStream()
				var jp *health.JsonPollingSink
				var sd *health.StatsDSink
				var stops []func()
				if mask&1 != 0 {
					jp = health.NewJsonPollingSink(iv, 5*iv)
					s.AddSink(jp)
					stops = append(stops, jp.ShutdownServer)
				}
				if mask&2 != 0 {
					var err error
					if sd, err = health.NewStatsDSink(u.addr, nil); err != nil {
						panic("HARNESS: " + err.Error())
					}
					s.AddSink(sd)
					stops = append(stops, sd.Stop)
				}
				if mask&4 != 0 {
					s.AddSink(&health.WriterSink{Writer: &lockedBuf{}})
				}
				if mask&8 != 0 {
					s.AddSink(&health.JsonWriterSink{Writer: &lockedBuf{}})
				}
				if mask&16 != 0 {
					bs := bugsnag.NewSink(&bugsnag.Config{APIKey: "k", ReleaseStage: "s", Hostname: "h"})
					s.AddSink(bs)
					stops = append(stops, bs.ShutdownServer)
				}
				if mask&32 != 0 {
					ls := librato.New("u", "k", "p")
					s.AddSink(ls)
					stops = append(stops, ls.Stop)
				}
				if streamKv {
					s.KeyValue("host", "h1")
				}
				rm := runtime_metrics.NewRuntimeMetrics(s, &runtime_metrics.Options{Interval: 500 * time.Millisecond, Memory: true, GC: true, GCQuantile: true, Goroutines: true, Cgo: true, FDs: true})
				rm.Start()

				var emitters, rest sync.WaitGroup
				var doneEmitting atomic.Bool
				shared := errors.New("shared plain error") // not logged itself: each goroutine logs its own wrapping
				for i := 0; i < ng; i++ {
					emitters.Add(1)
					go func() {
						defer emitters.Done()
						lg := rand.New(rand.NewPCG(seeds[i], 1))
						j := s.NewJob([]string{"jobA", "jobB", fmt.Sprint("job", i)}[lg.IntN(3)])
						if kvKind > 0 {
							j.KeyValue("g", fmt.Sprint(i))
						}
						var logged error
						for k := 0; k < steps; k++ {
							own := map[string]string{"k": fmt.Sprint(k)}
							if lg.IntN(3) == 0 {
								own = nil
							}
							switch lg.IntN(16) {
							case 0:
								j.EventKv("ev", own)
							case 1:
								j.TimingKv("ti", lg.Int64N(1e9), own)
							case 2:
								j.GaugeKv("ga", lg.Float64(), own)
							case 3:
								j.KeyValue("step", fmt.Sprint(k))
							case 4, 5:
								logged = logHere(j, errors.New("same text"), own)
							case 6:
								logged = j.EventErr("er", fmt.Errorf("w: %w", shared))
							case 7:
								if logged != nil {
									j.EventErrKv("again", logged, own)
								}
							case 8:
								j.EventErr("muted", health.Mute(errors.New("m")))
							case 9:
								if um, ok := logged.(*health.UnmutedError); ok && um.Stack != nil {
									for _, f := range um.Stack.Frames() {
										_ = f.String()
									}
									_ = um.Stack.Stack()
									_ = um.Error()
								}
							case 10:
								s.Run("ran", func() error {
									switch lg.IntN(3) {
									case 0:
										panic("boom")
									case 1:
										return errors.New("bad")
									}
									return nil
								})
							case 11:
								j.CompleteKv(health.CompletionStatus(lg.IntN(5)), own)
								j = s.NewJob(fmt.Sprint("job", lg.IntN(4)))
							case 12:
								s.Event("on stream")
							case 14: // wrapped on its way up
								if logged != nil {
									logHere(j, fmt.Errorf("up: %w", logged), own)
								}
							case 15:
								if logged != nil {
									logged = logHere(j, fmt.Errorf("up: %w", logged), own)
								}
							case 13:
								time.Sleep(time.Duration(lg.IntN(400)) * time.Millisecond)
							}
							for x := range own { // the caller's map is the caller's again once the call has returned
								own[x] = "reused"
							}
							c.Count("uses", 1)
						}
					}()
				}
				for i := 0; i < readers; i++ {
					rest.Add(1)
					go func() {
						defer rest.Done()
						for n := 0; !doneEmitting.Load() || n < 2; n++ {
							switch (i + n) % 4 {
							case 0:
								if jp != nil {
									m := health.NewIntervalAggregation(time.Now())
									for _, a := range jp.GetMetrics() {
										m.Merge(a)
										cl := a.Clone()
										cl.Merge(m)
									}
									c.Count("reads", 1)
								}
							case 1:
								if jp != nil {
									w := httptest.NewRecorder()
									jp.ServeHTTP(w, httptest.NewRequest("GET", "/health", nil))
									io.Copy(io.Discard, w.Body)
									c.Count("reads", 1)
								}
							case 2:
								if sd != nil {
									sd.Drain()
									c.Count("drains", 1)
								}
							case 3:
								time.Sleep(130 * time.Millisecond)
							}
							if n > 400 {
								time.Sleep(100 * time.Millisecond)
							}
						}
					}()
				}
				emitters.Wait()
				doneEmitting.Store(true)
				rest.Wait()
				time.Sleep(20 * time.Second)
				rm.Stop()
				kit.Wait()
				for _, f := range stops {
					f()
				}
				c.Count("bytes_or_posts", int(posts.Load()))
			})
		})
	})
}

//go:noinline
func logHere(j *health.Job, err error, kvs map[string]string) error {
	return j.EventErrKv("er", err, kvs)
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (w *lockedBuf) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.b.Reset()
	return w.b.Write(p)
}
