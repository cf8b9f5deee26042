package core

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/vnet"
	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
)

// The wire format of https://docs.bugsnag.com/api/error-reporting/ as this library uses it.
type bsPost struct {
	APIKey   string `json:"apiKey"`
	Notifier struct {
		Name    string `json:"name"`
		Version string `json:"version"`
		URL     string `json:"url"`
	} `json:"notifier"`
	Events []struct {
		PayloadVersion string `json:"payloadVersion"`
		Exceptions     []struct {
			ErrorClass string `json:"errorClass"`
			Message    string `json:"message"`
			Stacktrace []struct {
				File       string `json:"file"`
				LineNumber int    `json:"lineNumber"`
				Method     string `json:"method"`
				InProject  bool   `json:"inProject"`
			} `json:"stacktrace"`
		} `json:"exceptions"`
		Context string `json:"context"`
		App     struct {
			ReleaseStage string `json:"releaseStage"`
		} `json:"app"`
		Device struct {
			Hostname string `json:"hostname"`
		} `json:"device"`
		MetaData struct {
			Request struct {
				URL        string `json:"url"`
				Parameters string `json:"parameters"`
			} `json:"request"`
			Kvs map[string]string `json:"kvs"`
		} `json:"metaData"`
	} `json:"events"`
}

// js is what a string looks like after a trip through JSON.
func js(s string) string {
	b, _ := json.Marshal(s)
	var o string
	json.Unmarshal(b, &o)
	return o
}

func jsMap(m map[string]string) map[string]string {
	b, _ := json.Marshal(m)
	var o map[string]string
	json.Unmarshal(b, &o)
	return o
}

type bsWant struct {
	g, seq     int
	job, event string
	msg        string
	kvs        map[string]string
	err        *health.UnmutedError
}

func checkBs(cfg bugsnag.Config, w bsWant, req *vnet.Request) string {
	var p bsPost
	if err := json.Unmarshal(req.Body, &p); err != nil {
		return fmt.Sprintf("post is not JSON: %v", err)
	}
	if p.APIKey != js(cfg.APIKey) {
		return fmt.Sprintf("apiKey %q, configured %q", p.APIKey, cfg.APIKey)
	}
	if len(p.Events) != 1 || len(p.Events[0].Exceptions) != 1 {
		return fmt.Sprintf("post has %d events", len(p.Events))
	}
	e := p.Events[0]
	if p.Notifier.Name == "" || p.Notifier.Version == "" || p.Notifier.URL == "" || e.PayloadVersion != "2" {
		return fmt.Sprintf("notifier %+v, payload version %q", p.Notifier, e.PayloadVersion)
	}
	x := e.Exceptions[0]
	if e.App.ReleaseStage != js(cfg.ReleaseStage) || e.Device.Hostname != js(cfg.Hostname) {
		return fmt.Sprintf("releaseStage %q hostname %q, configured %q %q", e.App.ReleaseStage, e.Device.Hostname, cfg.ReleaseStage, cfg.Hostname)
	}
	if e.Context != js(w.job) || x.ErrorClass != js(w.event) || x.Message != js(w.msg) {
		return fmt.Sprintf("post has context %q class %q message %q, logged were %q %q %q", e.Context, x.ErrorClass, x.Message, js(w.job), js(w.event), js(w.msg))
	}
	if !kit.EqMap(e.MetaData.Kvs, jsMap(w.kvs)) {
		return fmt.Sprintf("post has key/values %q, at logging they were %q", e.MetaData.Kvs, w.kvs)
	}
	if e.MetaData.Request.URL != js(w.kvs["request"]) || e.MetaData.Request.Parameters != js(w.kvs["formdata"]) {
		return fmt.Sprintf("post has request %q parameters %q, key/values %q", e.MetaData.Request.URL, e.MetaData.Request.Parameters, w.kvs)
	}
	fr := w.err.Stack.Frames()
	if len(fr) != len(x.Stacktrace) || len(fr) == 0 {
		return fmt.Sprintf("post has %d frames, the error's first trace %d", len(x.Stacktrace), len(fr))
	}
	for i, f := range fr {
		g := x.Stacktrace[i]
		if g.File != f.File || g.LineNumber != f.LineNumber || g.InProject == f.IsSystemPackage || g.Method != f.Package+":"+f.Name {
			return fmt.Sprintf("post frame %d is %+v, the error's is %+v", i, g, f)
		}
	}
	return ""
}

//go:noinline
func logDeep(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	logDeep(n-1, f)
}

func mergeKvs(ms ...map[string]string) map[string]string {
	o := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			o[k] = v
		}
	}
	return o
}

func bsFault(g *rand.Rand, slow bool) (vnet.Reply, time.Duration) {
	var d time.Duration
	if slow && g.IntN(3) == 0 {
		d = time.Duration(g.Int64N(int64(20 * time.Second)))
	}
	switch g.IntN(10) {
	case 0:
		return vnet.Reply{Err: errors.New("connect: connection refused")}, d
	case 1:
		return vnet.Reply{Code: 500, Body: []byte("OK")}, d
	case 2:
		return vnet.Reply{Code: 429, Body: []byte("too many")}, d
	case 3:
		return vnet.Reply{Body: []byte("nope")}, d
	case 4:
		return vnet.Reply{Body: []byte("O"), ReadErr: errors.New("reset by peer")}, d
	case 5, 6:
		return vnet.Trouble(g), d
	}
	return vnet.Reply{Body: []byte("OK")}, d
}

func TestC06(t *testing.T) {
	kit.Run(t, "C06", func(r *kit.Rep) {
		devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		olderr := os.Stderr
		silence := func() func() { os.Stderr = devnull; return func() { os.Stderr = olderr } }

		run := func(c *kit.Case, ng, per int, burst bool) {
			g := c.Rng
			defer silence()()
			var mu sync.Mutex
			var posts []*vnet.Request
			var faults []vnet.Reply
			var delays []time.Duration
			faulty := g.IntN(3) > 0
			for i := 0; i < 64; i++ {
				rep, d := vnet.Reply{Body: []byte("OK")}, time.Duration(0)
				if faulty {
					rep, d = bsFault(g, !burst || g.IntN(2) == 0)
				}
				faults = append(faults, rep)
				delays = append(delays, d)
			}
			_, restore := vnet.Install(func(q *vnet.Request) vnet.Reply {
				mu.Lock()
				n := len(posts)
				posts = append(posts, q)
				mu.Unlock()
				if d := delays[n%64]; d > 0 {
					time.Sleep(d)
				}
				return faults[n%64]
			})
			defer restore()
			c.Bubble(10000*time.Hour, func() {
				cfg := bugsnag.Config{APIKey: kit.Name(g), Endpoint: fmt.Sprintf("http://bugsnag.test/%d", c.N), ReleaseStage: kit.Name(g), Hostname: kit.Name(g), AppVersion: kit.Name(g)}
				wantURL := cfg.Endpoint
				if g.IntN(5) == 0 {
					cfg.Endpoint = ""
					wantURL = "https://notify.bugsnag.com/"
				}
				given := cfg
				sink := bugsnag.NewSink(&given)
				s := health.NewStream()
				others := g.IntN(3)
				for i := 0; i < others; i++ {
					s.AddSink(&rec{})
				}
				s.AddSink(sink)
				skv := map[string]string{}
				for i, last := 0, g.IntN(3); i < last; i++ {
					k, v := kit.Name(g), kit.Name(g)
					skv[k] = v
					s.KeyValue(k, v)
				}
				want := make([][]bsWant, ng)
				seeds := make([]uint64, ng)
				for i := range seeds {
					seeds[i] = g.Uint64()
				}
				var wg sync.WaitGroup
				for gi := 0; gi < ng; gi++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						g := rand.New(rand.NewPCG(seeds[gi], 1))
						job := fmt.Sprintf("g%d %s", gi, kit.Name(g))
						j := s.NewJob(job)
						jkv := map[string]string{}
						var known []error
						for i := 0; i < per; i++ {
							if !burst && g.IntN(3) == 0 {
								time.Sleep(time.Duration(g.Int64N(int64(5 * time.Second))))
							}
							switch g.IntN(10) {
							case 0:
								j.Event(kit.Name(g))
								j.Gauge("x", 1)
								j.TimingKv("x", 1, map[string]string{"a": "b"})
								j.Complete(health.Error)
							case 1:
								j.EventErr(kit.Name(g), health.Mute(errors.New("muted")))
							case 2: // log again, here or through the same stream's other entry points
								if len(known) > 0 {
									e := known[g.IntN(len(known))]
									switch g.IntN(3) {
									case 0:
										j.EventErr("again", e)
									case 1:
										s.NewJob("up").EventErrKv("again", e, map[string]string{"x": "y"})
									default:
										s.EventErr("again", e)
									}
								}
							case 3:
								k, v := kit.Name(g), kit.Name(g)
								jkv[k] = v
								j.KeyValue(k, v)
							default:
								msg := fmt.Sprintf("g%d#%d %s", gi, i, kit.Name(g))
								ev := fmt.Sprintf("g%d#%d %s", gi, i, kit.Name(g))
								if g.IntN(8) == 0 {
									msg += strings.Repeat("long ", g.IntN(4000))
								}
								if g.IntN(16) == 0 {
									ev += strings.Repeat("long ", g.IntN(400))
								}
								var own map[string]string
								if g.IntN(2) == 0 {
									own = kit.Kvs(g, kit.Name)
									if g.IntN(3) == 0 {
										own = mergeKvs(own, map[string]string{"request": "http://x/" + kit.Name(g), "formdata": "a=" + kit.Name(g)})
									}
								}
								w := bsWant{g: gi, seq: i, job: job, event: ev, msg: msg, kvs: mergeKvs(skv, jkv, own)}
								var got error
								if g.IntN(8) == 0 {
									logDeep(g.IntN(80), func() { got = j.EventErrKv(ev, errors.New(msg), own) })
								} else if own != nil {
									got = j.EventErrKv(ev, errors.New(msg), own)
								} else {
									got = j.EventErr(ev, errors.New(msg))
								}
								if g.IntN(10) == 0 {
									// the very same again, as another error
									w.err, _ = got.(*health.UnmutedError)
									want[gi] = append(want[gi], w)
									known = append(known, got)
									if own != nil {
										got = j.EventErrKv(ev, errors.New(msg), own)
									} else {
										got = j.EventErr(ev, errors.New(msg))
									}
								}
								w.err, _ = got.(*health.UnmutedError)
								want[gi] = append(want[gi], w)
								known = append(known, got)
								// the caller's map is the caller's: reuse it for something else
								for k := range own {
									own[k] = "changed later"
								}
								if own != nil {
									own["added later"] = "x"
								}
							}
						}
					}()
				}
				wg.Wait()
				// let the queue be worked off
				total := 0
				for _, w := range want {
					total += len(w)
				}
				for i := 0; i < 200; i++ {
					kit.Wait()
					mu.Lock()
					n := len(posts)
					mu.Unlock()
					if n >= total {
						break
					}
					time.Sleep(30 * time.Second)
				}
				time.Sleep(time.Minute)
				kit.Wait()
				mu.Lock()
				defer mu.Unlock()
				c.Tracef("goroutines=%d errors=%d posts=%d faulty=%v burst=%v", ng, total, len(posts), faulty, burst)
				c.Count("errors_logged", total)
				c.Count("posts_checked", len(posts))
				c.Max("errors_in_one_case", total)
				if len(posts) != total {
					c.Failf("%d distinct unmuted errors were logged, %d reports were posted", total, len(posts))
					return
				}
				next := make([]int, ng)
				for i, q := range posts {
					if q.Method != "POST" || q.URL != wantURL || !kit.IsJSON(q.Header.Get("Content-Type")) {
						c.Failf("report sent as %s %s (%s)", q.Method, q.URL, q.Header.Get("Content-Type"))
						return
					}
					var p bsPost
					if err := json.Unmarshal(q.Body, &p); err != nil || len(p.Events) != 1 || len(p.Events[0].Exceptions) != 1 {
						c.Failf("report %d is malformed: %v %s", i, err, q.Body)
						return
					}
					var gi, seq int
					if _, err := fmt.Sscanf(p.Events[0].Exceptions[0].Message, "g%d#%d", &gi, &seq); err != nil || gi >= ng {
						c.Failf("report %d has message %q, which nobody logged", i, p.Events[0].Exceptions[0].Message)
						return
					}
					if next[gi] >= len(want[gi]) || want[gi][next[gi]].seq != seq {
						c.Failf("report %d is goroutine %d's error %d: out of order, repeated or never logged", i, gi, seq)
						return
					}
					if d := checkBs(cfg, want[gi][next[gi]], q); d != "" {
						c.Failf("report %d: %s", i, d)
						return
					}
					next[gi]++
				}
			})
		}
		r.Cases("single", r.Pick(1800, 14400), func(c *kit.Case) { run(c, 1, 5+c.Rng.IntN(30), c.Rng.IntN(2) == 0) })
		r.Cases("concurrent", r.Pick(900, 7200), func(c *kit.Case) { run(c, 2+c.Rng.IntN(8), 3+c.Rng.IntN(20), c.Rng.IntN(2) == 0) })
		r.Cases("burst", r.Pick(180, 1440), func(c *kit.Case) { run(c, 1+c.Rng.IntN(8), 40+c.Rng.IntN(100), true) })
		// A caller with a key/value map per request, reused while reports are still queued behind a slow endpoint.
		r.Cases("slow endpoint", r.Pick(600, 4800), func(c *kit.Case) {
			g := c.Rng
			defer silence()()
			var mu sync.Mutex
			var posts []*vnet.Request
			_, restore := vnet.Install(func(q *vnet.Request) vnet.Reply {
				time.Sleep(time.Second)
				mu.Lock()
				posts = append(posts, q)
				mu.Unlock()
				return vnet.Reply{Body: []byte("OK")}
			})
			defer restore()
			c.Bubble(1000*time.Hour, func() {
				cfg := bugsnag.Config{APIKey: "k", Endpoint: "http://bs.test/"}
				given := cfg
				s := health.NewStream().AddSink(bugsnag.NewSink(&given))
				mode := g.IntN(3)
				var want []bsWant
				own := map[string]string{}
				j := s.NewJob("job")
				kv := map[string]string{}
				n := 2 + g.IntN(40)
				for i := 0; i < n; i++ {
					msg := fmt.Sprintf("e%d", i)
					v := fmt.Sprint(i)
					var got error
					switch mode {
					case 0: // one map, refilled for every call
						own["i"] = v
						got = j.EventErrKv("ev", errors.New(msg), own)
						kv = map[string]string{"i": v}
					case 1: // job key/values set before each call
						j.KeyValue("i", v)
						kv = map[string]string{"i": v}
						got = j.EventErr("ev", errors.New(msg))
					case 2: // stream key/values
						s.KeyValue("i", v)
						kv = map[string]string{"i": v}
						got = j.EventErr("ev", errors.New(msg))
					}
					u, _ := got.(*health.UnmutedError)
					want = append(want, bsWant{job: "job", event: "ev", msg: msg, kvs: kv, err: u})
				}
				time.Sleep(time.Duration(n+2) * time.Second)
				kit.Wait()
				mu.Lock()
				defer mu.Unlock()
				c.Tracef("mode=%d errors=%d posts=%d", mode, n, len(posts))
				c.Count("posts_checked", len(posts))
				if len(posts) != n {
					c.Failf("%d errors logged, %d posted", n, len(posts))
					return
				}
				for i, q := range posts {
					if d := checkBs(cfg, want[i], q); d != "" {
						c.Failf("report %d (mode %d): %s", i, mode, d)
						return
					}
				}
			})
		})
	})
}
