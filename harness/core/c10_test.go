package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

// namePool gives names that stay distinct on their way through JSON.
func namePool(g *rand.Rand, n int) func(*rand.Rand) string {
	seen := map[string]bool{}
	var pool []string
	for len(pool) < n {
		s := kit.Name(g)
		if g.IntN(3) == 0 {
			s += kit.RandString(g, 1+g.IntN(20))
		}
		if g.IntN(60) == 0 {
			s += strings.Repeat("long%s", 300)
		}
		if j := model.JSONName(s); !seen[j] {
			seen[j] = true
			pool = append(pool, s)
		} else if len(seen) > n/2 && g.IntN(50) == 0 {
			break
		}
	}
	return func(g *rand.Rand) string { return pool[g.IntN(len(pool))] }
}

// decodeHealth decodes a body strictly: one JSON value and nothing else.
func decodeHealth(b []byte) (*model.WireHealth, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	var w model.WireHealth
	if err := dec.Decode(&w); err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("something follows the JSON document")
	}
	return &w, nil
}

func checkHealth(code int, hdr http.Header, body []byte, d time.Duration, want []*health.IntervalAggregation) string {
	if code != 200 {
		return fmt.Sprintf("status %d, body %.200q", code, body)
	}
	if ct := hdr.Get("Content-Type"); !kit.IsJSON(ct) {
		return fmt.Sprintf("content type %q", ct)
	}
	if cl := hdr.Get("Content-Length"); cl != "" && cl != strconv.Itoa(len(body)) {
		return fmt.Sprintf("content length %s announced, the body has %d bytes", cl, len(body))
	}
	w, err := decodeHealth(body)
	if err != nil {
		return fmt.Sprintf("body is not valid JSON: %v: %.300q", err, body)
	}
	if w.InstanceId != health.Identifier || w.InstanceId == "" {
		return fmt.Sprintf("instance id %q, the process's is %q", w.InstanceId, health.Identifier)
	}
	if w.IntervalDuration != int64(d) {
		return fmt.Sprintf("interval duration %d, configured %d", w.IntervalDuration, d)
	}
	if want == nil {
		return ""
	}
	if len(w.Aggregations) != len(want) {
		return fmt.Sprintf("%d intervals served, a direct read gives %d", len(w.Aggregations), len(want))
	}
	for i := range want {
		m := model.FromReal(want[i]).Renamed(model.JSONName)
		if df := model.DiffAgg(m, w.Aggregations[i].Agg(), true); df != "" {
			return fmt.Sprintf("interval %d: served data differs from a direct read: %s", i, df)
		}
	}
	return ""
}

func TestC10(t *testing.T) {
	kit.Run(t, "C10", func(r *kit.Rep) {
		r.Cases("content", r.Pick(4500, 60000), func(c *kit.Case) {
			c.Bubble(1000*time.Hour, func() {
				g := c.Rng
				name := namePool(g, 2+g.IntN(12))
				d := []time.Duration{time.Second, time.Minute, time.Hour}[g.IntN(3)]
				sink := health.NewJsonPollingSink(d, 5*d)
				defer sink.ShutdownServer()
				if g.IntN(3) == 0 { // nothing happens at first
					time.Sleep(d * time.Duration(g.IntN(5)))
				}
				n, wide := g.IntN(40), 0
				if g.IntN(100) == 0 { // a document of megabytes
					n, wide = 3000+g.IntN(3000), 2000
				}
				for i := 0; i < n; i++ {
					e := model.Gen(g, name)
					if wide > 0 {
						e.Job, e.Event = kit.Spread(g, e.Job, wide), kit.Spread(g, e.Event, wide)
					}
					e.To(sink)
					c.Tracef("%v", e)
					if g.IntN(12+n/4) == 0 {
						time.Sleep(d / 2 * time.Duration(1+g.IntN(2)*g.IntN(9)))
					}
				}
				kit.Wait()
				if g.IntN(4) == 0 { // nor at the end
					time.Sleep(d * time.Duration(g.IntN(6)))
					kit.Wait()
				}
				before := takeSnap(sink)
				rw := httptest.NewRecorder()
				req := httptest.NewRequest([]string{"GET", "GET", "POST", "PUT", "OPTIONS"}[g.IntN(5)], "/health"+[]string{"", "?a=b"}[g.IntN(2)], nil)
				if g.IntN(2) == 0 { // nothing of this lets the server answer otherwise, as it gave no validators
					req.Header.Set("If-None-Match", fmt.Sprintf("\"%x\"", g.Uint32()))
				}
				if g.IntN(3) == 0 {
					req.Header.Set("Accept", []string{"text/html", "*/*", "application/json", "text/plain;q=0.5, */*;q=0.1"}[g.IntN(4)])
				}
				if g.IntN(3) == 0 {
					req.Header.Set("User-Agent", []string{"", "curl/8.5.0", "Mozilla/5.0", "Go-http-client/1.1", "kube-probe/1.30"}[g.IntN(5)])
				}
				if g.IntN(4) == 0 {
					req.Header.Set("Cache-Control", "no-cache")
				}
				if g.IntN(4) == 0 {
					req.Host = []string{"", "example.org", "127.0.0.1:5000"}[g.IntN(3)]
				}
				sink.ServeHTTP(rw, req)
				after := takeSnap(sink)
				if df := checkHealth(rw.Code, rw.Result().Header, rw.Body.Bytes(), d, before.ms); df != "" {
					c.Failf("%s", df)
					return
				}
				if fmt.Sprint(before.dump) != fmt.Sprint(after.dump) {
					c.Failf("serving /health changed the metrics:\n%v\n%v", before.dump, after.dump)
					return
				}
				c.Count("documents_compared", 1)
				c.Max("largest_document", rw.Body.Len())
				c.Count("bytes_served", rw.Body.Len())
				for _, p := range []string{"/", "/health/", "/healthx", "/Health", "/x/health", "/api" + fmt.Sprint(g.IntN(100)), "/health%2f", "//health", "/healt"} {
					rw := httptest.NewRecorder()
					sink.ServeHTTP(rw, httptest.NewRequest("GET", p, nil))
					var m map[string]any
					if rw.Code != 404 || !kit.IsJSON(rw.Result().Header.Get("Content-Type")) || json.Unmarshal(rw.Body.Bytes(), &m) != nil || m["error"] == nil {
						c.Failf("%s answered %d %q %q", p, rw.Code, rw.Result().Header.Get("Content-Type"), rw.Body.String())
						return
					}
					c.Count("not_found_checked", 1)
				}
			})
		})
		// The real server, concurrent requests while metrics change.
		r.Cases("server", r.Pick(36, 300), func(c *kit.Case) {
			g := c.Rng
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				c.Inconclusive("listen: %v", err)
				return
			}
			addr := l.Addr().String()
			l.Close()
			sink := health.NewJsonPollingSink(time.Hour, 2*time.Hour)
			defer sink.ShutdownServer()
			sink.StartServer(addr)
			name := namePool(g, 12)
			for i := 0; i < 300; i++ {
				model.Gen(g, name).To(sink)
			}
			cl := &http.Client{}
			get := func(path string) (int, http.Header, []byte, error) {
				resp, err := cl.Get("http://" + addr + path)
				if err != nil {
					return 0, nil, nil, err
				}
				defer resp.Body.Close()
				b, err := io.ReadAll(resp.Body)
				return resp.StatusCode, resp.Header, b, err
			}
			up := false
			broken := 0
			for i := 0; i < 1000 && !up && broken < 100; i++ {
				conn, err := net.Dial("tcp", addr)
				if err == nil {
					conn.Close()
					var code int
					var b []byte
					if code, _, b, err = get("/health"); err != nil && (code != 0 || len(b) > 0) {
						broken++
						if broken == 100 {
							c.Failf("/health could not be read: status %d, %d bytes and then %v", code, len(b), err)
							return
						}
					}
				}
				up = err == nil
				if !up {
					time.Sleep(5 * time.Millisecond)
				}
			}
			if !up {
				c.Inconclusive("the server on %s never came up", addr)
				return
			}
			var wg sync.WaitGroup
			stop := make(chan struct{})
			go func() {
				g := rand.New(rand.NewPCG(1, 2))
				for {
					select {
					case <-stop:
						return
					default:
						model.Gen(g, name).To(sink)
					}
				}
			}()
			for i := 0; i < 8; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for x := 0; x < 10; x++ {
						code, h, b, err := get("/health")
						if err != nil {
							c.Failf("request failed: %v", err)
							return
						}
						if df := checkHealth(code, h, b, time.Hour, nil); df != "" {
							c.Failf("concurrent request: %s", df)
							return
						}
						c.Count("documents_compared", 1)
						if code, _, b, err := get("/nothing"); err != nil || code != 404 || !json.Valid(b) {
							c.Failf("unknown path answered %d %q %v", code, b, err)
							return
						}
					}
				}()
			}
			wg.Wait()
			close(stop)
			c.Tracef("%d names, 80 concurrent requests on %s", 12, "loopback")
			cl.CloseIdleConnections()
		})
		// Individually listed: values JSON has no form for.
		r.Cases("nonfinite", 3, func(c *kit.Case) {
			c.Bubble(time.Hour, func() {
				v := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[c.N]
				sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
				defer sink.ShutdownServer()
				sink.EmitEvent("j", "e", nil)
				sink.EmitGauge("j", "g", v, nil)
				kit.Wait()
				rw := httptest.NewRecorder()
				sink.ServeHTTP(rw, httptest.NewRequest("GET", "/health", nil))
				c.Tracef("gauge %v: status %d", v, rw.Code)
				if !json.Valid(rw.Body.Bytes()) || rw.Code != 200 && rw.Code < 500 || rw.Code == 200 && !bytes.Contains(rw.Body.Bytes(), []byte(`"aggregations"`)) {
					c.Failf("after a gauge of %v, /health answers %d %q, which is neither metrics nor an error", v, rw.Code, rw.Body.String())
					return
				}
				if rw.Code != 200 {
					c.Finding("nonfinite-gauge", fmt.Sprintf("after a gauge of %v, /health answers %d %q until the interval ages out", v, rw.Code, rw.Body.String()))
				}
			})
		})
	})
}
