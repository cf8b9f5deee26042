package hd

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"example.com/verif/vnet"
	"github.com/braintree/manners"
	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
	"github.com/gocraft/health/runtime_metrics"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
)

// Whatever can be stopped stops: the call returns, nothing is done after it, and nothing stays behind.
func TestC29(t *testing.T) {
	kit.Run(t, "C29", func(r *kit.Rep) {
		out := os.Stdout
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		defer func() { os.Stdout = out }()
		r.Cases("lives", r.Pick(2400, 24000), c29Lives)
		r.Cases("sockets", r.Pick(40, 400), c29Sockets)
	})
}

// strays are the goroutines that run code of gocraft/health or were started by it.
func strays() (list []string, all int) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		all++
		if strings.Contains(g, "github.com/gocraft/health") {
			list = append(list, g)
		}
	}
	return
}

type silence struct {
	mu      sync.Mutex
	stopped map[string]time.Time
	late    string
	seen    int
}

// did is called when a component does something to the outside.
func (s *silence) did(who, what string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen++
	if at, ok := s.stopped[who]; ok && (time.Now().After(at) || who != "healthd") && s.late == "" { // polls of healthd's may just be starting
		s.late = fmt.Sprintf("%s: %s, %v after it was stopped", who, what, time.Since(at))
	}
}

func (s *silence) stop(who string) {
	s.mu.Lock()
	s.stopped[who] = time.Now()
	s.mu.Unlock()
}

type rtmSink struct {
	health.WriterSink
	s    *silence
	slow time.Duration
}

func (r *rtmSink) EmitGauge(job, event string, v float64, kvs map[string]string) {
	if job == "runtime" {
		r.s.did("runtime metrics", "reported "+event)
		time.Sleep(r.slow)
	}
}

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

func c29Lives(c *kit.Case) {
	g := c.Rng
	g2 := rand.New(rand.NewPCG(g.Uint64(), 29)) // for replies, which come in any order
	var g2mu sync.Mutex
	pick := func(n int) int {
		g2mu.Lock()
		defer g2mu.Unlock()
		return g2.IntN(n)
	}
	conn, err := net.ListenPacket("udp", "127.0.0.1:0") // nobody reads
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer conn.Close()
	if l, _ := strays(); len(l) > 0 {
		c.Tracef("strays of an earlier case: %d", len(l))
	}
	c.Bubble(1000*time.Hour, func() {
		sil := &silence{stopped: map[string]time.Time{}}
		bad := g.IntN(3)
		net, restore := vnet.Install(func(r *vnet.Request) vnet.Reply {
			who := "healthd"
			switch {
			case strings.Contains(r.URL, "bugsnag"):
				who = "bugsnag sink"
			case strings.Contains(r.URL, "librato"):
				who = "librato sink"
			}
			sil.did(who, "sent "+r.URL)
			x, d := 99, time.Duration(pick(2)*(1+pick(4800)))*time.Millisecond
			if bad > 0 {
				x = pick(20 / (1 + bad))
			}
			switch x {
			case 0:
				return vnet.Reply{Err: errRefused}
			case 1:
				return vnet.Reply{Code: 500, Body: []byte("no")}
			case 2:
				return vnet.Reply{Body: []byte("{"), ReadErr: errReset}
			case 3:
				d = 20 * time.Second
			case 4: // never answered
				c.Count("requests_never_answered", 1)
				<-r.Req.Context().Done()
				return vnet.Reply{Err: r.Req.Context().Err()}
			case 5: // answered, but the body never comes
				c.Count("requests_never_answered", 1)
				return vnet.Reply{Body: []byte("OK"), Wait: func() { <-r.Req.Context().Done() }}
			}
			time.Sleep(d)
			if who == "healthd" {
				w := model.WireHealth{InstanceId: "i", IntervalDuration: int64(time.Minute)}
				a := model.New(time.Now().Truncate(time.Minute))
				a.Apply(model.Em{Kind: model.Event, Job: "j", Event: "e"})
				w.Aggregations = append(w.Aggregations, a.Wire())
				b, err := json.Marshal(w)
				if err != nil {
					panic("HARNESS: " + err.Error())
				}
				return vnet.Reply{Body: b}
			}
			return vnet.Reply{Body: []byte("OK")}
		})
		defer restore()
		kit.Wait()
		before, all0 := strays()
		for round, rounds := 0, 1+g.IntN(3); round < rounds; round++ {
			sil.mu.Lock()
			sil.stopped = map[string]time.Time{}
			sil.mu.Unlock()
			type part struct {
				name string
				stop func()
			}
			var parts []part
			s, hs := health.NewStream(), health.NewStream()
			every, slow := time.Duration(1+g.IntN(5000))*time.Millisecond, time.Duration(0)
			if g.IntN(2) == 0 {
				slow = time.Duration(g.IntN(int(2 * every)))
			}
			s.AddSink(&rtmSink{health.WriterSink{Writer: nowhere{}}, sil, slow})
			attach := func(k health.Sink) {
				s.AddSink(k)
				hs.AddSink(k)
			}
			var using []func() // what may be done meanwhile
			mask := 1 + g.IntN(63)
			if mask&1 != 0 {
				sink := health.NewJsonPollingSink(time.Duration(1+g.IntN(60))*time.Second, time.Duration(1+g.IntN(5))*time.Minute)
				attach(sink)
				parts = append(parts, part{"polling sink", sink.ShutdownServer})
				get := func() {
					if pick(2) == 0 {
						sink.GetMetrics()
					} else {
						sink.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/health", nil))
					}
				}
				using = append(using, get)
			}
			if mask&2 != 0 {
				sink, err := health.NewStatsDSink(conn.LocalAddr().String(), nil)
				if err != nil {
					c.Failf("StatsD sink: %v", err)
					return
				}
				attach(sink)
				parts = append(parts, part{"StatsD sink", sink.Stop})
			}
			if mask&4 != 0 {
				sink := bugsnag.NewSink(&bugsnag.Config{APIKey: "k", Endpoint: "http://bugsnag.test/"})
				s.AddSink(sink) // and not healthd's: hundreds of hosts fail faster than errors can be reported
				parts = append(parts, part{"bugsnag sink", sink.ShutdownServer})
			}
			if mask&8 != 0 {
				sink := librato.New("u", "k", "p")
				attach(sink)
				parts = append(parts, part{"librato sink", sink.Stop})
			}
			if mask&16 != 0 {
				rm := runtime_metrics.NewRuntimeMetrics(s.NewJob("runtime"), &runtime_metrics.Options{Interval: every, Memory: true, Goroutines: true})
				rm.Start()
				parts = append([]part{{"runtime metrics", rm.Stop}}, parts...) // it emits
			}
			if mask&32 != 0 {
				n := 1 + g.IntN(5)
				if g.IntN(6) == 0 {
					n = 60 + g.IntN(80)
				}
				var hps []string
				for i := 0; i < n; i++ {
					hps = append(hps, fmt.Sprintf("h%d:1", i))
				}
				addr := fmt.Sprintf("hd%d:5032", addrs.Add(1))
				hd := healthd.StartNewHealthD(hps, addr, hs)
				kit.Wait()
				api := manners.LookupAny(addr)
				parts = append([]part{{"healthd", hd.Stop}}, parts...)
				using = append(using, func() {
					api.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", apiPaths[pick(len(apiPaths))], nil))
				})
			}
			c.Sig(mask, bad)
			emitters := 0
			for i, last := 0, g.IntN(40); i < last; i++ {
				switch g.IntN(4) {
				case 0:
					time.Sleep(time.Duration(g.IntN(20000)) * time.Millisecond)
				case 1:
					j := s.NewJob("j")
					j.EventErr("e", fmt.Errorf("error %d", i))
				case 2:
					if len(using) > 0 {
						using[g.IntN(len(using))]()
					}
				}
				model.Gen(g, kit.PlainName).To(s.Sinks[g.IntN(len(s.Sinks))])
				emitters++
			}
			// What emits goes first; the others in any order, at any time, some together.
			stopOne := func(p part) {
				p.stop()
				sil.stop(p.name)
				c.Count("stopped", 1)
			}
			emit := 0
			for emit < len(parts) && (parts[emit].name == "healthd" || parts[emit].name == "runtime metrics") {
				emit++
			}
			sinks := parts[emit:]
			g.Shuffle(len(sinks), func(i, j int) { sinks[i], sinks[j] = sinks[j], sinks[i] })
			var wg sync.WaitGroup
			pause := func() {
				switch g.IntN(3) {
				case 0:
					time.Sleep(time.Duration(g.IntN(3000)) * time.Millisecond)
				case 1:
					time.Sleep(time.Duration(g.IntN(4)) * 5 * time.Second)
				}
			}
			for _, p := range parts[:emit] {
				pause()
				// users go on at the moment of stopping
				for _, u := range using {
					if p.name == "healthd" && g.IntN(2) == 0 {
						wg.Add(1)
						go func() {
							defer wg.Done()
							u()
						}()
					}
				}
				stopOne(p)
			}
			wg.Wait()
			// what healthd had under way still ends on the stream: its sinks are stopped once it has
			if mask&32 != 0 {
				time.Sleep(30 * time.Second)
			}
			for _, p := range sinks {
				pause()
				if g.IntN(3) == 0 {
					wg.Add(1)
					go func() { defer wg.Done(); stopOne(p) }()
				} else {
					stopOne(p)
				}
			}
			wg.Wait()
			c.Tracef("round %d: parts %06b, %d uses, all stopped at +%v", round, mask, emitters, time.Now().Unix())
			time.Sleep(2 * time.Minute)
			kit.Wait()
			sil.mu.Lock()
			late, seen := sil.late, sil.seen
			sil.mu.Unlock()
			c.Count("actions_observed", seen)
			if late != "" {
				c.Failf("%s", late)
				return
			}
			after, all := strays()
			for i := 0; i < 100 && (len(after) > len(before) || all > all0); i++ { // some may only just be ending
				ts := syscall.NsecToTimespec(int64(i) * 100000)
				syscall.Nanosleep(&ts, nil)
				kit.Wait()
				after, all = strays()
			}
			c.Count("leftover_checks", 1)
			if len(after) > len(before) || all > all0 {
				c.Failf("parts %06b stopped 2 minutes ago: %d goroutines of theirs are still there (%d in all, %d before):\n%s", mask, len(after)-len(before), all, all0, strings.Join(after, "\n\n"))
				return
			}
			if o, cl := net.Opened.Load(), net.Closed.Load(); o != cl {
				c.Failf("parts %06b: %d of %d response bodies were never closed", mask, o-cl, o)
				return
			}
			// a read after the end is answered, too
			if mask&1 != 0 && g.IntN(2) == 0 {
				using[0]()
			}
		}
	})
}

func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return len(l)
}

var c29Seen atomic.Bool

// c29Sockets, in real time: what a sink held of the system is given back.
func c29Sockets(c *kit.Case) {
	if c29Seen.Load() { // what is left behind would be there in the next case, too
		return
	}
	defer func() {
		if c.Failed() {
			c29Seen.Store(true)
		}
	}()
	g := c.Rng
	conn, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer conn.Close()
	settle := func(ok func() bool) bool {
		for i := 0; i < 400; i++ {
			runtime.GC()
			if ok() {
				return true
			}
			time.Sleep(time.Duration(1+i/4) * time.Millisecond)
		}
		return false
	}
	settle(func() bool { return true })
	files := openFiles()
	before, _ := strays()
	n := 1 + g.IntN(12)
	served := 0
	for i := 0; i < n; i++ {
		switch g.IntN(3) {
		case 0:
			sink, err := health.NewStatsDSink(conn.LocalAddr().String(), &health.StatsDSinkOptions{Prefix: "p"})
			if err != nil {
				c.Failf("StatsD sink: %v", err)
				return
			}
			for k := g.IntN(300); k > 0; k-- {
				sink.EmitEvent("j", "e", nil)
			}
			if g.IntN(2) == 0 {
				sink.Drain()
			}
			time.Sleep(time.Duration(g.IntN(2)*g.IntN(130)) * time.Millisecond)
			sink.Stop()
		case 1:
			// What no sink came of must not stay open until the garbage
			// collector happens to find it.
			gc := debug.SetGCPercent(-1)
			open := openFiles()
			for k := 0; k < 40; k++ {
				if sink, err := health.NewStatsDSink("127.0.0.1:port", nil); err == nil {
					sink.Stop()
				}
			}
			var now int
			for w := 0; w < 200; w++ {
				if now = openFiles(); now < open+20 {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			debug.SetGCPercent(gc)
			if now >= open+20 {
				c.Failf("40 attempts to make a StatsD sink for an address that doesn't exist left %d more files open", now-open)
				return
			}
			for _, bad := range []string{"", "nowhere", "127.0.0.1", "127.0.0.1:99999", "127.0.0.1:port:1", "[::1", "127.0.0.1:-1"} {
				sink, err := health.NewStatsDSink(bad, nil)
				if err == nil {
					c.Tracef("address %q accepted", bad)
					sink.Stop()
				}
				if err == nil && bad != "" {
					c.Failf("a StatsD sink for the address %q was made without an error", bad)
					return
				}
				c.Count("bad_addresses", 1)
			}
		case 2:
			sink := health.NewJsonPollingSink(time.Second, time.Minute)
			tr := &http.Transport{}
			cl := &http.Client{Transport: tr, Timeout: 10 * time.Second}
			var addrs []string
			var idle []net.Conn
			for k, last := 0, 1+g.IntN(3); k < last; k++ {
				// an address nobody else uses
				addr := fmt.Sprintf("127.%d.%d.%d:5020", 1+g.IntN(250), g.IntN(250), 1+os.Getpid()%250)
				sink.StartServer(addr)
				if g.IntN(4) == 0 {
					continue // and perhaps it isn't even listening yet
				}
				up := settle(func() bool {
					resp, err := cl.Get("http://" + addr + "/health")
					if err == nil {
						resp.Body.Close()
					}
					return err == nil && resp.StatusCode == 200
				})
				if !up { // someone else took the port
					c.Count("port_taken", 1)
					continue
				}
				served++
				addrs = append(addrs, addr)
				for x := g.IntN(3); x > 0; x-- { // clients that say nothing, or not enough
					if conn, err := net.Dial("tcp", addr); err == nil {
						if x == 1 {
							fmt.Fprintf(conn, "GET /hea")
						}
						idle = append(idle, conn)
					}
				}
			}
			sink.ShutdownServer()
			// From now on nobody is kept waiting.
			for _, addr := range addrs {
				t := time.Now()
				resp, err := cl.Get("http://" + addr + "/health")
				if err == nil {
					resp.Body.Close()
				}
				if d := time.Since(t); d > 8*time.Second {
					c.Failf("a request to a polling sink that was shut down got no answer in %v", d)
					return
				}
			}
			for _, conn := range idle {
				conn.Close()
			}
			tr.CloseIdleConnections()
			for _, addr := range addrs {
				if !settle(func() bool {
					l, err := net.Listen("tcp", addr)
					if err == nil {
						l.Close()
					}
					return err == nil
				}) {
					c.Failf("the address a polling sink served on is still in use after ShutdownServer")
					return
				}
			}
			c.Count("servers_shut_down", 1)
		}
	}
	c.Sig(n, g.Uint64())
	var now int
	var left []string
	if !settle(func() bool {
		now = openFiles()
		left, _ = strays()
		return now <= files && len(left) <= len(before)
	}) {
		c.Failf("after %d sinks were made and stopped there are %d open files, before there were %d; %d goroutines, before there were %d:\n%s", n, now, files, len(left), len(before), strings.Join(left, "\n\n"))
	}
	c.Count("leftover_checks", 1)
}
