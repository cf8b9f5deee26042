package hd

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"example.com/verif/vnet"
	"github.com/braintree/manners"
	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
)

var _ = testing.Short

// how a host treats one poll
type how int

const (
	answers how = iota
	refuses
	hangs      // longer than the client waits
	slowBody   // headers at once, body later, in time
	hangsBody  // headers at once, body too late
	breaksBody // connection lost in the middle of the body
	fails      // non-200 code with an otherwise valid document, or with a JSON error
	garbage    // 200 with something that is not JSON
	truncated  // 200 with half a document
	mismatch   // valid document with another interval duration
	nHow
)

var howNames = []string{"answers", "refuses", "hangs", "slowBody", "hangsBody", "breaksBody", "fails", "garbage", "truncated", "mismatch"}

func (h how) String() string { return howNames[h] }

type poll struct {
	At    time.Time // arrival at the host
	End   time.Time // when the client has its outcome (zero: not yet)
	How   how
	Delay time.Duration
	Code  int
	Inst  string
	Dur   int64
	Err   string // part of the error text expected, if any
	Good  bool   // delivers usable data
	Raw   bool   // scripted body: outcome details are the script's business
}

// host is a scripted process being monitored; its window behaves like a polling sink's.
type host struct {
	hp     string
	inst   string
	keep   int // intervals retained
	zone   *time.Location
	win    []*model.Agg
	born   time.Time
	down   bool
	plan   func(n int) (how, time.Duration)
	serve  func() []byte                       // instead of the scripted window: body of /health
	script func(n int) (code int, body []byte) // hostile bodies
	polls  []*poll
	g      *rand.Rand // for the plan
}

type sim struct {
	c         *kit.Case
	I         time.Duration
	hosts     []*host
	by        map[string]*host
	mu        sync.Mutex
	got       map[int64]map[string]*model.Agg // instant -> host|instance -> latest delivered
	serials   map[string]int64                // instant|host|instance -> serial number of what was last delivered
	ambiguous bool                            // a restarted process with its predecessor's id has also reached its serial number: nothing tells them apart
	last      time.Time                       // of the last delivery
	hd        *healthd.HealthD
	addr      string
	stream    *health.Stream
	opened    atomic.Int64
	net       *vnet.Net
	stop      func()
	onDeliver func(h *host, p *poll, aggs []*model.Agg)
}

var addrs atomic.Int64

func newSim(c *kit.Case, I time.Duration) *sim {
	return &sim{c: c, I: I, by: map[string]*host{}, got: map[int64]map[string]*model.Agg{}, serials: map[string]int64{}, addr: fmt.Sprintf("hd%d:5032", addrs.Add(1)), stream: health.NewStream()}
}

func randZone(g *rand.Rand) *time.Location {
	switch g.IntN(3) {
	case 0:
		return time.UTC
	default:
		return time.FixedZone("", (g.IntN(105)-48)*900)
	}
}

func (s *sim) add(hp, inst string) *host {
	h := &host{hp: hp, inst: inst, keep: 5, zone: randZone(s.c.Rng), g: rand.New(rand.NewPCG(s.c.Rng.Uint64(), 7))}
	h.plan = func(int) (how, time.Duration) { return answers, 0 }
	s.hosts = append(s.hosts, h)
	s.by[hp] = h
	return h
}

// slide brings the host's window up to date, as a polling sink's own ticker does.
func (s *sim) slide(h *host) *model.Agg {
	now := time.Now()
	cur := now.Truncate(s.I)
	if len(h.win) == 0 {
		h.win = append(h.win, model.New(cur))
	}
	for l := h.win[len(h.win)-1]; l.Start.Before(cur); l = h.win[len(h.win)-1] {
		if cur.Sub(l.Start) > s.I*time.Duration(2*h.keep) {
			h.win = append(h.win[:0], model.New(cur.Add(-s.I*time.Duration(h.keep-1))))
			continue
		}
		h.win = append(h.win, model.New(l.Start.Add(s.I)))
	}
	if n := len(h.win); n > h.keep {
		h.win = append([]*model.Agg(nil), h.win[n-h.keep:]...)
	}
	return h.win[len(h.win)-1]
}

func (s *sim) emit(h *host, e model.Em) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if h.down {
		return
	}
	s.slide(h).Apply(e)
}

func (s *sim) restart(h *host, inst string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	h.inst, h.win, h.down = inst, nil, false
	h.zone = randZone(s.c.Rng)
}

func (s *sim) kill(h *host) {
	s.mu.Lock()
	h.down = true
	s.mu.Unlock()
}

// document is what the host serves now, and the same read back by an independent decoder.
func (s *sim) document(h *host, dur time.Duration) ([]byte, *model.WireHealth) {
	var body []byte
	if h.serve != nil {
		body = h.serve()
	} else {
		s.slide(h)
		w := model.WireHealth{InstanceId: h.inst, IntervalDuration: int64(dur)}
		for _, a := range h.win {
			wa := a.Wire()
			wa.IntervalStart = a.Start.In(h.zone)
			w.Aggregations = append(w.Aggregations, wa)
		}
		var err error
		if body, err = json.Marshal(w); err != nil {
			panic(err)
		}
	}
	var back model.WireHealth
	if err := json.Unmarshal(body, &back); err != nil {
		panic(err)
	}
	return body, &back
}

func (s *sim) deliver(h *host, p *poll, w *model.WireHealth) {
	s.mu.Lock()
	p.End = time.Now()
	s.last = p.End
	var aggs []*model.Agg
	for _, wa := range w.Aggregations {
		a := wa.Agg()
		aggs = append(aggs, a)
		k := a.Start.UnixNano()
		if s.got[k] == nil {
			s.got[k] = map[string]*model.Agg{}
		}
		who := h.hp + "|" + w.InstanceId
		id := fmt.Sprint(k, who)
		if old := s.got[k][who]; old != nil && s.serials[id] == wa.SerialNumber && old.Diff(a.Real(), model.Opts{}) != "" {
			s.ambiguous = true
		}
		s.got[k][who] = a
		s.serials[id] = wa.SerialNumber
	}
	s.mu.Unlock()
	s.c.Count("answers_delivered", 1)
	if s.onDeliver != nil {
		s.onDeliver(h, p, aggs)
	}
}

var errRefused = errors.New("connection refused (injected)")
var errReset = errors.New("connection reset (injected)")

// wordy is the error with a text that may be long, as resolvers' are; what matters stands at the end.
func wordy(err error, n int) error {
	if n%3 != 1 {
		return err
	}
	return fmt.Errorf("%s: %w", strings.Repeat("lookup host.example: ", 1+n%7*20), err)
}

const clientTimeout = 5 * time.Second

func (s *sim) handle(r *vnet.Request) vnet.Reply {
	hp := strings.TrimSuffix(strings.TrimPrefix(r.URL, "http://"), "/health")
	s.mu.Lock()
	h := s.by[hp]
	if h == nil || r.Method != "GET" || r.URL != "http://"+hp+"/health" {
		s.mu.Unlock()
		s.c.Failf("unexpected request %s %s", r.Method, r.URL)
		return vnet.Reply{Err: errRefused}
	}
	p := &poll{At: time.Now()}
	n := len(h.polls)
	h.polls = append(h.polls, p)
	s.c.Count("polls", 1)
	if h.down {
		p.How, p.Err, p.End = refuses, "refused", p.At
		s.mu.Unlock()
		return vnet.Reply{Err: errRefused}
	}
	p.How, p.Delay = h.plan(n)
	s.c.Count("polls_"+p.How.String(), 1)
	if h.script != nil && p.How == answers {
		code, body := h.script(n)
		s.mu.Unlock()
		p.Raw = true
		time.Sleep(p.Delay)
		s.mu.Lock()
		p.Code, p.End = code, time.Now()
		if !json.Valid(body) {
			p.Err = "*"
		}
		s.mu.Unlock()
		return vnet.Reply{Code: code, Body: body}
	}
	dur := s.I
	if p.How == mismatch {
		dur = []time.Duration{2 * dur, dur / 2, dur + 1, dur - 1, time.Hour + dur}[n%5]
	}
	body, w := s.document(h, dur)
	inst, d := w.InstanceId, w.IntervalDuration
	s.mu.Unlock()
	finish := func(code int, inst string, dur int64, errs string) {
		s.mu.Lock()
		p.Code, p.Inst, p.Dur, p.Err, p.End = code, inst, dur, errs, time.Now()
		s.mu.Unlock()
	}
	switch p.How {
	case refuses:
		time.Sleep(p.Delay)
		finish(0, "", 0, "refused")
		return vnet.Reply{Err: wordy(errRefused, n)}
	case hangs:
		time.Sleep(clientTimeout)
		finish(0, "", 0, "exceeded")
		time.Sleep(2 * time.Second)
		return vnet.Reply{Code: 200, Body: body}
	case slowBody:
		var once sync.Once
		return vnet.Reply{Code: 200, Body: body, Chunk: 700, Wait: func() {
			once.Do(func() {
				time.Sleep(p.Delay)
				p.Code, p.Inst, p.Dur, p.Good = 200, inst, d, true
				s.deliver(h, p, w)
			})
		}}
	case hangsBody:
		var once sync.Once
		return vnet.Reply{Code: 200, Body: body, Wait: func() {
			once.Do(func() {
				time.Sleep(clientTimeout)
				finish(200, "", 0, "exceeded")
				time.Sleep(time.Second)
			})
		}}
	case breaksBody:
		time.Sleep(p.Delay)
		finish(200, "", 0, "reset")
		return vnet.Reply{Code: 200, Body: body[:len(body)/2], ReadErr: wordy(errReset, n)}
	case fails:
		time.Sleep(p.Delay)
		codes := []int{500, 503, 404, 201, 204, 400, 202, 203, 206, 304, 401, 403, 408, 429, 502, 504, 599}
		if n%3 == 1 { // says that it has nothing, as a polling sink does for other paths
			body, inst, d = [][]byte{[]byte(`{"error": "not_found"}`), []byte("{}"), []byte("null")}[n/3%3], "", 0
		}
		finish(codes[n%len(codes)], inst, d, "-")
		return vnet.Reply{Code: codes[n%len(codes)], Body: body}
	case garbage:
		time.Sleep(p.Delay)
		finish(200, "", 0, "*")
		return vnet.Reply{Code: 200, Body: []byte([]string{"<html>not json</html>", "", "OK", "\xef\xbb\xbf{", "[", "{\"instance_id\":", "nul", " \n"}[n%8])}
	case truncated:
		time.Sleep(p.Delay)
		finish(200, "", 0, "*")
		return vnet.Reply{Code: 200, Body: body[:1+len(body)/2]}
	case mismatch:
		time.Sleep(p.Delay)
		finish(200, inst, d, "-")
		return vnet.Reply{Code: 200, Body: body}
	}
	time.Sleep(p.Delay)
	p.Code, p.Inst, p.Dur, p.Good = 200, inst, d, true
	s.deliver(h, p, w)
	return vnet.Reply{Code: 200, Body: body}
}

// start brings healthd up over the scripted network.
func (s *sim) start(hps []string) {
	if hps == nil {
		for _, h := range s.hosts {
			hps = append(hps, h.hp)
		}
		s.c.Rng.Shuffle(len(hps), func(i, j int) { hps[i], hps[j] = hps[j], hps[i] })
	}
	s.net, s.stop = vnet.Install(s.handle)
	s.hd = healthd.StartNewHealthD(hps, s.addr, s.stream)
	kit.Wait()
}

func (s *sim) end() { s.stop() }

// get makes an API request as a client of the HTTP server would.
func (s *sim) get(path string) *httptest.ResponseRecorder {
	h := manners.LookupAny(s.addr)
	if h == nil {
		panic("healthd opened no HTTP server on " + s.addr)
	}
	req := httptest.NewRequest("GET", "http://"+s.addr+path, nil)
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	s.c.Count("api_answers", 1)
	return rec
}

func (s *sim) getJSON(path string, v any) bool {
	rec := s.get(path)
	ct := rec.Header().Get("Content-Type")
	if rec.Code != 200 || !kit.IsJSON(ct) {
		s.c.Failf("GET %s: code %d content type %q body %.300q", path, rec.Code, ct, rec.Body.String())
		return false
	}
	dec := json.NewDecoder(bytes.NewReader(rec.Body.Bytes()))
	if err := dec.Decode(v); err != nil {
		s.c.Failf("GET %s: body is not valid JSON: %v: %.300q", path, err, rec.Body.String())
		return false
	}
	if _, err := dec.Token(); err != io.EOF {
		s.c.Failf("GET %s: trailing data after the document", path)
		return false
	}
	var head struct {
		InstanceId       *string `json:"instance_id"`
		IntervalDuration *int64  `json:"interval_duration"`
	}
	if json.Unmarshal(rec.Body.Bytes(), &head) != nil || head.InstanceId == nil || *head.InstanceId != health.Identifier || head.IntervalDuration == nil {
		s.c.Failf("GET %s: this is process %q: %.300q", path, health.Identifier, rec.Body.String())
		return false
	}
	s.mu.Lock()
	last := s.last
	s.mu.Unlock()
	if d := time.Duration(*head.IntervalDuration); d != s.I && (d != 0 || !last.IsZero() && time.Since(last) > 3*time.Second) {
		s.c.Failf("GET %s: interval duration %v, hosts have %v", path, d, s.I)
		return false
	}
	return true
}

type apiAggs struct {
	InstanceId       string           `json:"instance_id"`
	IntervalDuration int64            `json:"interval_duration"`
	Aggregations     []*model.WireAgg `json:"aggregations"`
}

type apiOverall struct {
	InstanceId       string         `json:"instance_id"`
	IntervalDuration int64          `json:"interval_duration"`
	Overall          *model.WireAgg `json:"overall"`
}

type apiJob struct {
	Name                 string  `json:"name"`
	Count                int64   `json:"count"`
	CountSuccess         int64   `json:"count_success"`
	CountValidationError int64   `json:"count_validation_error"`
	CountPanic           int64   `json:"count_panic"`
	CountError           int64   `json:"count_error"`
	CountJunk            int64   `json:"count_junk"`
	NanosSum             int64   `json:"nanos_sum"`
	NanosSumSquares      float64 `json:"nanos_sum_squares"`
	NanosMin             int64   `json:"nanos_min"`
	NanosMax             int64   `json:"nanos_max"`
	NanosAvg             float64 `json:"nanos_avg"`
	NanosStdDev          float64 `json:"nanos_std_dev"`
}

type apiJobs struct {
	InstanceId       string    `json:"instance_id"`
	IntervalDuration int64     `json:"interval_duration"`
	Jobs             []*apiJob `json:"jobs"`
}

type apiHost struct {
	HostPort                string    `json:"host_port"`
	LastCheckTime           time.Time `json:"last_check_time"`
	LastInstanceId          string    `json:"last_instance_id"`
	LastIntervalDuration    int64     `json:"last_interval_duration"`
	LastErr                 string    `json:"last_err"`
	LastNanos               int64     `json:"last_nanos"`
	LastCode                int       `json:"last_code"`
	FirstSuccessfulResponse time.Time `json:"first_successful_response"`
	LastSuccessfulResponse  time.Time `json:"last_successful_response"`
}

type apiHosts struct {
	InstanceId       string     `json:"instance_id"`
	IntervalDuration int64      `json:"interval_duration"`
	Hosts            []*apiHost `json:"hosts"`
}

// instants reported by anyone so far, oldest first, at most the n most recent (n<0: all).
func (s *sim) instants(n int) []int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	var ks []int64
	for k := range s.got {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	if n >= 0 && len(ks) > n {
		ks = ks[len(ks)-n:]
	}
	return ks
}

// want is the combination over hosts and instances of what was last delivered for the instant,
// with the gauge values any of them reported.
func (s *sim) want(k int64) (*model.Agg, func(job, key string, v float64) bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := model.New(time.Unix(0, k))
	var parts []*model.Agg
	for _, a := range s.got[k] {
		m.Merge(a)
		parts = append(parts, a)
	}
	return m, func(job, key string, v float64) bool {
		for _, a := range parts {
			if job == model.Total {
				if x, ok := a.Gauges[key]; ok && x == v {
					return true
				}
			} else if j := a.Jobs[job]; j != nil {
				if x, ok := j.Gauges[key]; ok && x == v {
					return true
				}
			}
		}
		return false
	}
}

func (s *sim) maxIntervals() int { return int(2 * time.Hour / s.I) }

// checkSeries compares the served series with the model; everything delivered must have settled.
func (s *sim) checkSeries(when string) bool {
	var got apiAggs
	if !s.getJSON("/healthd/aggregations", &got) {
		return false
	}
	ks := s.instants(s.maxIntervals())
	var gs []int64
	for _, a := range got.Aggregations {
		gs = append(gs, a.IntervalStart.UnixNano())
	}
	if fmt.Sprint(gs) != fmt.Sprint(ks) {
		s.c.Failf("%s: series has intervals %s, reported were (most recent %d) %s", when, ts(gs), s.maxIntervals(), ts(ks))
		return false
	}
	for i, k := range ks {
		want, gok := s.want(k)
		if d := want.Diff(got.Aggregations[i].Agg().Real(), model.Opts{GaugeOK: gok}); d != "" {
			s.c.Failf("%s: interval %s: %s", when, time.Unix(0, k).UTC().Format("15:04:05"), d)
			return false
		}
		s.c.Count("intervals_compared", 1)
	}
	if len(ks) > 0 && got.IntervalDuration != int64(s.I) {
		s.c.Failf("%s: interval duration served is %d, hosts report %d", when, got.IntervalDuration, s.I)
		return false
	}
	s.c.Max("series_length", len(ks))
	return true
}

func ts(ks []int64) string {
	var b strings.Builder
	for i, k := range ks {
		if i > 12 {
			fmt.Fprintf(&b, " ...(%d)", len(ks))
			break
		}
		b.WriteString(" " + time.Unix(0, k).UTC().Format("02T15:04:05.999"))
	}
	return "[" + b.String() + " ]"
}

var intervals = []time.Duration{time.Second, 2 * time.Second, 5 * time.Second, 10 * time.Second, 15 * time.Second, 30 * time.Second, time.Minute, time.Minute, time.Minute, 90 * time.Second, 7 * time.Minute, 50 * time.Minute, 2 * time.Hour}

func genEm(g *rand.Rand) model.Em {
	e := model.Gen(g, func(g *rand.Rand) string { return model.JSONName(kit.Name(g)) })
	return e
}

// hostName makes distinct host:port names that do not sort by creation.
func hostName(g *rand.Rand, i int) string {
	switch g.IntN(3) {
	case 0:
		// some are prefixes of others, and numbers do not sort as text does
		return fmt.Sprintf("web%d%s:80", i, []string{"", "", "x", ".eu", "-b"}[g.IntN(5)])
	case 1:
		return fmt.Sprintf("10.0.%d.%d:%d", g.IntN(300), i, 80+g.IntN(10000))
	}
	return fmt.Sprintf("%c%c-web%d.example:%d", 'a'+rune(g.IntN(26)), 'a'+rune(g.IntN(26)), i, 5000+g.IntN(100))
}

// at sleeps until the given offset from the start of the bubble's healthd.
func sleepUntil(t time.Time) {
	if d := time.Until(t); d > 0 {
		time.Sleep(d)
	}
	kit.Wait()
}
