package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

// chunks records each Write call; it can fail or write short.
type chunks struct {
	mu     sync.Mutex
	out    []string
	at     []time.Time
	faulty func(n int) (int, error) // nil: fine
	slow   func() time.Duration     // nil: at once
	torn   string                   // what was handed to Write and what it had become by the time it was written, if that differs
}

func (w *chunks) Write(p []byte) (int, error) {
	if w.slow != nil {
		before := string(p)
		time.Sleep(w.slow())
		if string(p) != before {
			w.mu.Lock()
			w.torn = fmt.Sprintf("%q became %q", before, p)
			w.mu.Unlock()
			p = []byte(before)
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.out = append(w.out, string(p))
	w.at = append(w.at, time.Now())
	if w.faulty != nil {
		return w.faulty(len(p))
	}
	return len(p), nil
}

func (w *chunks) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	o := w.out
	w.out, w.at = nil, nil
	return o
}

func faulty(g *rand.Rand) func(int) (int, error) {
	failure := []error{errors.New("disk full"), io.ErrShortWrite, io.ErrClosedPipe, os.ErrClosed, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR, syscall.EPIPE, syscall.ENOSPC,
		&os.PathError{Op: "write", Path: "log", Err: syscall.ENOSPC}, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EAGAIN)}}[g.IntN(11)]
	switch g.IntN(4) {
	case 0:
		return func(int) (int, error) { return 0, failure }
	case 1:
		return func(n int) (int, error) { return n / 2, failure }
	case 2:
		return func(n int) (int, error) { return n / 2, nil }
	}
	return nil
}

// elsewhere runs f with a local time zone that is not UTC.
func elsewhere(g *rand.Rand, f func()) {
	old := time.Local
	time.Local = time.FixedZone("elsewhere", []int{0, 19800, -34200, 50400}[g.IntN(4)])
	defer func() { time.Local = old }()
	f()
}

func nanosText(n int64) string {
	switch {
	case n > 2000000:
		return strconv.FormatInt(n/1000000, 10) + " ms"
	case n > 2000:
		return strconv.FormatInt(n/1000, 10) + " μs"
	}
	return strconv.FormatInt(n, 10) + " ns"
}

func kvsText(kvs map[string]string) string {
	var ks []string
	for k := range kvs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = k + ":" + kvs[k]
	}
	return " kvs:[" + strings.Join(ks, " ") + "]"
}

func okStamp(s string, now time.Time) string {
	ts, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		return fmt.Sprintf("%q is not an RFC 3339 time", s)
	}
	if !strings.HasSuffix(s, "Z") && !strings.HasSuffix(s, "+00:00") {
		return fmt.Sprintf("time %q is not in UTC", s)
	}
	if ts.After(now) || !ts.After(now.Add(-time.Second)) {
		return fmt.Sprintf("time %q is not the current time %v", s, now.UTC())
	}
	return ""
}

// checkLine compares one written line with the emission.
func checkLine(e model.Em, line string, now time.Time) string {
	if !strings.HasSuffix(line, "\n") {
		return fmt.Sprintf("%v: no newline at the end of %q", e, line)
	}
	body := strings.TrimSuffix(line, "\n")
	if !strings.HasPrefix(body, "[") || !strings.Contains(body, "]: ") {
		return fmt.Sprintf("%v: bad form %q", e, line)
	}
	i := strings.Index(body, "]: ")
	if b := okStamp(body[1:i], now); b != "" {
		return b
	}
	body = body[i+3:]
	pre := "job:" + e.Job
	if e.Kind == model.Complete {
		pre += " status:" + statusNames[e.Status]
	} else {
		pre += " event:" + e.Event
	}
	switch e.Kind {
	case model.EventErr:
		pre += " err:" + e.Err.Error()
	case model.Timing, model.Complete:
		pre += " time:" + nanosText(e.Nanos)
	case model.Gauge:
		pre += " gauge:"
	}
	sufs := []string{kvsText(e.Kvs)}
	if len(e.Kvs) == 0 {
		sufs = []string{" kvs:[]", ""}
	}
	for _, suf := range sufs {
		if e.Kind != model.Gauge {
			if body == pre+suf {
				return ""
			}
			continue
		}
		if strings.HasPrefix(body, pre) && strings.HasSuffix(body, suf) && len(body) > len(pre)+len(suf) {
			v, err := strconv.ParseFloat(body[len(pre):len(body)-len(suf)], 64)
			if err == nil && kit.SameFloat(v, e.Value) {
				return ""
			}
		}
	}
	return fmt.Sprintf("%v kvs %q: wrote %q, want %q + %q", e, e.Kvs, body, pre, sufs[0])
}

var statusNames = map[health.CompletionStatus]string{health.Success: "success", health.ValidationError: "validation_error", health.Panic: "panic", health.Error: "error", health.Junk: "junk"}

func genWritten(g *rand.Rand) model.Em {
	e := model.Gen(g, kit.Name)
	e.Kvs = kit.Kvs(g, kit.Name)
	if e.Kind == model.EventErr {
		e.Err = genErr(g, g.IntN(5))
		switch g.IntN(4) {
		case 0:
			e.Err = health.Mute(e.Err)
		case 1:
			e.Err = errors.New(kit.RandString(g, g.IntN(60)))
		}
	}
	if g.IntN(20) == 0 {
		e.Event = kit.RandString(g, g.IntN(9000))
	}
	if g.IntN(40) == 0 {
		e.Job = kit.RandString(g, longLen(g))
	}
	if e.Kind == model.EventErr && g.IntN(8) == 0 {
		e.Err = errors.New(kit.RandString(g, longLen(g)))
	}
	if e.Kind == model.EventErr && g.IntN(6) == 0 {
		e.Err = errors.New(kit.RandString(g, g.IntN(20)) + []string{"\n", "\r\n", "\n\n", " ", "\t", "]", ": "}[g.IntN(7)])
	}
	if len(e.Kvs) > 0 && g.IntN(20) == 0 {
		e.Kvs[kit.Name(g)] = kit.RandString(g, longLen(g))
	}
	if len(e.Kvs) > 0 && g.IntN(20) == 0 {
		e.Kvs[kit.RandString(g, longLen(g))] = kit.Name(g)
	}
	if g.IntN(8) == 0 {
		e.Nanos = []int64{math.MaxInt64, math.MinInt64, 1<<53 + 1, 1<<53 - 1, -(1<<53 + 1), 1<<62 + 12345, 2000000, 2000001, 2000, 2001, -2001, -2000001, 999, 1e9, 60e9, 3600e9}[g.IntN(16)]
	}
	if g.IntN(8) == 0 {
		e.Value = []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e20, 1e21, 1e22, -1e21, 1e-6, 1e-7, -1e-7, 1 << 53, 1<<53 + 2, 0.1, 1.0 / 3, math.Copysign(0, -1), 123456789.125}[g.IntN(16)]
	}
	return e
}

// longLen is around the sizes of buffers.
func longLen(g *rand.Rand) int {
	if g.IntN(3) == 0 {
		return g.IntN(9000)
	}
	return 1<<(8+g.IntN(9)) - 4 + g.IntN(8)
}

func specials(g *rand.Rand) float64 {
	return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[g.IntN(3)]
}

func TestC15(t *testing.T) {
	kit.Run(t, "C15", func(r *kit.Rep) {
		writerMonitor(r, func(w *chunks) health.Sink { return &health.WriterSink{Writer: w} }, checkLine,
			func(e *model.Em, g *rand.Rand) {
				if e.Kind == model.Gauge && g.IntN(10) == 0 {
					e.Value = specials(g)
				}
			}, nil)
	})
}

// jobOf reads the job's name out of a line or an object.
func jobOf(text string) string {
	if strings.HasPrefix(text, "[") {
		_, rest, _ := strings.Cut(text, "]: job:")
		return rest[:min(len(rest), 40)]
	}
	var v struct{ Job string }
	json.Unmarshal([]byte(text), &v)
	return v.Job
}

func writerMonitor(r *kit.Rep, mk func(*chunks) health.Sink, check func(model.Em, string, time.Time) string, tweak func(*model.Em, *rand.Rand), stream func(*kit.Case, []string)) {
	r.Cases("sequential", r.Pick(12000, 300000), func(c *kit.Case) {
		g := c.Rng
		elsewhere(g, func() {
			c.Bubble(100*time.Hour, func() {
				w := &chunks{faulty: faulty(g)}
				sink := mk(w)
				for i, last := 0, 1+g.IntN(25); i < last; i++ {
					e := genWritten(g)
					tweak(&e, g)
					c.Tracef("%v %q", e, e.Kvs)
					if g.IntN(3) == 0 {
						time.Sleep(time.Duration(g.Int64N(3e9)))
					}
					before := kit.CopyMap(e.Kvs)
					if e.Kind == model.Complete || g.IntN(2) == 0 {
						e.To(sink)
					} else {
						s := health.NewStream().AddSink(sink)
						j := s.NewJob(e.Job)
						emitThrough(j, e, true)
					}
					out := w.take()
					if len(out) != 1 {
						c.Failf("%v: %d writes: %q", e, len(out), out)
						return
					}
					if b := check(e, out[0], time.Now()); b != "" {
						c.Failf("%s", b)
						return
					}
					if !kit.EqMap(before, e.Kvs) {
						c.Failf("%v: the caller's key/values changed from %q to %q", e, before, e.Kvs)
						return
					}
					c.Count("writes_checked", 1)
					// the same input at the same time gives the same text
					if g.IntN(4) == 0 {
						e.Kvs = shuffled(g, e.Kvs)
						e.To(sink)
						again := w.take()
						if len(again) != 1 || (again[0] != out[0] && !(len(e.Kvs) == 0)) {
							c.Failf("%v: wrote %q, the same emission again wrote %q", e, out[0], again)
							return
						}
						c.Count("repeats_compared", 1)
					}
				}
			})
		})
	})
	r.Cases("concurrent", r.Pick(450, 8000), func(c *kit.Case) {
		g := c.Rng
		ng := 2 + g.IntN(7)
		plans := make([][]model.Em, ng)
		for i := range plans {
			for k, last := 0, 10+g.IntN(60); k < last; k++ {
				e := genWritten(g)
				if e.Kind == model.Gauge && g.IntN(2) == 0 {
					e.Value = float64(k)
				}
				e.Job = fmt.Sprintf("g%d.%d;", i, k)
				plans[i] = append(plans[i], e)
			}
		}
		c.Tracef("goroutines=%d %v", ng, plans[0][0])
		c.Bubble(time.Hour, func() {
			w := &chunks{}
			if c.N%2 == 0 {
				// writes take time, and overlap
				w.slow = func() time.Duration { return time.Duration(rand.IntN(50)) * time.Microsecond }
			}
			sink := mk(w)
			s := health.NewStream().AddSink(sink)
			var wg sync.WaitGroup
			for i := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k, e := range plans[i] {
						if e.Kind == model.Complete || k%2 == 0 {
							e.To(sink)
						} else {
							emitThrough(s.NewJob(e.Job), e, true)
						}
					}
				}()
			}
			wg.Wait()
			now := time.Now()
			if w.torn != "" {
				c.Failf("changed while it was being written: %s", w.torn)
				return
			}
			out := w.take()
			next := make([]int, ng)
			switches, last := 0, -1
			for _, o := range out {
				i, k := -1, -1
				if n, _ := fmt.Sscanf(jobOf(o), "g%d.%d;", &i, &k); n != 2 {
					i = -1
				}
				if i < 0 || i >= ng || k != next[i] || k >= len(plans[i]) {
					c.Failf("write %q does not continue any goroutine's sequence (at %v)", o, next)
					return
				}
				if b := check(plans[i][k], o, now); b != "" {
					c.Failf("%s", b)
					return
				}
				next[i]++
				if i != last {
					switches++
					last = i
				}
			}
			for i := range plans {
				if next[i] != len(plans[i]) {
					c.Failf("goroutine %d made %d emissions, %d were written", i, len(plans[i]), next[i])
					return
				}
			}
			c.Count("writes_checked", len(out))
			c.Count("goroutine_switches_observed", switches)
			if stream != nil {
				stream(c, out)
			}
		})
	})
}

// shuffled rebuilds the map, inserting in another order.
func shuffled(g *rand.Rand, m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	d := map[string]string{}
	for _, k := range ks {
		d[k] = m[k]
	}
	return d
}

// checkObject compares one written JSON object with the emission.
func checkObject(e model.Em, text string, now time.Time) string {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var m map[string]any
	if err := dec.Decode(&m); err != nil || m == nil {
		return fmt.Sprintf("%v: wrote %q, not a JSON object (%v)", e, text, err)
	}
	if dec.More() {
		return fmt.Sprintf("%v: wrote more than one value: %q", e, text)
	}
	if !json.Valid([]byte(text)) {
		return fmt.Sprintf("%v: invalid JSON %q", e, text)
	}
	str := func(k, want string) string {
		if got, ok := m[k].(string); !ok || got != model.JSONName(want) {
			return fmt.Sprintf("%v: %s is %q, want %q (wrote %q)", e, k, m[k], want, text)
		}
		return ""
	}
	bad := str("Job", e.Job)
	if bad == "" {
		if e.Kind == model.Complete {
			bad = str("Status", statusNames[e.Status])
		} else {
			bad = str("Event", e.Event)
		}
	}
	if bad != "" {
		return bad
	}
	ts, _ := m["Timestamp"].(string)
	if b := okStamp(ts, now); b != "" {
		return b
	}
	switch e.Kind {
	case model.EventErr:
		bad = str("Err", e.Err.Error())
	case model.Timing, model.Complete:
		if n, ok := m["Nanoseconds"].(json.Number); !ok || n.String() != strconv.FormatInt(e.Nanos, 10) {
			bad = fmt.Sprintf("%v: Nanoseconds is %v", e, m["Nanoseconds"])
		}
	case model.Gauge:
		n, ok := m["Value"].(json.Number)
		v, err := strconv.ParseFloat(n.String(), 64)
		if !ok || err != nil || v != e.Value {
			bad = fmt.Sprintf("%v: Value is %v", e, m["Value"])
		}
	}
	if bad != "" {
		return bad
	}
	want := map[string]string{}
	for k, v := range e.Kvs {
		want[model.JSONName(k)] = model.JSONName(v)
	}
	got := map[string]string{}
	if kv, ok := m["Kvs"].(map[string]any); ok {
		for k, v := range kv {
			s, ok := v.(string)
			if !ok {
				return fmt.Sprintf("%v: key/value %q is %v", e, k, v)
			}
			got[k] = s
		}
	}
	if len(want) == len(e.Kvs) && !kit.EqMap(want, got) {
		return fmt.Sprintf("%v: key/values %q, want %q", e, got, want)
	}
	return ""
}

func TestC16(t *testing.T) {
	kit.Run(t, "C16", func(r *kit.Rep) {
		mk := func(w *chunks) health.Sink { return &health.JsonWriterSink{Writer: w} }
		writerMonitor(r, mk, checkObject, func(*model.Em, *rand.Rand) {}, func(c *kit.Case, out []string) {
			dec := json.NewDecoder(strings.NewReader(strings.Join(out, "")))
			n := 0
			for dec.More() {
				var v map[string]any
				if err := dec.Decode(&v); err != nil {
					c.Failf("the output as a whole is not a decodable stream: %v after %d objects", err, n)
					return
				}
				n++
			}
			if n != len(out) {
				c.Failf("the output as a whole decodes to %d objects, %d were written", n, len(out))
			}
			c.Count("streams_decoded", 1)
		})
		r.Cases("nonfinite", 6, func(c *kit.Case) {
			w := &chunks{}
			sink := mk(w)
			v := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[c.N%3]
			c.Tracef("gauge %v", v)
			sink.EmitGauge("j", "before", 1, nil)
			sink.EmitGauge("j", "g", v, nil)
			sink.EmitGauge("j", "after", 2, nil)
			out := w.take()
			var named []string
			for _, o := range out {
				if !json.Valid([]byte(o)) {
					c.Failf("gauge %v: invalid JSON %q", v, o)
					return
				}
				var m map[string]any
				json.Unmarshal([]byte(o), &m)
				named = append(named, fmt.Sprint(m["Event"]))
			}
			switch fmt.Sprint(named) {
			case "[before g after]":
				if !bytes.Contains([]byte(out[1]), []byte("Value")) {
					c.Failf("gauge %v: object without a value: %q", v, out[1])
				}
			case "[before after]":
				c.Finding("nonfinite-gauge", "a gauge of NaN or an infinity is not written (JSON has no such numbers)")
			default:
				c.Failf("gauge %v between two others: wrote %q", v, out)
			}
			c.Count("nonfinite_gauges", 1)
		})
	})
}
