// Package model is the sequential reference model of an aggregation: a plain fold
// over emissions, written from the documentation rather than from the code.
package model

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"time"

	"example.com/verif/kit"
	"github.com/gocraft/health"
)

type Kind int

const (
	Event Kind = iota
	EventErr
	Timing
	Gauge
	Complete
	NKinds
)

func (k Kind) String() string {
	return [...]string{"event", "err", "timing", "gauge", "complete"}[k]
}

// Em is one emission.
type Em struct {
	Kind   Kind
	Job    string
	Event  string
	Err    error
	Nanos  int64
	Value  float64
	Status health.CompletionStatus
	Kvs    map[string]string
}

func (e Em) String() string {
	switch e.Kind {
	case EventErr:
		return fmt.Sprintf("err(%q,%q,%v)", e.Job, e.Event, e.Err)
	case Timing:
		return fmt.Sprintf("timing(%q,%q,%d)", e.Job, e.Event, e.Nanos)
	case Gauge:
		return fmt.Sprintf("gauge(%q,%q,%g)", e.Job, e.Event, e.Value)
	case Complete:
		return fmt.Sprintf("complete(%q,%v,%d)", e.Job, e.Status, e.Nanos)
	}
	return fmt.Sprintf("event(%q,%q)", e.Job, e.Event)
}

// To sends the emission to a sink.
func (e Em) To(s health.Sink) {
	switch e.Kind {
	case Event:
		s.EmitEvent(e.Job, e.Event, e.Kvs)
	case EventErr:
		s.EmitEventErr(e.Job, e.Event, e.Err, e.Kvs)
	case Timing:
		s.EmitTiming(e.Job, e.Event, e.Nanos, e.Kvs)
	case Gauge:
		s.EmitGauge(e.Job, e.Event, e.Value, e.Kvs)
	case Complete:
		s.EmitComplete(e.Job, e.Status, e.Nanos, e.Kvs)
	}
}

// Gen makes a random emission.
func Gen(g *rand.Rand, name func(*rand.Rand) string) Em {
	e := Em{Kind: Kind(g.IntN(int(NKinds))), Job: name(g), Event: name(g)}
	switch e.Kind {
	case EventErr:
		e.Err = fmt.Errorf("err%d", g.IntN(4))
	case Timing:
		e.Nanos = kit.Nanos(g)
	case Gauge:
		e.Value = kit.Value(g)
	case Complete:
		e.Nanos = kit.Nanos(g)
		e.Status = health.CompletionStatus(g.IntN(5))
	}
	return e
}

type Timer struct {
	Count, Sum int64
	SumSq      float64
	Min, Max   int64
}

func (t *Timer) Add(n int64) {
	if t.Count == 0 || n < t.Min {
		t.Min = n
	}
	if t.Count == 0 || n > t.Max {
		t.Max = n
	}
	t.Count++
	t.Sum += n
	t.SumSq += float64(n) * float64(n)
}

func (t *Timer) Merge(o *Timer) {
	if o.Count == 0 {
		return
	}
	if t.Count == 0 || o.Min < t.Min {
		t.Min = o.Min
	}
	if t.Count == 0 || o.Max > t.Max {
		t.Max = o.Max
	}
	t.Count += o.Count
	t.Sum += o.Sum
	t.SumSq += o.SumSq
}

type Maps struct {
	Events map[string]int64
	Errs   map[string]int64
	Timers map[string]*Timer
	Gauges map[string]float64
}

func newMaps() Maps {
	return Maps{map[string]int64{}, map[string]int64{}, map[string]*Timer{}, map[string]float64{}}
}

type Job struct {
	Maps
	Timer
	Status [5]int64
}

type Agg struct {
	Start  time.Time
	Serial int64
	Jobs   map[string]*Job
	Maps
}

func New(start time.Time) *Agg {
	return &Agg{Start: start, Jobs: map[string]*Job{}, Maps: newMaps()}
}

func (m *Maps) apply(e Em) {
	switch e.Kind {
	case Event:
		m.Events[e.Event]++
	case EventErr:
		m.Errs[e.Event]++
	case Timing:
		t := m.Timers[e.Event]
		if t == nil {
			t = &Timer{}
			m.Timers[e.Event] = t
		}
		t.Add(e.Nanos)
	case Gauge:
		m.Gauges[e.Event] = e.Value
	}
}

func (a *Agg) Apply(e Em) {
	j := a.Jobs[e.Job]
	if j == nil {
		j = &Job{Maps: newMaps()}
		a.Jobs[e.Job] = j
	}
	if e.Kind == Complete {
		j.Timer.Add(e.Nanos)
		j.Status[e.Status]++
	} else {
		a.Maps.apply(e)
		j.Maps.apply(e)
	}
	a.Serial++
}

func (m *Maps) merge(o *Maps) {
	for k, v := range o.Events {
		m.Events[k] += v
	}
	for k, v := range o.Errs {
		m.Errs[k] += v
	}
	for k, v := range o.Gauges {
		m.Gauges[k] = v
	}
	for k, v := range o.Timers {
		if m.Timers[k] == nil {
			m.Timers[k] = &Timer{}
		}
		m.Timers[k].Merge(v)
	}
}

// Merge folds o into a (o is not modified).
func (a *Agg) Merge(o *Agg) {
	a.Maps.merge(&o.Maps)
	for k, v := range o.Jobs {
		j := a.Jobs[k]
		if j == nil {
			j = &Job{Maps: newMaps()}
			a.Jobs[k] = j
		}
		j.Maps.merge(&v.Maps)
		j.Timer.Merge(&v.Timer)
		for i := range j.Status {
			j.Status[i] += v.Status[i]
		}
	}
}

// Total stands for the totals where a job name is expected.
const Total = "\x00total"

type Opts struct {
	Serial   bool                                         // compare serial numbers
	NoStart  bool                                         // ignore the interval start
	GaugeOK  func(job string, key string, v float64) bool // instead of equality (job Total for the totals)
	NoGauges bool
}

func diffTimer(where string, w *Timer, c, s int64, sq float64, mn, mx int64) string {
	if w.Count != c || w.Sum != s || !kit.Near(w.SumSq, sq) {
		return fmt.Sprintf("%s: want count=%d sum=%d sumsq=%g, got count=%d sum=%d sumsq=%g", where, w.Count, w.Sum, w.SumSq, c, s, sq)
	}
	if w.Count > 0 && (w.Min != mn || w.Max != mx) {
		return fmt.Sprintf("%s: want min=%d max=%d, got min=%d max=%d", where, w.Min, w.Max, mn, mx)
	}
	return ""
}

// NormAgg returns the model with all names passed through f (merging colliding ones in an arbitrary order).
func (a *Agg) Renamed(f func(string) string) *Agg {
	n := New(a.Start)
	n.Serial = a.Serial
	ren := func(dst, src *Maps) {
		t := newMaps()
		for k, v := range src.Events {
			t.Events[f(k)] += v
		}
		for k, v := range src.Errs {
			t.Errs[f(k)] += v
		}
		for k, v := range src.Gauges {
			t.Gauges[f(k)] = v
		}
		for k, v := range src.Timers {
			if t.Timers[f(k)] == nil {
				t.Timers[f(k)] = &Timer{}
			}
			t.Timers[f(k)].Merge(v)
		}
		*dst = t
	}
	ren(&n.Maps, &a.Maps)
	for k, v := range a.Jobs {
		j := &Job{Timer: v.Timer, Status: v.Status}
		ren(&j.Maps, &v.Maps)
		n.Jobs[f(k)] = j
	}
	return n
}

func diffMaps(where, job string, w *Maps, ev map[string]int64, er map[string]*health.ErrorCounter, ti map[string]*health.TimerAggregation, ga map[string]float64, o Opts) string {
	if len(w.Events) != len(ev) {
		return fmt.Sprintf("%s: want events %v, got %v", where, w.Events, ev)
	}
	for k, v := range w.Events {
		if got, ok := ev[k]; !ok || got != v {
			return fmt.Sprintf("%s: event %q: want %d, got %d (present %v)", where, k, v, got, ok)
		}
	}
	if len(w.Errs) != len(er) {
		return fmt.Sprintf("%s: want %d error keys %v, got %d", where, len(w.Errs), w.Errs, len(er))
	}
	for k, v := range w.Errs {
		if got := er[k]; got == nil || got.Count != v {
			return fmt.Sprintf("%s: error %q: want %d, got %+v", where, k, v, got)
		}
	}
	if len(w.Timers) != len(ti) {
		return fmt.Sprintf("%s: want %d timers, got %d", where, len(w.Timers), len(ti))
	}
	for k, v := range w.Timers {
		got := ti[k]
		if got == nil {
			return fmt.Sprintf("%s: timer %q missing", where, k)
		}
		if d := diffTimer(fmt.Sprintf("%s: timer %q", where, k), v, got.Count, got.NanosSum, got.NanosSumSquares, got.NanosMin, got.NanosMax); d != "" {
			return d
		}
	}
	if o.NoGauges {
		return ""
	}
	if len(w.Gauges) != len(ga) {
		return fmt.Sprintf("%s: want gauges %v, got %v", where, w.Gauges, ga)
	}
	for k, v := range w.Gauges {
		got, ok := ga[k]
		if !ok {
			return fmt.Sprintf("%s: gauge %q missing", where, k)
		}
		if o.GaugeOK != nil {
			if !o.GaugeOK(job, k, got) {
				return fmt.Sprintf("%s: gauge %q: %v is not an acceptable value", where, k, got)
			}
		} else if !kit.SameFloat(got, v) {
			return fmt.Sprintf("%s: gauge %q: want %v, got %v", where, k, v, got)
		}
	}
	return ""
}

// Diff compares the model with what the system reported; "" means equal.
func (a *Agg) Diff(g *health.IntervalAggregation, o Opts) string {
	if g == nil {
		return "aggregation missing (nil)"
	}
	if !o.NoStart && !a.Start.Equal(g.IntervalStart) {
		return fmt.Sprintf("interval start: want %v, got %v", a.Start, g.IntervalStart)
	}
	if o.Serial && a.Serial != g.SerialNumber {
		return fmt.Sprintf("serial number: want %d, got %d", a.Serial, g.SerialNumber)
	}
	if d := diffMaps("total", Total, &a.Maps, g.Events, g.EventErrs, g.Timers, g.Gauges, o); d != "" {
		return d
	}
	if len(a.Jobs) != len(g.Jobs) {
		return fmt.Sprintf("want %d jobs %v, got %d", len(a.Jobs), a.JobNames(), len(g.Jobs))
	}
	for k, w := range a.Jobs {
		j := g.Jobs[k]
		if j == nil {
			return fmt.Sprintf("job %q missing", k)
		}
		where := fmt.Sprintf("job %q", k)
		if d := diffMaps(where, k, &w.Maps, j.Events, j.EventErrs, j.Timers, j.Gauges, o); d != "" {
			return d
		}
		if d := diffTimer(where+" completions", &w.Timer, j.Count, j.NanosSum, j.NanosSumSquares, j.NanosMin, j.NanosMax); d != "" {
			return d
		}
		got := [5]int64{}
		got[health.Success], got[health.ValidationError], got[health.Panic], got[health.Error], got[health.Junk] = j.CountSuccess, j.CountValidationError, j.CountPanic, j.CountError, j.CountJunk
		if got != w.Status {
			return fmt.Sprintf("%s: statuses want %v, got %v", where, w.Status, got)
		}
	}
	return ""
}

func (a *Agg) JobNames() []string {
	var s []string
	for k := range a.Jobs {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// FromReal reads a reported aggregation into the model's form.
func FromReal(g *health.IntervalAggregation) *Agg {
	a := New(g.IntervalStart)
	a.Serial = g.SerialNumber
	cv := func(m *Maps, ev map[string]int64, er map[string]*health.ErrorCounter, ti map[string]*health.TimerAggregation, ga map[string]float64) {
		for k, v := range ev {
			m.Events[k] = v
		}
		for k, v := range er {
			m.Errs[k] = v.Count
		}
		for k, v := range ga {
			m.Gauges[k] = v
		}
		for k, v := range ti {
			m.Timers[k] = &Timer{v.Count, v.NanosSum, v.NanosSumSquares, v.NanosMin, v.NanosMax}
		}
	}
	cv(&a.Maps, g.Events, g.EventErrs, g.Timers, g.Gauges)
	for k, j := range g.Jobs {
		n := &Job{Maps: newMaps(), Timer: Timer{j.Count, j.NanosSum, j.NanosSumSquares, j.NanosMin, j.NanosMax}}
		n.Status[health.Success], n.Status[health.ValidationError], n.Status[health.Panic], n.Status[health.Error], n.Status[health.Junk] = j.CountSuccess, j.CountValidationError, j.CountPanic, j.CountError, j.CountJunk
		cv(&n.Maps, j.Events, j.EventErrs, j.Timers, j.Gauges)
		a.Jobs[k] = n
	}
	return a
}

// Dump is a canonical text of a reported aggregation, for equality over time.
func Dump(g *health.IntervalAggregation) string {
	var b strings.Builder
	a := FromReal(g)
	fmt.Fprintf(&b, "%s serial=%d ", a.Start.UTC().Format(time.RFC3339Nano), a.Serial)
	dm := func(m *Maps) {
		fmt.Fprintf(&b, "ev=%q er=%q ga=%q ti={", m.Events, m.Errs, fmt.Sprint(m.Gauges))
		var ks []string
		for k := range m.Timers {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, "%q:%+v ", k, *m.Timers[k])
		}
		b.WriteString("}\n")
	}
	dm(&a.Maps)
	for _, k := range a.JobNames() {
		j := a.Jobs[k]
		fmt.Fprintf(&b, "job %q %+v %v ", k, j.Timer, j.Status)
		dm(&j.Maps)
	}
	return b.String()
}
