package core

import (
	"fmt"
	"math/rand/v2"
	"sync"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

// entry is what a sink observed for one delivery.
type entry struct {
	model.Em
	emitted bool // for unmuted errors: the reported flag at delivery
}

// rec is a sink that records every delivery, copying the key/values at that moment.
type rec struct {
	mu  sync.Mutex
	log []entry
	raw []map[string]string
}

func (r *rec) add(e entry, kvs map[string]string) {
	e.Kvs = kit.CopyMap(kvs)
	r.mu.Lock()
	r.log = append(r.log, e)
	r.mu.Unlock()
}

func (r *rec) EmitEvent(job, event string, kvs map[string]string) {
	r.add(entry{Em: model.Em{Kind: model.Event, Job: job, Event: event}}, kvs)
}
func (r *rec) EmitEventErr(job, event string, err error, kvs map[string]string) {
	e := entry{Em: model.Em{Kind: model.EventErr, Job: job, Event: event, Err: err}}
	if u, ok := err.(*health.UnmutedError); ok {
		e.emitted = u.Emitted
	}
	r.add(e, kvs)
}
func (r *rec) EmitTiming(job, event string, n int64, kvs map[string]string) {
	r.add(entry{Em: model.Em{Kind: model.Timing, Job: job, Event: event, Nanos: n}}, kvs)
}
func (r *rec) EmitGauge(job, event string, v float64, kvs map[string]string) {
	r.add(entry{Em: model.Em{Kind: model.Gauge, Job: job, Event: event, Value: v}}, kvs)
}
func (r *rec) EmitComplete(job string, st health.CompletionStatus, n int64, kvs map[string]string) {
	r.add(entry{Em: model.Em{Kind: model.Complete, Job: job, Status: st, Nanos: n}}, kvs)
}

func (r *rec) take() []entry {
	r.mu.Lock()
	defer r.mu.Unlock()
	l := r.log
	r.log = nil
	return l
}

func (r *rec) snapshot() []entry {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]entry(nil), r.log...)
}

// receiver is the emitting side common to streams and jobs.
type receiver interface {
	health.EventReceiver
	Complete(health.CompletionStatus)
	CompleteKv(health.CompletionStatus, map[string]string)
}

// emitThrough makes the emission through a stream or job; kv selects the Kv form.
// It returns the error EventErr gave back.
func emitThrough(r receiver, e model.Em, kv bool) error {
	switch e.Kind {
	case model.Event:
		if kv {
			r.EventKv(e.Event, e.Kvs)
		} else {
			r.Event(e.Event)
		}
	case model.EventErr:
		if kv {
			return r.EventErrKv(e.Event, e.Err, e.Kvs)
		}
		return r.EventErr(e.Event, e.Err)
	case model.Timing:
		if kv {
			r.TimingKv(e.Event, e.Nanos, e.Kvs)
		} else {
			r.Timing(e.Event, e.Nanos)
		}
	case model.Gauge:
		if kv {
			r.GaugeKv(e.Event, e.Value, e.Kvs)
		} else {
			r.Gauge(e.Event, e.Value)
		}
	case model.Complete:
		if kv {
			r.CompleteKv(e.Status, e.Kvs)
		} else {
			r.Complete(e.Status)
		}
	}
	return nil
}

// sameDelivery compares an expected emission with a delivery, apart from key/values
// (and from the elapsed time of completions, which is not chosen by the caller).
func sameDelivery(w model.Em, g entry) string {
	if w.Kind != g.Kind || w.Job != g.Job || (w.Kind != model.Complete && w.Event != g.Event) {
		return fmt.Sprintf("want %v, got %v", w, g.Em)
	}
	switch w.Kind {
	case model.EventErr:
		if g.Err == nil || g.Err.Error() != w.Err.Error() {
			return fmt.Sprintf("want error %v, got %v", w.Err, g.Err)
		}
	case model.Timing:
		if w.Nanos != g.Nanos {
			return fmt.Sprintf("want %v, got %v", w, g.Em)
		}
	case model.Gauge:
		if !kit.SameFloat(w.Value, g.Value) {
			return fmt.Sprintf("want %v, got %v", w, g.Em)
		}
	case model.Complete:
		if w.Status != g.Status || g.Nanos < 0 {
			return fmt.Sprintf("want %v, got %v", w, g.Em)
		}
	}
	return ""
}

// genErr makes error values of several dynamic types.
func genErr(g *rand.Rand, id int) error {
	switch g.IntN(5) {
	case 0:
		return valErr{fmt.Sprintf("v%d %s", id, kit.Name(g))}
	case 1:
		return &ptrErr{fmt.Sprintf("p%d", id)}
	case 2:
		return fmt.Errorf("wrap%d: %w", id, &ptrErr{"inner"})
	case 3:
		return strErr(fmt.Sprintf("s%d%%d", id))
	default:
		return fmt.Errorf("err%d", id)
	}
}

type valErr struct{ s string }

func (e valErr) Error() string { return e.s }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

type strErr string

func (e strErr) Error() string { return string(e) }
