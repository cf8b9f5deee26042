package model

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/gocraft/health"
)

// The JSON form of an aggregation, spelled out here so that decoding does not depend
// on the tags of the code under test.
type WireTimer struct {
	Count           int64   `json:"count"`
	NanosSum        int64   `json:"nanos_sum"`
	NanosSumSquares float64 `json:"nanos_sum_squares"`
	NanosMin        int64   `json:"nanos_min"`
	NanosMax        int64   `json:"nanos_max"`
}

type WireMaps struct {
	Timers    map[string]*WireTimer `json:"timers"`
	Gauges    map[string]float64    `json:"gauges"`
	Events    map[string]int64      `json:"events"`
	EventErrs map[string]*struct {
		Count int64 `json:"count"`
	} `json:"event_errs"`
}

type WireJob struct {
	WireMaps
	WireTimer
	CountSuccess         int64 `json:"count_success"`
	CountValidationError int64 `json:"count_validation_error"`
	CountPanic           int64 `json:"count_panic"`
	CountError           int64 `json:"count_error"`
	CountJunk            int64 `json:"count_junk"`
}

type WireAgg struct {
	IntervalStart time.Time           `json:"interval_start"`
	SerialNumber  int64               `json:"serial_number"`
	Jobs          map[string]*WireJob `json:"jobs"`
	WireMaps
}

type WireHealth struct {
	InstanceId       string     `json:"instance_id"`
	IntervalDuration int64      `json:"interval_duration"`
	Aggregations     []*WireAgg `json:"aggregations"`
}

func (w *WireAgg) Agg() *Agg {
	a := New(w.IntervalStart)
	a.Serial = w.SerialNumber
	cv := func(m *Maps, w *WireMaps) {
		for k, v := range w.Events {
			m.Events[k] = v
		}
		for k, v := range w.EventErrs {
			m.Errs[k] = v.Count
		}
		for k, v := range w.Gauges {
			m.Gauges[k] = v
		}
		for k, v := range w.Timers {
			m.Timers[k] = &Timer{v.Count, v.NanosSum, v.NanosSumSquares, v.NanosMin, v.NanosMax}
		}
	}
	cv(&a.Maps, &w.WireMaps)
	for k, j := range w.Jobs {
		n := &Job{Maps: newMaps(), Timer: Timer{j.Count, j.NanosSum, j.NanosSumSquares, j.NanosMin, j.NanosMax}}
		n.Status[health.Success], n.Status[health.ValidationError], n.Status[health.Panic], n.Status[health.Error], n.Status[health.Junk] = j.CountSuccess, j.CountValidationError, j.CountPanic, j.CountError, j.CountJunk
		cv(&n.Maps, &j.WireMaps)
		a.Jobs[k] = n
	}
	return a
}

// DiffAgg compares two models exactly; "" means equal.
func DiffAgg(w, g *Agg, serial bool) string {
	if !w.Start.Equal(g.Start) {
		return fmt.Sprintf("interval start %v, want %v", g.Start, w.Start)
	}
	if serial && w.Serial != g.Serial {
		return fmt.Sprintf("serial %d, want %d", g.Serial, w.Serial)
	}
	return w.Diff(g.Real(), Opts{})
}

// Real builds an aggregation of the code under test holding the model's contents.
func (a *Agg) Real() *health.IntervalAggregation {
	r := health.NewIntervalAggregation(a.Start)
	r.SerialNumber = a.Serial
	fill := func(m *Maps, ev map[string]int64, er map[string]*health.ErrorCounter, ti map[string]*health.TimerAggregation, ga map[string]float64) {
		for k, v := range m.Events {
			ev[k] = v
		}
		for k, v := range m.Errs {
			er[k] = &health.ErrorCounter{Count: v}
		}
		for k, v := range m.Gauges {
			ga[k] = v
		}
		for k, v := range m.Timers {
			ti[k] = &health.TimerAggregation{Count: v.Count, NanosSum: v.Sum, NanosSumSquares: v.SumSq, NanosMin: v.Min, NanosMax: v.Max}
		}
	}
	fill(&a.Maps, r.Events, r.EventErrs, r.Timers, r.Gauges)
	for k, j := range a.Jobs {
		n := &health.JobAggregation{TimerAggregation: health.TimerAggregation{Count: j.Count, NanosSum: j.Sum, NanosSumSquares: j.SumSq, NanosMin: j.Timer.Min, NanosMax: j.Timer.Max},
			CountSuccess: j.Status[health.Success], CountValidationError: j.Status[health.ValidationError], CountPanic: j.Status[health.Panic], CountError: j.Status[health.Error], CountJunk: j.Status[health.Junk]}
		n.Events, n.EventErrs, n.Timers, n.Gauges = map[string]int64{}, map[string]*health.ErrorCounter{}, map[string]*health.TimerAggregation{}, map[string]float64{}
		fill(&j.Maps, n.Events, n.EventErrs, n.Timers, n.Gauges)
		r.Jobs[k] = n
	}
	return r
}

// Wire is the JSON-able form of the model.
func (a *Agg) Wire() *WireAgg {
	b, err := json.Marshal(a.Real())
	if err != nil {
		panic(err)
	}
	var w WireAgg
	if err := json.Unmarshal(b, &w); err != nil {
		panic(err)
	}
	return &w
}

// JSONName is what a name becomes on its way through JSON.
func JSONName(s string) string {
	b, _ := json.Marshal(s)
	var o string
	json.Unmarshal(b, &o)
	return o
}
