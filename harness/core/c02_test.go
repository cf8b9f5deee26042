package core

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"testing"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

var kvKeys = []string{"a", "b", "c", "d", "", "host", "request-id", "%s", "é"}

func kvName(g *rand.Rand) string {
	if g.IntN(4) == 0 {
		return fmt.Sprintf("k%d", g.IntN(24))
	}
	return kvKeys[g.IntN(len(kvKeys))]
}

// kvVal is mostly unlike any other value, sometimes empty or shared.
func kvVal(g *rand.Rand, level string, id int) string {
	switch g.IntN(8) {
	case 0:
		return ""
	case 1:
		return "same"
	case 2:
		return kit.Name(g)
	}
	return fmt.Sprintf("%s%d", level, id)
}

// ownSize is how many key/values a call carries of its own.
func ownSize(g *rand.Rand) int {
	if g.IntN(6) == 0 {
		return 1 + g.IntN(20)
	}
	return 1 + g.IntN(3)
}

func merged(ms ...map[string]string) map[string]string {
	out := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

type kvSource struct {
	rc   receiver
	name string
	kv   map[string]string // what was added to this job
	set  func(k, v string)
}

// C02: key/values seen by the sinks, and the callers' maps afterwards, against a three-level model.
func TestC02(t *testing.T) {
	kit.Run(t, "C02", func(r *kit.Rep) {
		r.Cases("sequential", r.Pick(32000, 256000), func(c *kit.Case) {
			g := c.Rng
			type strm struct {
				s     *health.Stream
				k     []*rec
				kv    map[string]string
				srcs  []*kvSource
				shape int
			}
			var ss []*strm
			for i, last := 0, 1+g.IntN(2); i < last; i++ {
				s := &strm{s: health.NewStream(), kv: map[string]string{}}
				for x, last := 0, 1+g.IntN(3); x < last; x++ {
					k := &rec{}
					s.k = append(s.k, k)
					s.s.AddSink(k)
				}
				// The stream itself emits as the job "general".
				gj := &kvSource{rc: s.s, name: "general", kv: map[string]string{}, set: func(k, v string) { s.s.Job.KeyValue(k, v) }}
				s.srcs = append(s.srcs, gj)
				ss = append(ss, s)
			}
			n := 5 + g.IntN(40)
			uid := 0
			// Probability of adding keys varies per case so that all emptiness combinations occur.
			pStream, pJob := g.IntN(3), g.IntN(3)
			for i := 0; i < n; i++ {
				s := ss[g.IntN(len(ss))]
				for g.IntN(8) < pStream {
					uid++
					k, v := kvName(g), kvVal(g, "s", uid)
					c.Tracef("stream kv %q=%q", k, v)
					s.s.KeyValue(k, v)
					s.kv[k] = v
				}
				if g.IntN(6) == 0 {
					name := kit.PlainName(g)
					j := s.s.NewJob(name)
					s.srcs = append(s.srcs, &kvSource{rc: j, name: name, kv: map[string]string{}, set: func(k, v string) { j.KeyValue(k, v) }})
				}
				src := s.srcs[g.IntN(len(s.srcs))]
				for g.IntN(8) < pJob {
					uid++
					k, v := kvName(g), kvVal(g, "j", uid)
					c.Tracef("job %q kv %q=%q", src.name, k, v)
					src.set(k, v)
					src.kv[k] = v
				}
				e := model.Gen(g, kit.PlainName)
				var own map[string]string
				kvForm := g.IntN(3) > 0
				if kvForm {
					switch g.IntN(4) {
					case 0:
					case 1:
						own = map[string]string{}
					default:
						own = map[string]string{}
						for x := ownSize(g); x > 0; x-- {
							uid++
							own[kvName(g)] = kvVal(g, "c", uid)
						}
					}
				}
				e.Kvs = own
				before := kit.CopyMap(own)
				wantKv := merged(s.kv, src.kv, own)
				c.Tracef("emit %v kvform=%v own=%q", e, kvForm, own)
				c.Sig(len(s.kv) > 0, len(src.kv) > 0, len(own) > 0, kvForm, e.Kind, len(wantKv))
				emitThrough(src.rc, e, kvForm)
				for ki, k := range s.k {
					l := k.take()
					if len(l) != 1 {
						c.Failf("sink %d received %d deliveries for one emission", ki, len(l))
						return
					}
					if !kit.EqMap(l[0].Kvs, wantKv) {
						c.Failf("sink %d: key/values of %v: want %q, got %q", ki, e, wantKv, l[0].Kvs)
						return
					}
					c.Count("kv_sets_compared", 1)
				}
				if !kit.EqMap(own, before) || (own == nil) != (before == nil) {
					c.Failf("the caller's map was changed from %q to %q", before, own)
					return
				}
				for _, o := range ss {
					if !kit.EqMap(o.s.KeyValues, o.kv) {
						c.Failf("the stream's own key/values are %q, only %q were added", o.s.KeyValues, o.kv)
						return
					}
					for _, q := range o.srcs {
						var have map[string]string
						if j, ok := q.rc.(*health.Job); ok {
							have = j.KeyValues
						} else {
							have = o.s.Job.KeyValues
						}
						if !kit.EqMap(have, q.kv) {
							c.Failf("job %q's own key/values are %q, only %q were added", q.name, have, q.kv)
							return
						}
					}
				}
			}
		})

		// Run's panic event carries its own stack kv on top of job and stream ones.
		r.Cases("run", r.Pick(2400, 19200), func(c *kit.Case) {
			g := c.Rng
			s := health.NewStream()
			k := &rec{}
			s.AddSink(k)
			skv, jkv := map[string]string{}, map[string]string{}
			for i, last := 0, g.IntN(3); i < last; i++ {
				a, b := kvName(g), kvVal(g, "s", i)
				s.KeyValue(a, b)
				skv[a] = b
			}
			j := s.NewJob("j")
			for i, last := 0, g.IntN(3); i < last; i++ {
				a, b := kvName(g), kvVal(g, "j", i)
				j.KeyValue(a, b)
				jkv[a] = b
			}
			if g.IntN(3) == 0 {
				j.KeyValue("stack", "mine")
				jkv["stack"] = "mine"
			}
			j.Run(func() error { panic("x") })
			for _, e := range k.take() {
				want := merged(skv, jkv)
				if e.Kind == model.EventErr {
					want["stack"] = e.Kvs["stack"]
					if e.Kvs["stack"] == "" || e.Kvs["stack"] == "mine" {
						c.Failf("panic event lacks its own stack key/value: %q", e.Kvs)
						return
					}
				}
				if !kit.EqMap(e.Kvs, want) {
					c.Failf("%v: want %q, got %q", e.Em, want, e.Kvs)
					return
				}
				c.Count("kv_sets_compared", 1)
			}
			if !kit.EqMap(j.KeyValues, jkv) || !kit.EqMap(s.KeyValues, skv) {
				c.Failf("key/values changed by a run: job %q want %q, stream %q want %q", j.KeyValues, jkv, s.KeyValues, skv)
			}
			c.Sig("run", len(skv), len(jkv))
		})

		// Concurrent jobs on one stream: what each adds stays with it.
		r.Cases("concurrent", r.Pick(800, 6400), func(c *kit.Case) {
			g := c.Rng
			s := health.NewStream()
			k := &rec{}
			s.AddSink(k)
			skv := map[string]string{}
			for i, last := 0, g.IntN(3); i < last; i++ {
				a := kvName(g)
				s.KeyValue(a, "s")
				skv[a] = "s"
			}
			ng := 2 + g.IntN(8)
			seeds := make([]uint64, ng)
			for i := range seeds {
				seeds[i] = g.Uint64()
			}
			wants := make([][]map[string]string, ng)
			var wg sync.WaitGroup
			for i := 0; i < ng; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					lg := rand.New(rand.NewPCG(seeds[i], 1))
					j := s.NewJob(fmt.Sprintf("g%d", i))
					jkv := map[string]string{}
					for x := 0; x < 60; x++ {
						if lg.IntN(5) == 0 {
							a, b := kvName(lg), kvVal(lg, fmt.Sprintf("g%d.", i), x)
							j.KeyValue(a, b)
							jkv[a] = b
						}
						e := model.Gen(lg, kit.PlainName)
						kvf := lg.IntN(2) == 0
						if kvf {
							e.Kvs = map[string]string{}
							for y := ownSize(lg) - 1; y > 0; y-- {
								e.Kvs[kvName(lg)] = kvVal(lg, fmt.Sprintf("c%d.", i), x)
							}
						}
						wants[i] = append(wants[i], merged(skv, jkv, e.Kvs))
						emitThrough(j, e, kvf)
					}
				}()
			}
			wg.Wait()
			pos := make([]int, ng)
			for _, e := range k.take() {
				var i int
				fmt.Sscanf(e.Job, "g%d", &i)
				w := wants[i][pos[i]]
				pos[i]++
				if !kit.EqMap(w, e.Kvs) {
					c.Failf("goroutine %d emission %d: want %q, got %q", i, pos[i]-1, w, e.Kvs)
					return
				}
				c.Count("kv_sets_compared", 1)
			}
			c.Sig("conc")
		})
	})
}
