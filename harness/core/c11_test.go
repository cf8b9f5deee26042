package core

import (
	"encoding/json"
	"math/rand/v2"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

// realAgg makes an aggregation of the given emissions in one of several ways.
func realAgg(g *rand.Rand, m *model.Agg, ems []model.Em, how int) *health.IntervalAggregation {
	switch how {
	case 0: // as the polling sink makes it
		sink := health.NewJsonPollingSink(24*time.Hour, 24*time.Hour)
		for _, e := range ems {
			e.To(sink)
		}
		kit.Wait()
		ms := sink.GetMetrics()
		sink.ShutdownServer()
		return ms[len(ms)-1]
	case 1: // as a remote reader gets it
		b, err := json.Marshal(m.Real())
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		var ia health.IntervalAggregation
		if err := json.Unmarshal(b, &ia); err != nil {
			panic("HARNESS: " + err.Error())
		}
		return &ia
	default:
		return m.Real()
	}
}

// jsonNames makes the names such that JSON leaves them as they are.
func jsonNames(f func(*rand.Rand) string) func(*rand.Rand) string {
	return func(g *rand.Rand) string { return model.JSONName(f(g)) }
}

func TestC11(t *testing.T) {
	kit.Run(t, "C11", func(r *kit.Rep) {
		r.Cases("merge", r.Pick(12000, 96000), func(c *kit.Case) {
			c.Bubble(time.Hour, func() {
				g := c.Rng
				name := jsonNames(namePool(g, 1+g.IntN(6)))
				parts := 1 + g.IntN(6)
				start := time.Now().Truncate(24 * time.Hour)
				models := make([]*model.Agg, parts)
				reals := make([]*health.IntervalAggregation, parts)
				for i := range models {
					models[i] = model.New(start)
					var ems []model.Em
					for x, last := 0, g.IntN(25); x < last; x++ {
						e := model.Gen(g, name)
						if g.IntN(3) == 0 { // min and max are decided by whoever has values at all
							e.Nanos = []int64{1, -5, 1e9, -1e9, 0}[g.IntN(5)]
						}
						ems = append(ems, e)
						models[i].Apply(e)
						c.Tracef("part %d: %v", i, e)
					}
					reals[i] = realAgg(g, models[i], ems, g.IntN(3))
				}
				dumps := make([]string, parts)
				for i := range reals {
					dumps[i] = model.Dump(reals[i])
				}
				// combine as a random tree; a node is merged into a fresh aggregation, a clone, or another node
				type node struct {
					m    *model.Agg
					r    *health.IntervalAggregation
					leaf int // which original this is, or -1
				}
				var nodes []node
				for i := range reals {
					nodes = append(nodes, node{models[i], reals[i], i})
				}
				type keep struct {
					r *health.IntervalAggregation
					d string
				}
				var frozen []keep
				for len(nodes) > 1 {
					ai := g.IntN(len(nodes))
					bi := g.IntN(len(nodes) - 1)
					if bi >= ai {
						bi++
					}
					a, b := nodes[ai], nodes[bi]
					var into *health.IntervalAggregation
					if g.IntN(2) == 0 {
						into = health.NewIntervalAggregation(start)
						into.Merge(a.r)
					} else {
						into = a.r.Clone()
						if d := model.Dump(into); d != model.Dump(a.r) {
							c.Failf("clone differs from its original:\n%s\n%s", d, model.Dump(a.r))
							return
						}
					}
					c.Tracef("merge %d <- %d", a.leaf, b.leaf)
					into.Merge(b.r)
					nm := model.New(start)
					nm.Merge(a.m)
					nm.Merge(b.m)
					if d := nm.Diff(into, model.Opts{}); d != "" {
						c.Failf("merge: %s", d)
						return
					}
					c.Count("merges_compared", 1)
					frozen = append(frozen, keep{b.r, model.Dump(b.r)}, keep{a.r, model.Dump(a.r)})
					n := node{nm, into, -1}
					if ai < bi {
						ai, bi = bi, ai
					}
					nodes = append(nodes[:ai], nodes[ai+1:]...)
					nodes = append(nodes[:bi], nodes[bi+1:]...)
					nodes = append(nodes, n)
				}
				for i := range reals {
					if d := model.Dump(reals[i]); d != dumps[i] {
						c.Failf("merged-in aggregation %d was modified:\nwas %s\nnow %s", i, dumps[i], d)
						return
					}
				}
				// everything together, merged one after the other
				all := health.NewIntervalAggregation(start)
				order := g.Perm(parts)
				am := model.New(start)
				for _, i := range order {
					all.Merge(reals[i])
					am.Merge(models[i])
				}
				if d := am.Diff(all, model.Opts{}); d != "" {
					c.Failf("merging %d aggregations in order %v: %s", parts, order, d)
					return
				}
				c.Count("merges_compared", parts)
				// nothing is shared: change the result, the parts stay; change a part, the result stays
				cl := all.Clone()
				clDump, allDump := model.Dump(cl), model.Dump(all)
				if clDump != allDump {
					c.Failf("clone differs from its original")
					return
				}
				scramble(all)
				if model.Dump(cl) != clDump {
					c.Failf("changing the original changed its clone:\nwas %s\nnow %s", clDump, model.Dump(cl))
					return
				}
				for i := range reals {
					if d := model.Dump(reals[i]); d != dumps[i] {
						c.Failf("changing the merge result changed aggregation %d, which was merged in:\nwas %s\nnow %s", i, dumps[i], d)
						return
					}
				}
				final := nodes[0].r
				fd := model.Dump(final)
				scramble(cl)
				for i := range reals {
					if reals[i] != final {
						scramble(reals[i])
					}
				}
				if d := model.Dump(final); d != fd {
					c.Failf("changing a merged-in aggregation changed the result:\nwas %s\nnow %s", fd, d)
					return
				}
				_ = frozen
				c.Count("aliasing_checks", 2+2*parts)
			})
		})
		// Merging the same source again and again into targets that keep growing (what healthd does).
		r.Cases("repeat", r.Pick(2400, 19200), func(c *kit.Case) {
			g := c.Rng
			name := namePool(g, 3)
			start := time.Unix(1e9, 0).UTC()
			src := model.New(start)
			for x, last := 0, 1+g.IntN(15); x < last; x++ {
				src.Apply(model.Gen(g, name))
			}
			real := src.Real()
			d0 := model.Dump(real)
			times := 1 + g.IntN(5)
			sum := model.New(start)
			tgt := health.NewIntervalAggregation(start)
			for i := 0; i < times; i++ {
				tgt.Merge(real)
				sum.Merge(src)
				c.Tracef("merge %d", i)
			}
			c.Sig(d0)
			c.Count("merges_compared", times)
			if d := sum.Diff(tgt, model.Opts{}); d != "" {
				c.Failf("merging the same aggregation %d times: %s", times, d)
			} else if model.Dump(real) != d0 {
				c.Failf("merged-in aggregation was modified")
			}
		})
	})
}
