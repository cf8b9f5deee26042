package core

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

// gate holds the sink's consumer inside the sanitization function while closed.
type gate struct {
	mu   sync.Mutex
	ch   chan struct{}
	held atomic.Int64
}

func (g *gate) close() {
	g.mu.Lock()
	if g.ch == nil {
		g.ch = make(chan struct{})
	}
	g.mu.Unlock()
}

func (g *gate) open() {
	g.mu.Lock()
	if g.ch != nil {
		close(g.ch)
		g.ch = nil
	}
	g.mu.Unlock()
}

func (g *gate) san(b *bytes.Buffer, s string) {
	g.mu.Lock()
	ch := g.ch
	g.mu.Unlock()
	if ch != nil {
		g.held.Add(1)
		<-ch
	}
	b.WriteString(s)
}

// perEmitter counts the lines "eI.N..." of each emitter; they must be 0,1,2.. in order.
func perEmitter(grams []string, n int) ([]int, string) {
	got := make([]int, n)
	lines, bad := splitLines(grams)
	if bad != "" {
		return got, bad
	}
	for _, l := range lines {
		if strings.HasPrefix(l, "gate.") {
			continue
		}
		name := strings.TrimSuffix(strings.TrimSuffix(l[:strings.IndexByte(l, ':')], ".error"), ".success")
		p := strings.Split(name, ".")
		if len(p) != 2 || len(p[0]) < 2 || p[0][0] != 'e' {
			return got, fmt.Sprintf("unknown line %q", l)
		}
		i, _ := strconv.Atoi(p[0][1:])
		k, _ := strconv.Atoi(p[1])
		if i >= n || k != got[i] {
			return got, fmt.Sprintf("line %q where %d of that emitter were received", l, got[i])
		}
		got[i]++
	}
	return got, ""
}

func TestC14(t *testing.T) {
	kit.Run(t, "C14", func(r *kit.Rep) {
		retrying := func(c *kit.Case, f func(u *udpRecv) string) {
			for try := 0; ; try++ {
				u := newUDP()
				bad := f(u)
				drops := u.drops()
				u.close()
				if bad == "" || c.Failed() {
					return
				}
				if drops > 0 {
					if try < 4 {
						c.Count("retried_for_network", 1)
						continue
					}
					c.Inconclusive("kernel dropped datagrams")
					return
				}
				c.Failf("%s", bad)
				return
			}
		}
		workload := func(c *kit.Case, burst bool) {
			g := c.Rng
			ne := 1 + g.IntN(6)
			per := 1 + g.IntN(120)
			if burst {
				per = (9000 + g.IntN(6000)) / ne
			}
			nd := 1 + g.IntN(6)
			rounds := 1 + g.IntN(3)
			gated := burst || g.IntN(2) == 0
			stop := g.IntN(2) == 0
			lead := 0 // emitters get ahead before the first drain
			if g.IntN(2) == 0 {
				lead = g.IntN(per + 1)
			}
			settleAfter := g.IntN(3) > 0
			drainEach := make([]time.Duration, nd)
			for i := range drainEach {
				if g.IntN(3) == 0 {
					drainEach[i] = time.Duration(g.IntN(300)) * time.Millisecond
				}
			}
			c.Tracef("emitters=%d each=%d drainers=%d rounds=%d gated=%v stop=%v lead=%d pauses=%v", ne, per, nd, rounds, gated, stop, lead, drainEach)
			retrying(c, func(u *udpRecv) string {
				var mu sync.Mutex
				bad := ""
				fail := func(s string) {
					mu.Lock()
					if bad == "" {
						bad = s
					}
					mu.Unlock()
				}
				c.Bubble(10*time.Minute, func() {
					var gt gate
					sink, err := health.NewStatsDSink(u.addr, &health.StatsDSinkOptions{SkipTopLevelEvents: true, SanitizationFunc: gt.san})
					if err != nil {
						panic("HARNESS: " + err.Error())
					}
					if gated {
						gt.close()
						sink.EmitEvent("gate", "0", nil)
						kit.Wait()
						if gt.held.Load() > 0 {
							c.Count("consumer_held", 1)
						}
					}
					sent := make([]atomic.Int64, ne)
					var emitters, drainers sync.WaitGroup
					for i := 0; i < ne; i++ {
						emitters.Add(1)
						go func() {
							defer emitters.Done()
							for k := 0; k < per; k++ {
								e := model.Em{Kind: model.Kind(k % 5), Job: fmt.Sprintf("e%d", i), Event: strconv.Itoa(k), Err: errPlain, Nanos: 1, Value: 2}
								if e.Kind == model.Complete {
									e.Job = fmt.Sprintf("e%d.%d", i, k)
								}
								e.To(sink)
								sent[i].Add(1)
							}
						}()
					}
					var drained atomic.Int64
					for d := 0; d < nd; d++ {
						drainers.Add(1)
						go func() {
							defer drainers.Done()
							if drainEach[d] > 0 {
								time.Sleep(drainEach[d])
							}
							for lead > 0 && sent[d%ne].Load() < int64(lead) && !gated {
								nap(20 * time.Microsecond)
							}
							for x := 0; x < rounds; x++ {
								before := make([]int64, ne)
								for i := range before {
									before[i] = sent[i].Load()
								}
								sink.Drain()
								drained.Add(1)
								if settleAfter || x == rounds-1 {
									u.settle()
									got, b := perEmitter(u.all(), ne)
									if b != "" {
										fail(b)
										return
									}
									for i := range before {
										if int64(got[i]) < before[i] {
											fail(fmt.Sprintf("Drain returned with %d lines of emitter %d sent, %d had been emitted before it was called", got[i], i, before[i]))
											return
										}
									}
									c.Count("drains_compared", 1)
								}
							}
						}()
					}
					if gated {
						kit.Wait() // emitters have filled the queue, drains are queued behind or among them
						queued := 0
						for i := range sent {
							queued += int(sent[i].Load())
						}
						c.Max("queue_filled", queued)
						if queued < ne*per {
							c.Count("emitters_blocked_on_full_queue", 1)
						}
						if drained.Load() > 0 && queued > 0 {
							// a Drain called before anything was emitted may return; it cannot while the consumer is held
							c.Count("drains_before_release", int(drained.Load()))
						}
						gt.open()
					}
					emitters.Wait()
					drainers.Wait()
					sink.Drain()
					u.settle()
					got, b := perEmitter(u.all(), ne)
					if b != "" {
						fail(b)
						return
					}
					for i := range got {
						if got[i] != per {
							fail(fmt.Sprintf("after the last Drain %d of %d lines of emitter %d were sent", got[i], per, i))
							return
						}
					}
					c.Count("lines_compared", ne*per)
					if stop {
						sink.Stop()
					}
				})
				return bad
			})
		}
		r.Cases("drain", r.Pick(1500, 24000), func(c *kit.Case) { workload(c, false) })
		r.Cases("burst", r.Pick(72, 800), func(c *kit.Case) { workload(c, true) })

		// The moment Drain returns everything is on the wire, and the moment Stop returns nothing more goes out.
		// Pauses of the whole program are provoked to catch a signal given too early.
		r.Cases("moment", r.Pick(16, 160), func(c *kit.Case) {
			g := c.Rng
			u := newUDP()
			defer u.close()
			var quit atomic.Bool
			var hw sync.WaitGroup
			for i, last := 0, 1+g.IntN(3); i < last; i++ {
				hw.Add(1)
				go func() {
					defer hw.Done()
					var ms runtime.MemStats
					for !quit.Load() {
						runtime.ReadMemStats(&ms)
						nap(30 * time.Microsecond)
					}
				}()
			}
			late := 0
			what := ""
			rounds := 60
			for x := 0; x < rounds && late < 3; x++ {
				sink, err := health.NewStatsDSink(u.addr, &health.StatsDSinkOptions{SkipTopLevelEvents: true})
				if err != nil {
					panic("HARNESS: " + err.Error())
				}
				total := 0
				for d := 0; d < 3; d++ {
					n := 1 + g.IntN(4)
					for i := 0; i < n; i++ {
						sink.EmitEvent("e", "x", nil)
					}
					total += n
					sink.Drain()
					if got := countLines(u.mark()()); got < total {
						late++
						what = fmt.Sprintf("when Drain returned, %d of the %d lines emitted before had been sent", got, total)
					}
					c.Count("drains_compared", 1)
				}
				for i := g.IntN(4); i > 0; i-- {
					sink.EmitEvent("e", "x", nil)
				}
				sink.Stop()
				w := u.mark()
				before := len(w())
				for i := 0; i < 2; i++ {
					runtime.Gosched()
					u.settle()
				}
				if after := len(u.all()); after != before {
					late++
					what = fmt.Sprintf("%d datagrams were sent after Stop had returned", after-before)
				}
				c.Count("stops_compared", 1)
				u.reset()
			}
			quit.Store(true)
			hw.Wait()
			c.Count("pauses_provoked", 1)
			c.Sig("moment", c.N)
			if late >= 3 && u.drops() == 0 {
				c.Failf("%s (3 times)", what)
			}
		})

		// Drains called one after another while the consumer is let through in steps: each one, when it
		// returns, has sent what was emitted before its own call (not merely before an earlier one's).
		r.Cases("steps", r.Pick(600, 8000), func(c *kit.Case) {
			g := c.Rng
			n := 2 + g.IntN(14)
			kinds := make([]int, n)
			for i := range kinds {
				kinds[i] = g.IntN(3) // emissions, a gate, a drain
			}
			counts := make([]int, n)
			for i := range counts {
				counts[i] = 1 + g.IntN(40)
				if g.IntN(4) == 0 {
					counts[i] = 1
				}
			}
			pauses := make([]time.Duration, n)
			for i := range pauses {
				pauses[i] = time.Duration(g.IntN(150)) * time.Millisecond
			}
			stop := g.IntN(2) == 0
			c.Tracef("steps=%v counts=%v pauses=%v stop=%v", kinds, counts, pauses, stop)
			retrying(c, func(u *udpRecv) string {
				bad := ""
				c.Bubble(10*time.Minute, func() {
					var mu sync.Mutex
					gates := map[string]chan struct{}{}
					san := func(b *bytes.Buffer, s string) {
						mu.Lock()
						ch := gates[s]
						mu.Unlock()
						if ch != nil {
							<-ch
						}
						b.WriteString(s)
					}
					sink, err := health.NewStatsDSink(u.addr, &health.StatsDSinkOptions{SkipTopLevelEvents: true, SanitizationFunc: san})
					if err != nil {
						panic("HARNESS: " + err.Error())
					}
					var wg sync.WaitGroup
					var order []string
					type dr struct {
						before int
						done   atomic.Bool
						seen   bool
					}
					var drains []*dr
					emitted := 0
					prog := make(chan func(), n+2)
					wg.Add(1)
					go func() {
						defer wg.Done()
						for f := range prog {
							f()
						}
					}()
					for i, k := range kinds {
						switch {
						case k == 1 || i == 0: // the first is a gate
							name := fmt.Sprintf("g%d", i)
							ch := make(chan struct{})
							mu.Lock()
							gates[name] = ch
							mu.Unlock()
							order = append(order, name)
							prog <- func() { sink.EmitEvent("gate", name, nil) }
						case k == 0:
							from := emitted
							emitted += counts[i]
							to := emitted
							prog <- func() {
								for x := from; x < to; x++ {
									sink.EmitEvent("e0", strconv.Itoa(x), nil)
								}
							}
						default:
							d := &dr{before: emitted}
							drains = append(drains, d)
							kit.Wait() // all that was to be emitted before has been (or is stuck)
							wg.Add(1)
							go func() { defer wg.Done(); sink.Drain(); d.done.Store(true) }()
						}
						kit.Wait()
					}
					close(prog)
					check := func() bool {
						u.settle()
						var got []int
						if got, bad = perEmitter(u.all(), 1); bad != "" {
							return false
						}
						for x, d := range drains {
							if d.done.Load() && !d.seen {
								d.seen = true
								if got[0] < d.before {
									bad = fmt.Sprintf("Drain %d of %d returned with %d lines sent, %d had been emitted before it was called", x, len(drains), got[0], d.before)
									return false
								}
								c.Count("drains_compared", 1)
							}
						}
						return true
					}
					release := func(name string) {
						mu.Lock()
						ch := gates[name]
						delete(gates, name)
						mu.Unlock()
						close(ch)
					}
					ok := check()
					for i, name := range order {
						release(name)
						kit.Wait()
						time.Sleep(pauses[i])
						kit.Wait()
						ok = ok && check()
						c.Count("gates_passed", 1)
					}
					wg.Wait()
					if ok && check() && stop {
						sink.Stop()
					}
				})
				return bad
			})
		})

		// Many goroutines that each emit a little and drain at once, over and over: what one of them
		// emitted is sent when its own Drain returns, whatever the others' Drains are at.
		r.Cases("storm", r.Pick(160, 2400), func(c *kit.Case) {
			g := c.Rng
			nd := 2 + g.IntN(7)
			rounds := 10 + g.IntN(30)
			c.Tracef("drainers=%d rounds=%d", nd, rounds)
			seeds := make([]uint64, nd)
			for i := range seeds {
				seeds[i] = g.Uint64()
			}
			retrying(c, func(u *udpRecv) string {
				bad := ""
				type point struct {
					who, before int
					at          func() []string
				}
				c.Bubble(10*time.Minute, func() {
					sink, err := health.NewStatsDSink(u.addr, &health.StatsDSinkOptions{SkipTopLevelEvents: true})
					if err != nil {
						panic("HARNESS: " + err.Error())
					}
					points := make([][]point, nd)
					var wg sync.WaitGroup
					for i := 0; i < nd; i++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							job := fmt.Sprintf("e%d", i)
							x := seeds[i]
							k := 0
							for r := 0; r < rounds; r++ {
								x = x*6364136223846793005 + 1442695040888963407
								for n := int(x>>60)%3 + 1; n > 0; n-- {
									sink.EmitEvent(job, strconv.Itoa(k), nil)
									k++
								}
								for n := int(x >> 50 & 3); n > 0; n-- {
									runtime.Gosched()
								}
								sink.Drain()
								points[i] = append(points[i], point{i, k, u.mark()})
							}
						}()
					}
					wg.Wait()
					for _, ps := range points {
						for _, p := range ps {
							got, b := perEmitter(p.at(), nd)
							if b != "" {
								bad = b
								return
							}
							if got[p.who] < p.before {
								bad = fmt.Sprintf("Drain of goroutine %d of %d returned with %d of its lines sent, it had emitted %d before", p.who, nd, got[p.who], p.before)
								return
							}
							c.Count("drains_compared", 1)
						}
					}
					sink.Stop()
				})
				return bad
			})
		})

		// Drains already called when a Stop follows: all return, what was emitted before the
		// drains is sent, and nothing is sent after Stop returned.
		r.Cases("stop", r.Pick(2400, 30000), func(c *kit.Case) {
			g := c.Rng
			per := g.IntN(60)
			nd := g.IntN(5)
			tailN := g.IntN(10)
			gated := g.IntN(4) > 0
			age := time.Duration(g.IntN(220)) * time.Millisecond
			big := g.IntN(8) == 0
			if big {
				per = 8192 + g.IntN(400)
			}
			c.Tracef("before=%d drains=%d after=%d gated=%v age=%v", per, nd, tailN, gated, age)
			retrying(c, func(u *udpRecv) string {
				bad := ""
				c.Bubble(10*time.Minute, func() {
					var gt gate
					sink, err := health.NewStatsDSink(u.addr, &health.StatsDSinkOptions{SkipTopLevelEvents: true, SanitizationFunc: gt.san})
					if err != nil {
						panic("HARNESS: " + err.Error())
					}
					time.Sleep(age)
					if gated {
						gt.close()
						sink.EmitEvent("gate", "0", nil)
						kit.Wait()
					}
					var wg sync.WaitGroup
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < per; k++ {
							sink.EmitEvent("e0", strconv.Itoa(k), nil)
						}
						var dw sync.WaitGroup
						for d := 0; d < nd; d++ {
							dw.Add(1)
							go func() { defer dw.Done(); sink.Drain() }()
						}
						dw.Wait()
					}()
					if big && gated {
						kit.Wait()
						gt.open()
						wg.Wait()
						kit.Wait() // the queue is empty again
						gt.close()
						sink.EmitEvent("gate", "1", nil)
						for d := 0; d < nd; d++ {
							wg.Add(1)
							go func() { defer wg.Done(); sink.Drain() }()
						}
					}
					kit.Wait() // the drains have been called (and either wait in the queue or have returned)
					for k := 0; k < tailN; k++ {
						sink.EmitEvent("e1", strconv.Itoa(k), nil)
					}
					wg.Add(1)
					var returned func() []string
					go func() { defer wg.Done(); sink.Stop(); returned = u.mark() }()
					kit.Wait()
					gt.open()
					wg.Wait()
					then := len(returned())
					u.settle()
					at := u.all()
					got, b := perEmitter(at, 2)
					if b != "" {
						bad = b
						return
					}
					if nd > 0 && got[0] != per {
						bad = fmt.Sprintf("%d lines were emitted before Drain was called, %d sent when it had returned", per, got[0])
						return
					}
					time.Sleep(time.Second)
					kit.Wait()
					u.settle()
					if n := len(u.all()); n != then {
						bad = fmt.Sprintf("%d datagrams were sent after Stop had returned, eg %q", n-then, short(u.all()[then]))
						return
					}
					c.Count("stops_compared", 1)
					c.Count("drains_with_later_stop", nd)
				})
				return bad
			})
		})
	})
}

var errPlain = fmt.Errorf("plain")
