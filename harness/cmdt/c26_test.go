package cmdt

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"example.com/verif/kit"
	"example.com/verif/model"
)

// The real commands, on a pseudo terminal and loopback sockets.
func TestC26(t *testing.T) {
	kit.Run(t, "C26", func(r *kit.Rep) {
		r.Cases("jobs", r.Pick(96, 800), func(c *kit.Case) { healthtop(c, "jobs") })
		r.Cases("hosts", r.Pick(48, 400), func(c *kit.Case) { healthtop(c, "hosts") })
		r.Cases("healthd", r.Pick(24, 160), healthdCmd)
		r.Cases("noenv", r.Pick(1, 1), noEnv)
	})
}

// ---- a pseudo terminal

func ioctl(f *os.File, req uintptr, arg unsafe.Pointer) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
		panic(fmt.Sprint("ioctl: ", e))
	}
}

func openPty(rows, cols int) (m, s *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	var n int32
	ioctl(m, 0x40045431, unsafe.Pointer(&n)) // TIOCSPTLCK
	ioctl(m, 0x80045430, unsafe.Pointer(&n)) // TIOCGPTN
	s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	ws := [4]uint16{uint16(rows), uint16(cols)}
	ioctl(s, 0x5414, unsafe.Pointer(&ws)) // TIOCSWINSZ
	return m, s
}

type screen struct {
	mu  sync.Mutex
	buf []byte
}

func (s *screen) read(f *os.File) {
	b := make([]byte, 65536)
	for {
		n, err := f.Read(b)
		s.mu.Lock()
		s.buf = append(s.buf, b[:n]...)
		s.mu.Unlock()
		if err != nil {
			return
		}
	}
}

var sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")
var cells = regexp.MustCompile(`\s{3,}`)

type frame struct {
	status string
	table  [][]string // header first
	text   string
}

// frames returns the screens drawn so far; the last one may be incomplete.
func (s *screen) frames() []frame {
	s.mu.Lock()
	t := sgr.ReplaceAllString(string(s.buf), "")
	s.mu.Unlock()
	parts := strings.Split(strings.ReplaceAll(t, "\r", ""), "\x1b[2J")
	var out []frame
	for i, p := range parts {
		if i == 0 {
			continue
		}
		f := frame{text: p}
		p = strings.TrimPrefix(p, "\x1b[1;1H")
		lines := strings.Split(p, "\n")
		f.status = lines[0]
		for _, l := range lines[1:] {
			if strings.TrimSpace(l) == "" {
				continue
			}
			f.table = append(f.table, cells.Split(strings.TrimRight(l, " "), -1))
		}
		out = append(out, f)
	}
	return out
}

// ---- a scripted healthd

type fakeHealthd struct {
	mu    sync.Mutex
	jobs  []*jobRow
	hosts []*hostRow
	reqs  []*url.URL
	srv   *http.Server
	addr  string
}

type jobRow struct {
	Name                 string  `json:"name"`
	Count                int64   `json:"count"`
	CountSuccess         int64   `json:"count_success"`
	CountValidationError int64   `json:"count_validation_error"`
	CountPanic           int64   `json:"count_panic"`
	CountError           int64   `json:"count_error"`
	CountJunk            int64   `json:"count_junk"`
	NanosSum             int64   `json:"nanos_sum"`
	NanosSumSquares      float64 `json:"nanos_sum_squares"`
	NanosMin             int64   `json:"nanos_min"`
	NanosMax             int64   `json:"nanos_max"`
	NanosAvg             float64 `json:"nanos_avg"`
	NanosStdDev          float64 `json:"nanos_std_dev"`
}

type hostRow struct {
	HostPort      string    `json:"host_port"`
	LastCheckTime time.Time `json:"last_check_time"`
	LastErr       string    `json:"last_err"`
	LastNanos     int64     `json:"last_nanos"`
	LastCode      int       `json:"last_code"`
}

func (f *fakeHealthd) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.reqs = append(f.reqs, r.URL)
	var v any
	switch r.URL.Path {
	case "/healthd/jobs":
		jobs := f.jobs
		if n, err := strconv.Atoi(r.URL.Query().Get("limit")); err == nil && n > 0 && n < len(jobs) {
			jobs = jobs[:n]
		}
		v = map[string]any{"instance_id": "x", "interval_duration": 60000000000, "jobs": jobs}
	case "/healthd/hosts":
		v = map[string]any{"instance_id": "x", "interval_duration": 60000000000, "hosts": f.hosts}
	default:
		rw.WriteHeader(404)
		return
	}
	b, _ := json.Marshal(v)
	rw.Header().Set("Content-Type", "application/json")
	rw.Write(b)
}

func (f *fakeHealthd) start() {
	addr := f.addr
	if addr == "" {
		addr = freePort()
	}
	var l net.Listener
	var err error
	for i := 0; i < 100; i++ {
		if l, err = net.Listen("tcp", addr); err == nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	f.addr = l.Addr().String()
	f.srv = &http.Server{Handler: f}
	go f.srv.Serve(l)
}

func cellNanos(n int64) string {
	switch {
	case n > 2000000:
		return fmt.Sprintf("%d ms", n/1000000)
	case n > 1000:
		return fmt.Sprintf("%d μs", n/1000)
	}
	return fmt.Sprintf("%d ns", n)
}

func (j *jobRow) cells() []string {
	i := func(n int64) string { return fmt.Sprint(n) }
	return []string{j.Name, i(j.Count), i(j.CountSuccess), i(j.CountValidationError), i(j.CountPanic), i(j.CountError), i(j.CountJunk),
		cellNanos(int64(j.NanosAvg)), cellNanos(int64(j.NanosStdDev)), cellNanos(j.NanosMin), cellNanos(j.NanosMax), cellNanos(j.NanosSum)}
}

func (h *hostRow) cells() []string {
	st := "Success"
	if h.LastCode != 200 || h.LastErr != "" {
		st = "Failure: " + h.LastErr
		if h.LastCheckTime.IsZero() {
			st = "Unknown"
		}
	}
	return []string{h.HostPort, strings.TrimRight(st, " "), h.LastCheckTime.Format(time.RFC1123), cellNanos(h.LastNanos)}
}

func topName(g *rand.Rand, i int) string {
	pre := []string{"", "api", "/api/v2/users", "100%", "日本", "a b", "%d", "x\"y", "<b>", "Job", "job"}[g.IntN(11)]
	return fmt.Sprintf("%s.%d", pre, i)
}

func (f *fakeHealthd) fill(g *rand.Rand, kind string, n int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.jobs, f.hosts = []*jobRow{}, []*hostRow{}
	perm := g.Perm(n)
	for _, i := range perm {
		if kind == "jobs" {
			j := &jobRow{Name: topName(g, i), CountSuccess: g.Int64N(1000), NanosSum: kit.PosNanos(g), NanosMin: kit.Nanos(g), NanosMax: kit.PosNanos(g), NanosAvg: float64(kit.PosNanos(g)) + g.Float64(), NanosStdDev: g.Float64() * 1e7}
			if g.IntN(2) == 0 {
				j.CountPanic, j.CountError, j.CountJunk, j.CountValidationError = g.Int64N(5), g.Int64N(5), g.Int64N(3), g.Int64N(1e6)
			}
			j.Count = j.CountSuccess + j.CountPanic + j.CountError + j.CountJunk + j.CountValidationError
			f.jobs = append(f.jobs, j)
		} else {
			h := &hostRow{HostPort: fmt.Sprintf("web%d.%s:50%02d", i, []string{"a", "prod"}[g.IntN(2)], g.IntN(100)), LastNanos: kit.PosNanos(g), LastCode: 200, LastCheckTime: time.Date(2015, 1, 2, g.IntN(24), g.IntN(60), 3, 0, time.UTC)}
			switch g.IntN(5) {
			case 0:
				h.LastCode, h.LastErr = 0, "dial tcp: refused"
			case 1:
				h.LastCode = 500
			case 2:
				h.LastErr = "unexpected EOF"
			case 3:
				if g.IntN(2) == 0 {
					h.LastCode, h.LastCheckTime, h.LastNanos = 0, time.Time{}, 0
				}
			}
			f.hosts = append(f.hosts, h)
		}
	}
}

var sorts = []string{"", "name", "count", "count_success", "count_validation_error", "count_panic", "count_error", "count_junk", "min", "max", "avg", "stddev", "total_time", "weird&x=1"}

// within waits until f holds; real time, generous, so that a slow machine does not decide anything.
func within(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

const patience = 40 * time.Second

func healthtop(c *kit.Case, kind string) {
	g := c.Rng
	rows := 6 + g.IntN(45)
	n := []int{0, 1, g.IntN(10), rows - 4 + g.IntN(5), rows + g.IntN(100)}[g.IntN(5)]
	if n < 0 {
		n = 0
	}
	f := &fakeHealthd{}
	f.fill(g, kind, n)
	f.start()
	defer func() { f.srv.Close() }()
	args := []string{kind, "--source", f.addr}
	sort, name, sortGiven := "name", "", false
	if kind == "jobs" {
		if g.IntN(4) > 0 {
			sort, sortGiven = sorts[g.IntN(len(sorts))], true
			args = append(args, "--sort", sort)
		}
		if g.IntN(3) == 0 {
			name = []string{"api", "1", "%", "b", "日", "nosuch", "."}[g.IntN(7)]
			args = append(args, "--name", name)
		}
	}
	_ = sortGiven
	c.Tracef("%dx%d jobs/hosts %d args %q", rows, 300, n, args)
	m, sl := openPty(rows, 300)
	cmd := exec.Command(os.Getenv("VERIF_HEALTHTOP"), args...)
	cmd.Stdout, cmd.Stderr = sl, sl
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	sl.Close()
	sc := &screen{}
	go sc.read(m)
	defer func() { cmd.Process.Kill(); cmd.Wait(); m.Close() }()

	// fits: how many rows the terminal takes under the status line and the header
	want := func() (w [][]string, exact bool) {
		f.mu.Lock()
		defer f.mu.Unlock()
		if kind == "hosts" {
			for _, h := range f.hosts {
				w = append(w, h.cells())
			}
		} else {
			for _, j := range f.jobs {
				if strings.Contains(j.Name, name) {
					w = append(w, j.cells())
				}
			}
		}
		return w, true
	}
	// shows tells whether the frame is the given table, cut to what fits.
	shows := func(fr frame, w [][]string) string {
		if len(fr.table) == 0 {
			return "no table"
		}
		rs := fr.table[1:]
		atLeast := min(len(w), max(3, rows-4))
		if len(rs) < atLeast || len(rs) > len(w) || len(rs) > max(3, rows-2) {
			return fmt.Sprintf("%d rows on %d lines for %d entries", len(rs), rows, len(w))
		}
		for i, r := range rs {
			if strings.Join(r, "|") != strings.Join(w[i], "|") {
				return fmt.Sprintf("row %d is %q, want %q", i, r, w[i])
			}
		}
		return ""
	}
	settle := func(what string, ok func(fr frame) string) bool {
		why := "nothing drawn"
		if !within(patience, func() bool {
			fs := sc.frames()
			if len(fs) < 2 {
				return false
			}
			why = ok(fs[len(fs)-2]) // the last complete one
			return why == ""
		}) {
			fs := sc.frames()
			last := ""
			if len(fs) > 0 {
				last = fs[len(fs)-1].text
			}
			c.Failf("healthtop %q on %d lines, %d entries: %s: %s\nlast screen: %.1500q", args, rows, n, what, why, last)
			return false
		}
		c.Count("screens_compared", 1)
		return true
	}
	w, _ := want()
	success := func(w [][]string) func(fr frame) string {
		return func(fr frame) string {
			if !strings.Contains(fr.status, "[success]") {
				return "status line " + fr.status
			}
			return shows(fr, w)
		}
	}
	if !settle("initial data", success(w)) {
		return
	}
	// the data changes: so does the screen
	if kind == "jobs" {
		n = g.IntN(rows + 20)
	} else {
		n = g.IntN(20)
	}
	f.fill(g, kind, n)
	w, _ = want()
	if !settle("changed data", success(w)) {
		return
	}
	if g.IntN(2) == 0 {
		// healthd goes away: say so, keep the data
		f.srv.Close()
		if !settle("after healthd went away", func(fr frame) string {
			if !strings.Contains(fr.status, "error") || !strings.Contains(fr.status, "refused") {
				return "status line " + fr.status
			}
			return shows(fr, w)
		}) {
			return
		}
		c.Count("outages", 1)
		f.fill(g, kind, n)
		w, _ = want()
		f.start()
		if !settle("after healthd came back", success(w)) {
			return
		}
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, u := range f.reqs {
		q := u.Query()
		lim := -1
		if q.Has("limit") {
			lim, _ = strconv.Atoi(q.Get("limit"))
		}
		bad := u.Path != "/healthd/"+kind || (kind == "jobs" && q.Get("sort") != sort)
		if kind == "jobs" && name == "" {
			bad = bad || lim < max(3, rows-4) || lim > max(3, rows)
		} else {
			bad = bad || lim > 0
		}
		if bad {
			c.Failf("healthtop %q on %d lines asked for %s", args, rows, u)
			return
		}
		c.Count("requests_checked", 1)
	}
}

// ---- the healthd command

var ports atomic.Int64

// freePort is an address nobody else uses: every monitor process has its own part of 127/8.
func freePort() string {
	pid, k := os.Getpid(), ports.Add(1)
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, pid/250%250, 1+k%250, 5000+k)
}

type fakeHost struct {
	mu   sync.Mutex
	agg  *model.Agg
	n    int
	addr string
	inst string
}

func (h *fakeHost) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if r.URL.Path != "/health" {
		rw.WriteHeader(404)
		return
	}
	h.n++
	b, _ := json.Marshal(model.WireHealth{InstanceId: h.inst, IntervalDuration: int64(time.Minute), Aggregations: []*model.WireAgg{h.agg.Wire()}})
	rw.Write(b)
}

func healthdCmd(c *kit.Case) {
	g := c.Rng
	n := []int{1, 2, 1 + g.IntN(5), 6 + g.IntN(30)}[g.IntN(4)]
	start := time.Now().Truncate(time.Minute).Add(-time.Minute)
	total := model.New(start)
	var hosts []*fakeHost
	var hps []string
	for i := 0; i < n; i++ {
		h := &fakeHost{agg: model.New(start), inst: fmt.Sprint("i", i)}
		for k := g.IntN(20); k > 0; k-- {
			e := model.Gen(g, kit.PlainName)
			e.Job = "app." + e.Job
			h.agg.Apply(e)
			c.Tracef("%v", e)
		}
		total.Merge(h.agg)
		l, err := net.Listen("tcp", freePort())
		if err != nil {
			panic(err)
		}
		h.addr = l.Addr().String()
		srv := &http.Server{Handler: h}
		go srv.Serve(l)
		defer srv.Close()
		hosts = append(hosts, h)
		hps = append(hps, h.addr)
	}
	self, api := freePort(), freePort()
	cmd := exec.Command(os.Getenv("VERIF_HEALTHD"))
	cmd.Env = append(os.Environ(), "HEALTHD_MONITORED_HOSTPORTS="+strings.Join(hps, ","), "HEALTH_HOSTPORT="+self, "HEALTHD_SERVER_HOSTPORT="+api)
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	defer func() { cmd.Process.Kill(); cmd.Wait() }()
	get := func(path string, v any) bool {
		resp, err := http.Get("http://" + api + path)
		if err != nil {
			return false
		}
		defer resp.Body.Close()
		return resp.StatusCode == 200 && json.NewDecoder(resp.Body).Decode(v) == nil
	}
	var hs struct {
		Hosts []struct {
			HostPort string `json:"host_port"`
			LastCode int    `json:"last_code"`
		} `json:"hosts"`
	}
	why := ""
	if !within(patience, func() bool {
		if !get("/healthd/hosts", &hs) {
			why = "no answer"
			return false
		}
		seen := map[string]int{}
		for _, h := range hs.Hosts {
			seen[h.HostPort] = h.LastCode
		}
		for _, hp := range append(append([]string{}, hps...), self) {
			if seen[hp] != 200 {
				why = fmt.Sprintf("host %s has code %d in %v", hp, seen[hp], seen)
				return false
			}
		}
		if len(seen) != n+1 {
			why = fmt.Sprintf("hosts %v", seen)
			return false
		}
		return true
	}) {
		c.Failf("healthd command monitoring %v and itself (%s): %s", hps, self, why)
		return
	}
	var ag struct {
		Aggregations []*model.WireAgg `json:"aggregations"`
	}
	if !within(patience, func() bool {
		if !get("/healthd/aggregations", &ag) {
			why = "no answer"
			return false
		}
		why = "interval of the hosts' data is missing"
		for _, a := range ag.Aggregations {
			if !a.IntervalStart.Equal(start) {
				continue
			}
			why = total.Diff(a.Agg().Real(), model.Opts{NoGauges: true})
			if len(total.Jobs) == 0 {
				why = ""
			}
			return why == ""
		}
		return false
	}) {
		c.Failf("healthd command over %d hosts: combined data: %s", n, why)
		return
	}
	// its own instrumentation is in there too
	var jb struct {
		Jobs []*jobRow `json:"jobs"`
	}
	if !within(patience, func() bool {
		if !get("/healthd/jobs?sort=name", &jb) {
			return false
		}
		for _, j := range jb.Jobs {
			if j.Name == "poll" && j.Count > 0 {
				return true
			}
		}
		return false
	}) {
		c.Failf("healthd command: its own metrics do not appear among the jobs %v", jb.Jobs)
		return
	}
	for _, h := range hosts {
		h.mu.Lock()
		if h.n < 1 {
			c.Failf("host %s was not polled", h.addr)
		}
		h.mu.Unlock()
	}
	c.Count("healthds_checked", 1)

	// and healthtop shows it
	m, sl := openPty(50, 300)
	top := exec.Command(os.Getenv("VERIF_HEALTHTOP"), "jobs", "--source", api, "--name", "app.", "--sort", "name")
	top.Stdout, top.Stderr = sl, sl
	if err := top.Start(); err != nil {
		panic(err)
	}
	sl.Close()
	sc := &screen{}
	go sc.read(m)
	defer func() { top.Process.Kill(); top.Wait(); m.Close() }()
	names := total.JobNames()
	if !within(patience, func() bool {
		fs := sc.frames()
		if len(fs) < 2 || !strings.Contains(fs[len(fs)-2].status, "[success]") {
			why = "no screen"
			return false
		}
		t := fs[len(fs)-2].table
		why = fmt.Sprintf("table %q, want jobs %q", t, names)
		if len(t) != len(names)+1 {
			return false
		}
		for i, nm := range names {
			if t[i+1][0] != nm || t[i+1][1] != fmt.Sprint(total.Jobs[nm].Count) {
				return false
			}
		}
		return true
	}) {
		c.Failf("healthtop over healthd: %s", why)
		return
	}
	c.Count("chains_checked", 1)
}

func noEnv(c *kit.Case) {
	cmd := exec.Command(os.Getenv("VERIF_HEALTHD"))
	cmd.Env = []string{"PATH=/bin", "HEALTH_HOSTPORT=" + freePort(), "HEALTHD_SERVER_HOSTPORT=" + freePort()}
	done := make(chan error, 1)
	go func() { done <- cmd.Run() }()
	select {
	case err := <-done:
		if err == nil {
			c.Failf("healthd without hosts to monitor exits 0")
		}
	case <-time.After(patience):
		cmd.Process.Kill()
		c.Failf("healthd without hosts to monitor keeps running")
	}
}
