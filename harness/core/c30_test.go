package core

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"example.com/verif/kit"
	"github.com/gocraft/health"
)

// The processes whose ids are collected are this binary, run again.
// VERIF_IDENT: "host NAME N" - a host (in namespaces of its own) that runs N more processes; "process" - one of those.
func init() {
	role, rest, _ := strings.Cut(os.Getenv("VERIF_IDENT"), " ")
	switch role {
	case "host":
		var name string
		var n int
		fmt.Sscanf(rest, "%s %d", &name, &n)
		if err := syscall.Sethostname([]byte(name)); err != nil {
			fmt.Println("UNAVAILABLE", err)
			os.Exit(0)
		}
		// pid 1 becomes a process of the host itself in the end
		together := n / 2
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i := 0; i < n; i++ {
			run := func() {
				cmd := exec.CommandContext(identCtx, "/proc/self/exe")
				cmd.Env = identEnv("process " + name)
				b, err := cmd.Output()
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					fmt.Println("BROKEN", err)
				}
				os.Stdout.Write(b)
			}
			if i < together {
				wg.Add(1)
				go func() { defer wg.Done(); run() }()
				continue
			}
			wg.Wait()
			run()
		}
		wg.Wait()
		if err := syscall.Exec("/proc/self/exe", []string{"x"}, identEnv("process "+name)); err != nil {
			fmt.Println("BROKEN", err)
		}
		os.Exit(0)
	case "process":
		identProcess(rest)
		os.Exit(0)
	}
}

func identEnv(role string) []string {
	e := []string{"VERIF_IDENT=" + role}
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "VERIF_") {
			e = append(e, v)
		}
	}
	return e
}

var identCtx, _ = context.WithTimeout(context.Background(), 5*time.Minute) //nolint

type ident struct {
	Host string
	Pid  int
	IDs  []string
}

// identProcess collects the ids this process gives of itself in the course of its life.
func identProcess(host string) {
	me := ident{Host: host, Pid: os.Getpid(), IDs: []string{health.Identifier}}
	sink := health.NewJsonPollingSink(time.Second, time.Minute)
	other := health.NewJsonPollingSink(time.Minute, time.Minute)
	ask := func(s *health.JsonPollingSink) {
		rw := httptest.NewRecorder()
		s.ServeHTTP(rw, httptest.NewRequest("GET", "/health", nil))
		var w struct {
			InstanceID string `json:"instance_id"`
		}
		if err := json.Unmarshal(rw.Body.Bytes(), &w); err != nil {
			w.InstanceID = "not JSON: " + err.Error()
		}
		me.IDs = append(me.IDs, w.InstanceID)
	}
	ask(sink)
	sink.EmitEvent("j", "e", nil)
	ask(other)
	os.Chdir("/")
	os.Setenv("HOSTNAME", "elsewhere")
	if me.Pid == 1 && host != "here" { // the last process of a host of our own
		syscall.Sethostname([]byte(host + "-renamed"))
	}
	ask(sink)
	time.Sleep(5 * time.Millisecond)
	ask(other)
	me.IDs = append(me.IDs, health.Identifier)
	b, _ := json.Marshal(me)
	fmt.Println(string(b))
}

func TestC30(t *testing.T) {
	kit.Run(t, "C30", func(r *kit.Rep) {
		r.Cases("processes", r.Pick(16, 160), c30)
	})
}

func c30(c *kit.Case) {
	g := c.Rng
	if _, n := g, c.N; n%8 == 7 { // on this host, without namespaces
		var wg sync.WaitGroup
		var mu sync.Mutex
		var all []ident
		for i, n := 0, 8+g.IntN(25); i < n; i++ {
			run := func() {
				cmd := exec.CommandContext(identCtx, "/proc/self/exe")
				cmd.Env = identEnv("process here")
				b, err := cmd.Output()
				if err != nil {
					panic("HARNESS: " + err.Error())
				}
				mu.Lock()
				defer mu.Unlock()
				all = append(all, parseIdents(c, b)...)
			}
			if i%2 == 0 {
				wg.Add(1)
				go func() { defer wg.Done(); run() }()
			} else {
				run()
			}
		}
		wg.Wait()
		all = append(all, ident{"here", os.Getpid(), []string{health.Identifier}})
		c.Sig("here", g.Uint64())
		checkIdents(c, all)
		return
	}
	// Containers: processes with the same small pids, told apart by their hosts' names.
	base := hostLike(g)
	names := []string{base, base + fmt.Sprint(1+g.IntN(2))}
	for i := 0; i < 3; i++ {
		switch g.IntN(6) {
		case 0:
			names = append(names, base+fmt.Sprint(1+g.IntN(3)))
		case 1:
			names = append(names, fmt.Sprint(1+g.IntN(3))+base)
		case 2:
			names = append(names, base+"."+fmt.Sprint(1+g.IntN(12)))
		case 3:
			names = append(names, strings.ToUpper(base))
		case 4:
			names = append(names, base+".example.com")
		default:
			names = append(names, hostLike(g))
		}
	}
	seen := map[string]bool{}
	var all []ident
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := 1 + g.IntN(26)
	for _, name := range names {
		if len(name) > 63 {
			name = name[len(name)-63:]
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.CommandContext(identCtx, "/proc/self/exe")
			cmd.Env = identEnv(fmt.Sprintf("host %s %d", name, n))
			cmd.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWUTS | syscall.CLONE_NEWPID,
				UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
				GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}}
			b, err := cmd.Output()
			mu.Lock()
			defer mu.Unlock()
			if err != nil || strings.Contains(string(b), "UNAVAILABLE") {
				c.Count("hosts_unavailable", 1)
				c.Tracef("no namespaces for host %s: %v %.200s", name, err, b)
				return
			}
			c.Count("hosts", 1)
			all = append(all, parseIdents(c, b)...)
		}()
	}
	wg.Wait()
	c.Sig(names, n)
	checkIdents(c, all)
}

func hostLike(g *rand.Rand) string {
	const a = "abcdefghijklmnopqrstuvwxyz0123456789-"
	n := 1 + g.IntN(12)
	if g.IntN(3) == 0 {
		n = 40 + g.IntN(23)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = a[g.IntN(len(a))]
	}
	b[0] = 'h'
	return string(b)
}

func parseIdents(c *kit.Case, b []byte) (l []ident) {
	sc := bufio.NewScanner(strings.NewReader(string(b)))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var i ident
		if err := json.Unmarshal(sc.Bytes(), &i); err != nil {
			panic(fmt.Sprintf("HARNESS: %v: %q", err, sc.Text()))
		}
		l = append(l, i)
	}
	return
}

func checkIdents(c *kit.Case, all []ident) {
	by := map[string]ident{}
	for _, i := range all {
		c.Tracef("%s pid %d: %q", i.Host, i.Pid, i.IDs[0])
		for _, x := range i.IDs {
			if x != i.IDs[0] || x == "" {
				c.Failf("process %d of host %s calls itself %q in the course of its life", i.Pid, i.Host, i.IDs)
				return
			}
		}
		if o, ok := by[i.IDs[0]]; ok {
			c.Failf("process %d of host %s and process %d of host %s are both called %q", o.Pid, o.Host, i.Pid, i.Host, i.IDs[0])
			return
		}
		by[i.IDs[0]] = i
		c.Count("processes", 1)
	}
	c.Count("pairs_told_apart", len(all)*(len(all)-1)/2)
}
