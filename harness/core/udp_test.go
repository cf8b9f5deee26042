package core

import (
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
)

// udpRecv is a StatsD server: it records datagrams in order of arrival. It lives outside
// virtual time, and waiting for it does not let virtual time pass.
type udpRecv struct {
	conn  *net.UDPConn
	addr  string
	mu    sync.Mutex
	grams []string
	marks map[string]int // datagrams recorded before the mark
	nmark int
	own   *net.UDPConn
}

func newUDP() *udpRecv {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	c.SetReadBuffer(8 << 20)
	own, err := net.DialUDP("udp4", nil, c.LocalAddr().(*net.UDPAddr))
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	r := &udpRecv{conn: c, addr: c.LocalAddr().String(), own: own, marks: map[string]int{}}
	go func() {
		buf := make([]byte, 70000)
		me := own.LocalAddr().(*net.UDPAddr).Port
		for {
			n, from, err := c.ReadFromUDP(buf)
			if err != nil {
				return
			}
			r.mu.Lock()
			if from.Port == me {
				r.marks[string(buf[:n])] = len(r.grams)
			} else {
				r.grams = append(r.grams, string(buf[:n]))
			}
			r.mu.Unlock()
		}
	}()
	return r
}

func (r *udpRecv) close() {
	r.conn.Close()
	r.own.Close()
}

// nap really sleeps, also inside a bubble.
func nap(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	syscall.Nanosleep(&ts, nil)
}

// settle waits until whatever was sent before has been recorded.
func (r *udpRecv) settle() { r.mark()() }

// mark sends a marker; the function it returns waits for it and gives the datagrams recorded before it.
func (r *udpRecv) mark() func() []string {
	r.mu.Lock()
	r.nmark++
	m := fmt.Sprintf("mark%d", r.nmark)
	r.mu.Unlock()
	r.own.Write([]byte(m))
	return func() []string {
		for i := 0; i < 20000; i++ {
			r.mu.Lock()
			n, ok := r.marks[m]
			g := append([]string(nil), r.grams[:min(n, len(r.grams))]...)
			r.mu.Unlock()
			if ok {
				return g
			}
			nap(100 * time.Microsecond)
		}
		return nil
	}
}

func (r *udpRecv) all() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string(nil), r.grams...)
}

func countLines(grams []string) int {
	n := 0
	for _, g := range grams {
		n += strings.Count(g, "\n")
	}
	return n
}

// wait waits (in real time, generously) until n lines have arrived, then settles; it returns all datagrams so far.
func (r *udpRecv) wait(n int) []string {
	for i := 0; i < 15000; i++ {
		r.mu.Lock()
		k := countLines(r.grams)
		r.mu.Unlock()
		if k >= n {
			break
		}
		if i > 20 && i%100 == 50 && r.drops() > 0 {
			break
		}
		nap(200 * time.Microsecond)
	}
	r.settle()
	return r.all()
}

func (r *udpRecv) reset() {
	r.mu.Lock()
	r.grams = nil
	r.marks = map[string]int{}
	r.mu.Unlock()
}

// drops is how many datagrams the kernel threw away because we read too slowly.
func (r *udpRecv) drops() int {
	b, err := os.ReadFile("/proc/net/udp")
	if err != nil {
		return 0
	}
	port := fmt.Sprintf(":%04X", r.conn.LocalAddr().(*net.UDPAddr).Port)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 12 && strings.HasSuffix(f[1], port) {
			var d int
			fmt.Sscan(f[len(f)-1], &d)
			return d
		}
	}
	return 0
}

// splitLines checks every datagram's form and returns the lines without newlines.
func splitLines(grams []string) (lines []string, bad string) {
	for i, g := range grams {
		if len(g) == 0 || len(g) > 1440 {
			return lines, fmt.Sprintf("datagram %d has %d bytes", i, len(g))
		}
		if g[len(g)-1] != '\n' {
			return lines, fmt.Sprintf("datagram %d does not end in a newline: ...%q", i, g[max(0, len(g)-60):])
		}
		lines = append(lines, strings.Split(strings.TrimSuffix(g, "\n"), "\n")...)
	}
	return lines, ""
}
