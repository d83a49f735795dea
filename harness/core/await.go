package core

import (
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// G is one goroutine of the process.
type G struct {
	ID    string
	State string
	Stack string
}

var headRE = regexp.MustCompile(`^goroutine (\d+)(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\],]*)`)

// Goroutines returns all goroutines, the caller first.
func Goroutines() []G {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var gs []G
	for _, part := range strings.Split(string(buf), "\n\n") {
		m := headRE.FindStringSubmatch(part)
		if m == nil {
			continue
		}
		gs = append(gs, G{ID: m[1], State: m[2], Stack: part})
	}
	return gs
}

// blocked states: left only through the action of another goroutine or of the network.
func blockedState(s string) bool {
	s = strings.TrimSuffix(s, " (durable)")
	switch s {
	case "IO wait", "chan receive", "chan send", "select", "select (no cases)", "chan receive (nil chan)", "chan send (nil chan)",
		"semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "sync.Cond.Wait", "finalizer wait", "cleanup wait", "force gc (idle)":
		return true
	}
	return false
}

// Snapshot summarises goroutines; quiescent means nobody but the caller can run.
func snapshot() (sig string, quiescent bool) {
	gs := Goroutines()
	quiescent = true
	var parts []string
	for i, g := range gs {
		if i == 0 {
			continue // ourselves
		}
		if strings.Contains(g.Stack, "os/signal.signal_recv") || strings.Contains(g.Stack, "os/signal.loop") {
			continue
		}
		if !blockedState(g.State) {
			quiescent = false
		}
		st := g.Stack
		if j := strings.IndexByte(st, '\n'); j >= 0 {
			st = st[j:]
		}
		parts = append(parts, g.ID+"|"+g.State+"|"+st)
	}
	sort.Strings(parts)
	return strings.Join(parts, "\x00"), quiescent
}

// TargetGoroutines returns the stacks of goroutines executing (or started by) the code under test.
func TargetGoroutines() []G {
	var out []G
	for _, g := range Goroutines() {
		if strings.Contains(g.Stack, "github.com/hired/gevulot/pkg/") {
			out = append(out, g)
		}
	}
	return out
}

// Timing of Await.
var (
	QuietFor = 5 * time.Second
	// For what does not happen although the process is busy.
	GiveUpAfter = 100 * time.Second
	Patience    = 300 * time.Second // as long as bytes still arrive
)

// Progress counts bytes that arrived at a simulated peer.
var Progress atomic.Int64

// Hang is the violation reported when everything is blocked forever.
func hangReport(what string) error {
	var b strings.Builder
	n := 0
	for _, g := range TargetGoroutines() {
		if n++; n > 12 {
			break
		}
		lines := strings.Split(g.Stack, "\n")
		if len(lines) > 9 {
			lines = lines[:9]
		}
		b.WriteString(strings.Join(lines, "\n") + "\n")
	}
	return Violationf("hang: %s never happens (every goroutine of the process is blocked for good)\ngoroutines in gevulot:\n%s%s", what, b.String(), rest())
}

// rest describes the simulated peers and the connections of the process.
func rest() string {
	var b strings.Builder
	b.WriteString("goroutines of the peers:\n")
	for _, g := range Goroutines() {
		if strings.Contains(g.Stack, "gevulotverif/sim.(*Peer)") && b.Len() < 3000 {
			for _, l := range strings.Split(g.Stack, "\n") {
				if strings.HasPrefix(l, "goroutine ") || strings.Contains(l, "/sim/") {
					b.WriteString(strings.TrimSpace(l) + "\n")
				}
			}
		}
	}
	b.WriteString("connections (local, remote, state, unacknowledged:unread, timer):\n")
	for _, c := range connections() {
		b.WriteString(strings.Join(c[1:7], " ") + "\n")
	}
	return b.String()
}

// Await waits until cond holds. If the whole process comes to rest first, that is a hang (a violation).
func Await(what string, cond func() bool) error {
	for i := 0; i < 50; i++ {
		if cond() {
			return nil
		}
		runtime.Gosched()
	}
	start := time.Now()
	step := 50 * time.Microsecond
	for time.Since(start) < 1500*time.Millisecond {
		if cond() {
			return nil
		}
		time.Sleep(step)
		if step < 2*time.Millisecond {
			step += step / 4
		}
	}
	var last string
	var since time.Time
	moved, movedAt := Progress.Load(), start
	var overslept time.Duration
	naps, confirmed, heldUp := 0, 0, false
	for time.Since(start) < Patience {
		if cond() {
			return nil
		}
		sig, q := snapshot()
		now := time.Now()
		if p := Progress.Load(); p != moved {
			moved, movedAt = p, now
			last = ""
		}
		if now.Sub(movedAt) >= GiveUpAfter {
			if overslept/time.Duration(naps) > 100*time.Millisecond {
				break // the machine is too busy for a verdict
			}
			return Violationf("hang: %s did not happen within %v in which nothing was relayed, although the process is not at rest\n%s", what, GiveUpAfter, busy())
		}
		if !q || sig != last {
			last, since = sig, now
			confirmed, heldUp = 0, false
			if !q {
				last = ""
			}
		} else if now.Sub(since) >= QuietFor {
			if cond() {
				return nil
			}
			if kernelPending() {
				if now.Sub(movedAt) >= 20*time.Second {
					return &Artifact{what + " did not happen because the kernel held up a connection"}
				}
				heldUp = true
				time.Sleep(100 * time.Millisecond)
				continue
			}
			// Once more, as the kernel may be between two attempts, or may have been until just now.
			if confirmed++; confirmed < 10 || heldUp && confirmed < 40 {
				time.Sleep(100 * time.Millisecond)
				continue
			}
			return hangReport(what)
		}
		nap := time.Now()
		time.Sleep(50 * time.Millisecond)
		overslept += time.Since(nap) - 50*time.Millisecond
		naps++
	}
	return Inconclusivef("%s did not happen within %v, but the process is not at rest either\n%s", what, time.Since(start), busy())
}

// busy describes the goroutines that are not blocked and whether the kernel has work to do.
func busy() string {
	var b strings.Builder
	for i, g := range Goroutines() {
		if i > 0 && !blockedState(g.State) && b.Len() < 3000 {
			l := strings.Split(g.Stack, "\n")
			if len(l) > 7 {
				l = l[:7]
			}
			b.WriteString(strings.Join(l, "\n") + "\n")
		}
	}
	if kernelPending() {
		b.WriteString("the kernel has something to retransmit\n")
	}
	return b.String()
}

// Settle waits until the process is at rest for a moment (used to reach interesting states, never for a verdict).
func Settle(max time.Duration) {
	deadline := time.Now().Add(max)
	var last string
	same := 0
	for time.Now().Before(deadline) {
		sig, q := snapshot()
		if q && sig == last {
			if same++; same >= 3 {
				return
			}
		} else {
			same = 0
		}
		last = sig
		if !q {
			last = ""
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// Rest waits until the process has been at rest for several samples in a row: nothing is on its way any more. It tells
// whether that happened within max.
func Rest(max time.Duration) bool {
	deadline := time.Now().Add(max)
	last, same := "", 0
	for time.Now().Before(deadline) {
		sig, q := snapshot()
		if q && sig == last {
			if same++; same >= 5 {
				return true
			}
		} else {
			same = 0
		}
		last = sig
		if !q {
			last = ""
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}

// TargetIDs is the set of goroutines currently in the code under test.
func TargetIDs() map[string]bool {
	m := map[string]bool{}
	for _, g := range TargetGoroutines() {
		m[g.ID] = true
	}
	return m
}

// NewTarget lists goroutines in the code under test that are not in before.
func NewTarget(before map[string]bool) []G {
	var out []G
	for _, g := range TargetGoroutines() {
		if !before[g.ID] {
			out = append(out, g)
		}
	}
	return out
}

// AwaitGone waits until no goroutine of the code under test is left beyond those in before.
func AwaitGone(what string, before map[string]bool) error {
	return Await(what, func() bool { return len(NewTarget(before)) == 0 })
}

// kernelPending tells whether the kernel itself holds up a TCP connection of this process: one end has bytes under way
// although the other end has read everything that arrived. (Linux loses acknowledgements of a peer whose receive window
// shrank below what was already sent to it, and backs off.) Nobody in the process can be blamed for that.
func kernelPending() bool {
	rx := map[string]bool{} // local+remote address -> nothing unread
	tx := map[string]bool{} // remote+local address -> something under way
	for _, c := range connections() {
		l, r := shortAddr(c[1]), shortAddr(c[2])
		if strings.HasSuffix(c[4], ":00000000") {
			rx[l+" "+r] = true
		}
		if !strings.HasPrefix(c[4], "00000000:") {
			tx[r+" "+l] = true
		}
	}
	for k := range tx {
		if rx[k] {
			return true
		}
	}
	return false
}

// connections are the TCP connections of this process: sl local remote st tx:rx tr:when retrnsmt uid timeout inode.
func connections() (out [][]string) {
	inodes := map[string]bool{}
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, fd := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			inodes[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(b), "\n") {
			if c := strings.Fields(line); len(c) >= 10 && inodes[c[9]] && c[3] != "0A" {
				out = append(out, c)
			}
		}
	}
	return out
}

// shortAddr drops the IPv6 mapping of an IPv4 address, as one end may have it and the other not.
func shortAddr(s string) string { return strings.TrimPrefix(s, "0000000000000000FFFF0000") }

// Artifact says that a case came to nothing because the kernel held up a connection; it is neither a pass nor a failure.
type Artifact struct{ Msg string }

func (e *Artifact) Error() string { return "inconclusive: " + e.Msg }
