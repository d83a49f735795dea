package props

import (
	"fmt"
	"io"
	"net"
	"runtime"
	"runtime/metrics"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
)

// C21: what a peer sends, however much, must not pile up in the proxy. A session that streams ever new names, texts and
// values, or ever new clients that come and go, leave the memory in use about where it was.

type c21Hoard struct {
	// Kinds of messages ("c:P" is Parse from the client), or of clients that come and go ("session:served").
	Kinds []string `json:"kinds"`
	Name  int      `json:"name"` // length of the ever new part
	N     int      `json:"n"`
}

// hoardKinds build a message around an ever new name.
var hoardKinds = map[string]func(name string) []byte{
	"c:P": func(s string) []byte {
		return pgwire.Frame('P', pgwire.I16(pgwire.CStr(pgwire.CStr(nil, s), "select 1"), 0))
	},
	"c:P text": func(s string) []byte {
		return pgwire.Frame('P', pgwire.I16(pgwire.CStr(pgwire.CStr(nil, ""), "select '"+s+"'"), 0))
	},
	"c:B": func(s string) []byte {
		return pgwire.Frame('B', pgwire.I16(pgwire.I16(pgwire.I16(pgwire.CStr(pgwire.CStr(nil, s), "s1"), 0), 0), 0))
	},
	"c:D": func(s string) []byte { return pgwire.Frame('D', pgwire.CStr([]byte{'S'}, s)) },
	"c:C": func(s string) []byte { return pgwire.Frame('C', pgwire.CStr([]byte{'P'}, s)) },
	"c:E": func(s string) []byte { return pgwire.Frame('E', pgwire.I32(pgwire.CStr(nil, s), 0)) },
	"c:Q": func(s string) []byte { return pgwire.Frame('Q', pgwire.CStr(nil, "prepare p"+s+" as select 1")) },
	"c:d": func(s string) []byte { return pgwire.Frame('d', []byte(s)) },
	"c:f": func(s string) []byte { return pgwire.Frame('f', pgwire.CStr(nil, s)) },
	"c:p": func(s string) []byte { return pgwire.Frame('p', pgwire.CStr(nil, s)) },
	"c:!": func(s string) []byte { return pgwire.Frame('!', []byte(s)) },
	"d:S": func(s string) []byte { return pgwire.Frame('S', pgwire.CStr(pgwire.CStr(nil, s), "on")) },
	"d:S value": func(s string) []byte {
		return pgwire.Frame('S', pgwire.CStr(pgwire.CStr(nil, "application_name"), s))
	},
	"d:A": func(s string) []byte {
		return pgwire.Frame('A', pgwire.CStr(pgwire.CStr(pgwire.I32(nil, 7), s), "x"))
	},
	"d:N": func(s string) []byte {
		return pgwire.Frame('N', append(pgwire.CStr(pgwire.CStr(nil, "SNOTICE"), "M"+s), 0))
	},
	"d:E": func(s string) []byte {
		return pgwire.Frame('E', append(pgwire.CStr(pgwire.CStr(nil, "SERROR"), "M"+s), 0))
	},
	"d:T": func(s string) []byte {
		return pgwire.Frame('T', append(pgwire.CStr(pgwire.I16(nil, 1), s), make([]byte, 18)...))
	},
	"d:D": func(s string) []byte {
		return pgwire.Frame('D', append(pgwire.I32(pgwire.I16(nil, 1), len(s)), s...))
	},
	"d:C": func(s string) []byte { return pgwire.Frame('C', pgwire.CStr(nil, s)) },
	"d:K": func(s string) []byte { return pgwire.Frame('K', []byte(s[len(s)-8:])) },
	"d:!": func(s string) []byte { return pgwire.Frame('!', []byte(s)) },
}

var hoardNames = []string{"c:P", "c:P text", "c:B", "c:D", "c:C", "c:E", "c:Q", "c:d", "c:f", "c:p", "c:!",
	"d:S", "d:S value", "d:A", "d:N", "d:E", "d:T", "d:D", "d:C", "d:K", "d:!"}

var hoardSessions = []string{"session:refused", "session:version", "session:served", "session:aborted", "session:ssl", "session:partial"}

func genC21Hoard(t *rapid.T, env *core.Env) c21Hoard {
	var cs c21Hoard
	if rapid.IntRange(0, 2).Draw(t, "sessions") == 0 {
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "nkinds"); i < n; i++ {
			cs.Kinds = append(cs.Kinds, rapid.SampledFrom(hoardSessions).Draw(t, "kind"))
		}
		cs.Name = rapid.SampledFrom([]int{4000, 8000}).Draw(t, "name")
		cs.N = 8000000 / cs.Name
	} else {
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nkinds"); i < n; i++ {
			cs.Kinds = append(cs.Kinds, rapid.SampledFrom(hoardNames).Draw(t, "kind"))
		}
		cs.Name = rapid.SampledFrom([]int{40, 500, 4000, 60000}).Draw(t, "name")
		cs.N = 16000000 / cs.Name
		if cs.N > 50000 {
			cs.N = 50000
		}
	}
	return cs
}

// hoardName is the i-th name: unlike any other, and of printable characters only.
func hoardName(i, n int) string {
	s := fmt.Sprintf("n%08x.", uint32(i)*2654435761)
	return strings.Repeat(s, n/len(s)+1)[:n-8] + fmt.Sprintf("%08d", i)
}

// liveHeap is the memory in use after a collection.
func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(m)
	return int64(m[0].Value.Uint64())
}

// streamed verifies on the fly that the bytes received are those of the given messages.
type streamed struct {
	gen  func(i int) []byte
	n, i int
	cur  []byte
	bad  string
	done bool
}

func (s *streamed) tap(b []byte) {
	for len(b) > 0 && s.bad == "" {
		if len(s.cur) == 0 {
			if s.i == s.n {
				s.bad = fmt.Sprintf("%d bytes more than were sent", len(b))
				return
			}
			s.cur = s.gen(s.i)
			s.i++
		}
		n := len(b)
		if n > len(s.cur) {
			n = len(s.cur)
		}
		if string(b[:n]) != string(s.cur[:n]) {
			s.bad = fmt.Sprintf("message %d of %d is not what was sent", s.i-1, s.n)
		}
		b, s.cur = b[n:], s.cur[n:]
	}
	s.done = s.i == s.n && len(s.cur) == 0
}

func runC21Hoard(c *core.Ctx, cs c21Hoard) error {
	if strings.HasPrefix(cs.Kinds[0], "session:") {
		return runC21HoardSessions(c, cs)
	}
	w, err := newWorld(c, "app", 0)
	if err != nil {
		return err
	}
	s, err := establish(c, w.px.Addr, w.db, "app", estOpt{})
	if err != nil {
		return err
	}
	wit, err := establish(c, w.px.Addr, w.db, "app", estOpt{})
	if err != nil {
		return err
	}
	witness := &witness{s: wit}
	// The kinds of each side in turn, in a stream of its own.
	type side struct {
		from, to *sim.Peer
		kinds    []string
		st       *streamed
	}
	sides := []*side{{from: s.Client, to: s.DB.Peer}, {from: s.DB.Peer, to: s.Client}}
	for _, k := range cs.Kinds {
		c.Label("kind:" + k)
		if k[0] == 'c' {
			sides[0].kinds = append(sides[0].kinds, k)
		} else {
			sides[1].kinds = append(sides[1].kinds, k)
		}
	}
	total := int64(0)
	for _, x := range sides {
		x := x
		if len(x.kinds) == 0 {
			x.st = &streamed{done: true}
			continue
		}
		gen := func(i int) []byte { return hoardKinds[x.kinds[i%len(x.kinds)]](hoardName(i, cs.Name)) }
		x.st = &streamed{gen: gen, n: cs.N}
		x.to.Tap(x.st.tap)
		for i := 0; i < len(x.kinds); i++ {
			total += int64(len(gen(i))) * int64(cs.N/len(x.kinds))
		}
	}
	before := liveHeap()
	var wg sync.WaitGroup
	for _, x := range sides {
		if len(x.kinds) == 0 {
			continue
		}
		wg.Add(1)
		go func(x *side) {
			defer wg.Done()
			var out []byte
			for i := 0; i < cs.N; i++ {
				if out = append(out, x.st.gen(i)...); len(out) >= 64<<10 || i == cs.N-1 {
					x.from.Send(out)
					out = nil
					if !x.from.AwaitRoom(512 << 10) {
						return
					}
				}
			}
		}(x)
	}
	state := func(x *side) (done bool, bad string) {
		x.to.Peek(func([]byte) { done, bad = x.st.done, x.st.bad })
		return done || bad != "" || x.to.Ended(), bad
	}
	if err := await("delivery of a long stream", func() bool {
		a, _ := state(sides[0])
		b, _ := state(sides[1])
		return a && b
	}); err != nil {
		return err
	}
	for _, x := range sides {
		if _, bad := state(x); bad != "" {
			return violf("%s", bad)
		}
		if x.to.Ended() {
			return violf("the proxy ended a session in the middle of a long stream: %v", x.to.EndErr())
		}
	}
	wg.Wait()
	if err := heldBelow(before, 3<<20+total/8, fmt.Sprintf("%d messages with %d bytes of ever new %q", cs.N, total, cs.Kinds)); err != nil {
		return err
	}
	witness.talk(1)
	if err := witness.check("next to a long stream"); err != nil {
		return err
	}
	c.NonTrivial()
	return nil
}

// heldBelow checks that the memory in use has not grown by more than limit (or shrinks to that shortly).
func heldBelow(before, limit int64, after string) error {
	var grown int64
	for end := time.Now().Add(20 * time.Second); ; {
		if grown = liveHeap() - before; grown <= limit {
			return nil
		}
		if time.Now().After(end) {
			return violf("%d bytes more are in use after %s (allowed: %d)", grown, after, limit)
		}
		time.Sleep(200 * time.Millisecond)
	}
}

func runC21HoardSessions(c *core.Ctx, cs c21Hoard) error {
	// A database that says it is ready and listens to what comes.
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(func() { ln.Close() })
	ready := pgwire.Frame('Z', []byte{'I'})
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				_, _ = conn.Write(ready)
				_, _ = io.Copy(io.Discard, conn)
			}()
		}
	}()
	px, err := sim.NewProxy(fmt.Sprintf("postgres://u@%s/app", ln.Addr()))
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(px.Shutdown)
	run := func(i int) error {
		kind := cs.Kinds[i%len(cs.Kinds)]
		conn, err := net.DialTimeout("tcp", px.Addr, 30*time.Second)
		if err != nil {
			return inconcf("%v", err)
		}
		defer conn.Close()
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		name := hoardName(i, cs.Name)
		pkt := pgwire.Startup(pgwire.Version3, []pgwire.KV{{K: "user", V: "u"}, {K: "database", V: "app"}, {K: "application_name", V: name}})
		var wait int64 // bytes to be read; -1: until the end
		switch kind {
		case "session:refused":
			pkt, wait = pgwire.Startup(pgwire.Version3, []pgwire.KV{{K: "user", V: "u"}, {K: "database", V: name}}), -1
		case "session:version":
			pkt, wait = pgwire.Startup(2<<16, []pgwire.KV{{K: "user", V: "u"}, {K: "database", V: name}}), -1
		case "session:ssl":
			pkt, wait = append(pgwire.SSLReq(), pkt...), 1+int64(len(ready))
		case "session:partial":
			pkt = pkt[:len(pkt)-1]
		default:
			wait = int64(len(ready))
		}
		if _, err := conn.Write(pkt); err != nil {
			return violf("a client of kind %s cannot send its start-up request: %v", kind, err)
		}
		switch {
		case wait > 0:
			if _, err := io.CopyN(io.Discard, conn, wait); err != nil {
				return violf("a client of kind %s does not get the database's answer: %v", kind, err)
			}
		case wait < 0:
			_, err := io.Copy(io.Discard, conn)
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return violf("a client of kind %s is neither served nor turned away", kind)
			}
		}
		if kind == "session:aborted" {
			_ = conn.(*net.TCPConn).SetLinger(0)
		}
		return nil
	}
	for i := 0; i < 32; i++ {
		if err := run(i); err != nil {
			return err
		}
	}
	before := liveHeap()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	const workers = 6
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 32 + k; i < 32+cs.N; i += workers {
				err := run(i)
				mu.Lock()
				if first == nil {
					first = err
				}
				stop := first != nil
				mu.Unlock()
				if stop {
					return
				}
			}
		}(k)
	}
	wg.Wait()
	for _, k := range cs.Kinds {
		c.Label("kind:" + k)
	}
	if first != nil {
		return first
	}
	if err := heldBelow(before, 2<<20+int64(cs.N*cs.Name)/8, fmt.Sprintf("%d clients of kinds %q with %d bytes of ever new names are gone", cs.N, cs.Kinds, cs.N*cs.Name)); err != nil {
		return err
	}
	c.NonTrivial()
	return nil
}
