package props

import (
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/hired/gevulot/pkg/server"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C08: the proxy listens where the latest configuration says.

type c08Op struct {
	Op   string `json:"op"` // update, session, check, sleep, take (somebody else listens at the address), free (no longer)
	Addr string `json:"addr,omitempty"`
	N    int    `json:"n,omitempty"`
}

type c08Case struct {
	Ops    []c08Op       `json:"ops"`
	Delays []yield.Delay `json:"delays,omitempty"`
}

func genC08(t *rapid.T, env *core.Env) c08Case {
	var cs c08Case
	n := rapid.IntRange(1, 14).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := c08Op{Op: rapid.SampledFrom([]string{"update", "update", "update", "update", "update", "session", "check", "sleep", "free", "take"}).Draw(t, "op")}
		switch o.Op {
		case "update":
			// a..e: free addresses (a's port, a's host: ones that share a's port or host), any: on all interfaces, same: the address in force with another database URL parameter
			o.Addr = rapid.SampledFrom([]string{"a", "a", "b", "b", "c", "d", "e", "a's port", "a's port", "a's host", "name", "any", "six", "busy", "busy", "bad", "badport", "nohost", "foreign", "same"}).Draw(t, "addr")
		case "free", "take":
			o.Addr = rapid.SampledFrom([]string{"busy", "busy", "a", "b", "c", "a's host"}).Draw(t, "addr")
		case "sleep":
			o.N = rapid.SampledFrom([]int{20, 500, 3000}).Draw(t, "us")
		}
		cs.Ops = append(cs.Ops, o)
	}
	cs.Delays = core.GenDelays(t, env, 4)
	return cs
}

func runC08(c *core.Ctx, cs c08Case) error {
	db, err := sim.NewDB("")
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(db.Stop)
	addrs := map[string]string{"bad": "no address at all", "badport": "127.0.0.1:99999", "nohost": "127.0.0.1", "foreign": "192.0.2.77:5999"}
	bindable := map[string]bool{}
	for _, k := range []string{"a", "b", "c", "d", "e"} {
		h := ownHost(c)
		p, err := freePort(h)
		if err != nil {
			return inconcf("%v", err)
		}
		addrs[k] = fmt.Sprintf("%s:%d", h, p)
		bindable[k] = true
	}
	aHost, aPort, _ := net.SplitHostPort(addrs["a"])
	addrs["a's port"] = ownHost(c) + ":" + aPort
	if ln, err := net.Listen("tcp", addrs["a's port"]); err == nil {
		ln.Close()
		bindable["a's port"] = true
	}
	if p, err := freePort(aHost); err == nil && fmt.Sprint(p) != aPort {
		addrs["a's host"] = fmt.Sprintf("%s:%d", aHost, p)
		bindable["a's host"] = true
	} else {
		addrs["a's host"] = "bad:address:too"
	}
	busy, err := net.Listen("tcp", ownHost(c)+":0")
	if err != nil {
		return inconcf("%v", err)
	}
	addrs["busy"] = busy.Addr().String()
	others := map[string]net.Listener{"busy": busy} // somebody else listening
	c.Cleanup(func() {
		for _, ln := range others {
			ln.Close()
		}
	})
	// An address with a host name. Nobody else uses ports of this range, which is not the ephemeral one.
	unshared := func(host string) int {
		for i := 0; i < 100; i++ {
			p := 10000 + c.Shard%8*2000 + nextID()%2000
			if ln, err := net.Listen("tcp", fmt.Sprintf("%s:%d", host, p)); err == nil {
				ln.Close()
				return p
			}
		}
		return 0
	}
	lp, anyp := unshared("localhost"), unshared("")
	if lp == 0 || anyp == 0 || lp == anyp {
		return inconcf("no free port")
	}
	addrs["any"] = fmt.Sprintf(":%d", anyp)
	bindable["any"] = true
	addrs["six"] = "[::1]:bad"
	if p := unshared("[::1]"); p != 0 && p != lp && p != anyp {
		addrs["six"] = fmt.Sprintf("[::1]:%d", p)
		bindable["six"] = true
	}
	addrs["name"] = fmt.Sprintf("localhost:%d", lp)
	// "localhost" may be bound as 127.0.0.1 or ::1 by the standard library's choice.
	bindable["name"] = true
	nameAddrs := map[string]bool{fmt.Sprintf("127.0.0.1:%d", lp): true, fmt.Sprintf("[::1]:%d", lp): true}

	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	srv := server.NewServer(dist)
	start := runAsync("Start", srv.Start)
	c.Cleanup(func() {
		a := runAsync("Close", srv.Close)
		_ = await("return of Close", a.returned)
		dist.Close()
	})
	current, last := "", "" // keys: where it must listen; what the last update said
	updates, bursts := 0, 0
	var sessions []*sim.Session
	changes := 0

	mine := map[string]string{} // address as seen -> key
	for k := range bindable {
		if k != "name" && k != "any" {
			mine[addrs[k]] = k
		}
	}
	mine[fmt.Sprintf("[::]:%d", anyp)], mine[fmt.Sprintf("0.0.0.0:%d", anyp)] = "any", "any"
	for a := range nameAddrs {
		mine[a] = "name"
	}
	listening := func() string {
		var ks []string
		for a := range sim.Listening() {
			if k, ok := mine[a]; ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		return strings.Join(ks, "+")
	}
	check := func() error {
		if current == "" {
			core.Settle(20 * time.Millisecond)
			if l := listening(); l != "" {
				return violf("the proxy listens at %s although no update named it", l)
			}
			return nil
		}
		// Twice: it may listen there because it has not come to the later updates yet.
		for i := 0; i < 2; i++ {
			if err := await(fmt.Sprintf("listening at %s (%s) and nowhere else after %d updates", current, addrs[current], updates), func() bool { return listening() == current || start.returned() }); err != nil {
				if v, ok := err.(*core.Violation); ok {
					v.Msg = fmt.Sprintf("the proxy listens at %q instead of %q, the last address that could be bound\n%s", listening(), current, v.Msg)
				}
				return err
			}
			if i == 0 && bursts > 0 {
				core.Rest(20 * time.Second) // if it never is, it has had the time all the same
			}
		}
		if start.returned() {
			return violf("Start returned: %v", start.err)
		}
		for k := range bindable {
			if k == current || k == "name" || k == "any" || k == "six" {
				continue
			}
			if conn, err := net.DialTimeout("tcp", addrs[k], 10*time.Second); err == nil {
				conn.Close()
				return violf("the proxy still accepts connections at %s, an earlier address", addrs[k])
			}
		}
		s, err := establish(c, addrs[current], db, "app", estOpt{})
		if err != nil {
			return err
		}
		if err := alive(s); err != nil {
			return err
		}
		// It stays that way.
		core.Settle(10 * time.Millisecond)
		if l := listening(); l != current {
			return violf("the proxy listens at %q instead of %q, the last address that could be bound", l, current)
		}
		for _, s := range sessions {
			if err := alive(s); err != nil {
				return err
			}
		}
		if len(sessions) < 6 {
			sessions = append(sessions, s)
		}
		return nil
	}
	for _, o := range cs.Ops {
		switch o.Op {
		case "update":
			k := o.Addr
			if k == "same" {
				if last == "" {
					continue
				}
				k = last
			}
			cfg := &server.Config{Listen: addrs[k], DatabaseURL: fmt.Sprintf("%s?application_name=v%d", db.URL("app"), updates)}
			sent := false
			a := runAsync("update", func() error { src <- cfg; return nil })
			if err := await("the configuration update to be taken", func() bool { sent = a.returned(); return sent || start.returned() }); err != nil {
				return err
			}
			if start.returned() && !sent {
				return violf("Start returned: %v", start.err)
			}
			updates++
			bursts++
			last = k
			if bindable[k] && current != k {
				current = k
				changes++
			}
			c.Label("update:" + o.Addr)
		case "session":
			// Wherever it is accepted: only meaningful once things are in place.
			if err := check(); err != nil {
				return err
			}
			bursts = 0
		case "check":
			if err := check(); err != nil {
				return err
			}
			bursts = 0
		case "free":
			if others[o.Addr] == nil {
				continue
			}
			if err := check(); err != nil {
				return err
			}
			others[o.Addr].Close()
			delete(others, o.Addr)
			bindable[o.Addr], mine[addrs[o.Addr]] = true, o.Addr
			c.Label("an address became free")
		case "take":
			if !bindable[o.Addr] || current == o.Addr {
				continue
			}
			if err := check(); err != nil {
				return err
			}
			ln, err := net.Listen("tcp", addrs[o.Addr])
			if err != nil {
				return inconcf("cannot listen at %s: %v", addrs[o.Addr], err)
			}
			others[o.Addr] = ln
			delete(bindable, o.Addr)
			delete(mine, addrs[o.Addr])
			c.Label("an address was taken")
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Microsecond)
		}
		c.LabelIf(bursts > 1, "several updates in a row")
	}
	if err := check(); err != nil {
		return err
	}
	c.Labelf("changes of address:%d", changes)
	if updates > 0 {
		c.NonTrivial()
	}
	c.LabelIf(len(sessions) > 1 && changes > 1, "sessions across changes")
	return nil
}

// Addresses of one port that may or may not exclude each other.

type c08Overlap struct {
	Hosts []string `json:"hosts"` // the host of each update; the port is the same
}

func genC08Overlap(t *rapid.T, env *core.Env) c08Overlap {
	hosts := []string{"127.0.0.1", "127.0.0.2", "127.3.2.1", "0.0.0.0", "", "[::1]", "[::]", "localhost"}
	var cs c08Overlap
	for n := rapid.IntRange(2, 6).Draw(t, "n"); len(cs.Hosts) < n; {
		cs.Hosts = append(cs.Hosts, rapid.SampledFrom(hosts).Draw(t, "host"))
	}
	return cs
}

func runC08Overlap(c *core.Ctx, cs c08Overlap) error {
	db, err := sim.NewDB("")
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(db.Stop)
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	srv := server.NewServer(dist)
	start := runAsync("Start", srv.Start)
	c.Cleanup(func() {
		a := runAsync("Close", srv.Close)
		_ = await("return of Close", a.returned)
		dist.Close()
	})
	// Nobody else uses ports of this range.
	port := 0
	for i := 0; i < 100 && port == 0; i++ {
		p := 26000 + c.Shard%8*700 + nextID()%700
		if ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p)); err == nil {
			ln.Close()
			port = p
		}
	}
	if port == 0 {
		return inconcf("no free port")
	}
	seen := func(host string) []string { // how a listener at this host may show up
		switch host {
		case "", "0.0.0.0", "[::]": // all of them the same to the standard library
			return []string{fmt.Sprintf("[::]:%d", port), fmt.Sprintf("0.0.0.0:%d", port)}
		case "localhost":
			return []string{fmt.Sprintf("127.0.0.1:%d", port), fmt.Sprintf("[::1]:%d", port)}
		}
		return []string{fmt.Sprintf("%s:%d", host, port)}
	}
	listening := func() (out []string) {
		for a := range sim.Listening() {
			if strings.HasSuffix(a, fmt.Sprintf(":%d", port)) {
				out = append(out, a)
			}
		}
		return out
	}
	at := func(host string) bool {
		l := listening()
		for _, a := range seen(host) {
			if len(l) == 1 && l[0] == a {
				return true
			}
		}
		return false
	}
	var sessions []*sim.Session
	before := ""
	var known error
	for i, h := range cs.Hosts {
		// Can this address be bound while the proxy listens where it does?
		ln, err := net.Listen("tcp", fmt.Sprintf("%s:%d", h, port))
		if err == nil {
			ln.Close()
		}
		same := i > 0 && h == before
		excluded := err != nil && i > 0 && !same
		a := runAsync("update", func() error {
			src <- &server.Config{Listen: fmt.Sprintf("%s:%d", h, port), DatabaseURL: db.URL("app")}
			return nil
		})
		if err := await("the configuration update to be taken", func() bool { return a.returned() || start.returned() }); err != nil {
			return err
		}
		if excluded {
			// Either it manages to, or it stays where it was.
			for end := time.Now().Add(300 * time.Millisecond); time.Now().Before(end) && !at(h); {
				time.Sleep(5 * time.Millisecond)
			}
			if !at(h) && at(before) {
				c.Label("excluded by the address before")
				known = &core.Violation{Key: "overlapping-address", Msg: fmt.Sprintf("told to listen at %q instead of %q, the same port, the proxy goes on listening at the old address only", h, before)}
				h = before
			}
		}
		if err := await(fmt.Sprintf("listening at host %q of port %d and nowhere else (before: %q)", h, port, before), func() bool { return at(h) || start.returned() }); err != nil {
			if v, ok := err.(*core.Violation); ok {
				v.Msg = fmt.Sprintf("the proxy listens at %q\n%s", listening(), v.Msg)
			}
			return err
		}
		if start.returned() {
			return violf("Start returned: %v", start.err)
		}
		before = h
		s, err := establish(c, listening()[0], db, "app", estOpt{})
		if err != nil {
			return err
		}
		sessions = append(sessions, s)
		for _, s := range sessions {
			if err := alive(s); err != nil {
				return err
			}
		}
		c.NonTrivial()
	}
	return known
}

func init() {
	core.Register(&core.Prop{
		ID:   "C08",
		Rule: "a case is a sequence of configuration updates (five free addresses, a named one, busy ones, invalid ones, repetitions), addresses being taken and freed by somebody else in between, sent as fast as they are taken or with pauses, with sessions opened in between and delays inside the proxy; non-trivial = at least one update was sent and where the process listens was compared with the model. One port: updates that differ in the host only; every case that got past its first update counts" + patienceRule,
		Subs: []core.Sub{&core.Check[c08Case]{Name: "address changes", Quick: 1200, Thorough: 60000, Gen: genC08, Run: runC08, Delays: func(c c08Case) []yield.Delay { return c.Delays }},
			&core.Check[c08Overlap]{Name: "one port", Quick: 160, Thorough: 4000, Gen: genC08Overlap, Run: runC08Overlap},
			&core.Check[patienceConfig]{Name: "patience", Quick: 1, Thorough: 6, Aside: true, Gen: genPatienceConfig, Run: runC08Patience}},
	})
}
