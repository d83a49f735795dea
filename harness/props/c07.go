package props

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hired/gevulot/pkg/server"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C07: the server can be closed at any moment.

type c07Op struct {
	Op   string `json:"op"` // start, serve, lnclose, client, update, close, distclose, sourceclose, sleep, settle
	Kind string `json:"kind,omitempty"`
	N    int    `json:"n,omitempty"`
}

type c07Case struct {
	Config bool          `json:"config"` // there is a configuration from the beginning
	DB     string        `json:"db"`     // up, hung, refused
	Ops    []c07Op       `json:"ops"`
	After  []c07Op       `json:"after"` // after the last close: start, serve, serveconn, update, close
	Delays []yield.Delay `json:"delays,omitempty"`
}

func genC07(t *rapid.T, env *core.Env) c07Case {
	cs := c07Case{
		Config: rapid.IntRange(0, 4).Draw(t, "config") != 0,
		DB:     rapid.SampledFrom([]string{"up", "up", "up", "hung", "refused"}).Draw(t, "db"),
	}
	op := func() c07Op {
		o := c07Op{Op: rapid.SampledFrom([]string{"start", "serve", "client", "client", "client", "client", "update", "update", "sleep", "settle", "settle", "start", "distclose", "sourceclose", "lnclose"}).Draw(t, "op")}
		switch o.Op {
		case "client":
			o.Kind = rapid.SampledFrom([]string{"idle", "partial", "ssl", "startup", "startup", "stalled", "stalleddb", "streaming", "wrongdb"}).Draw(t, "kind")
		case "update":
			o.Kind = rapid.SampledFrom([]string{"listen", "listen", "db", "bad", "busy"}).Draw(t, "kind")
			o.N = rapid.IntRange(1, 3).Draw(t, "times")
		case "sleep":
			o.N = rapid.SampledFrom([]int{50, 300, 2000, 8000}).Draw(t, "us")
		case "distclose", "sourceclose":
			if rapid.IntRange(0, 2).Draw(t, "really") != 0 {
				o.Op = "settle"
			}
		}
		return o
	}
	cs.Ops = append(cs.Ops, c07Op{Op: rapid.SampledFrom([]string{"start", "start", "serve"}).Draw(t, "first")})
	if rapid.Bool().Draw(t, "settlefirst") {
		cs.Ops = append(cs.Ops, c07Op{Op: "settle"})
	}
	for i, n := 0, rapid.IntRange(0, 8).Draw(t, "before"); i < n; i++ {
		cs.Ops = append(cs.Ops, op())
	}
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "closes"); i < n; i++ {
		at := len(cs.Ops)
		if rapid.IntRange(0, 2).Draw(t, "anywhere") == 0 {
			at = rapid.IntRange(0, len(cs.Ops)).Draw(t, "at")
		}
		cs.Ops = append(cs.Ops[:at:at], append([]c07Op{{Op: "close"}}, cs.Ops[at:]...)...)
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "rest"); i < n; i++ {
		cs.Ops = append(cs.Ops, op())
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "after"); i < n; i++ {
		cs.After = append(cs.After, c07Op{Op: rapid.SampledFrom([]string{"start", "serve", "serveconn", "update", "close"}).Draw(t, "afterop")})
	}
	cs.Delays = core.GenDelays(t, env, 5)
	return cs
}

// asyncCall is a call running in a goroutine of its own.
type asyncCall struct {
	what string
	done int32
	err  error
}

func (a *asyncCall) returned() bool { return atomic.LoadInt32(&a.done) == 1 }

func runAsync(what string, f func() error) *asyncCall {
	a := &asyncCall{what: what}
	go func() {
		a.err = f()
		atomic.StoreInt32(&a.done, 1)
	}()
	return a
}

// freePort finds a port that is free at the given host.
func freePort(host string) (int, error) {
	ln, err := net.Listen("tcp", host+":0")
	if err != nil {
		return 0, err
	}
	defer ln.Close()
	return ln.Addr().(*net.TCPAddr).Port, nil
}

// ownHost returns a loopback address no other case uses at the same time.
func ownHost(c *core.Ctx) string {
	n := nextID()
	return fmt.Sprintf("127.%d.%d.%d", 20+c.Shard%100, n/250%250, n%250+1)
}

func runC07(c *core.Ctx, cs c07Case) error {
	c.HoldGC()
	before := core.TargetIDs()
	db, err := sim.NewDB("")
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(db.Stop)
	dbURL := db.URL("app")
	switch cs.DB {
	case "hung":
		bh, err := sim.NewBlackhole()
		if err != nil {
			return inconcf("%v", err)
		}
		c.Cleanup(bh.Close)
		dbURL = "postgres://" + bh.Addr + "/app"
	case "refused":
		dbURL = fmt.Sprintf("postgres://%s:1/app", ownHost(c))
	}
	host := ownHost(c)
	port, err := freePort(host)
	if err != nil {
		return inconcf("%v", err)
	}
	busy, err := net.Listen("tcp", ownHost(c)+":0")
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(func() { busy.Close() })
	addrs := []string{fmt.Sprintf("%s:%d", host, port)}
	listen := addrs[0]

	src := make(chan *server.Config, 64)
	if cs.Config {
		src <- &server.Config{Listen: listen, DatabaseURL: dbURL}
	}
	dist := server.NewConfigDistributor(src)
	srv := server.NewServer(dist)
	var closes, starts, serves []*asyncCall
	var clients []*sim.Peer
	var lns []net.Listener
	srcOpen, distOpen := true, true
	closeDist := func() *asyncCall {
		distOpen = false
		return runAsync("closing the configuration", func() error { dist.Close(); return nil })
	}
	var others []*asyncCall
	var mu sync.Mutex
	update := func(kind string) {
		if !srcOpen {
			return
		}
		cfg := &server.Config{Listen: listen, DatabaseURL: dbURL}
		switch kind {
		case "listen":
			h := ownHost(c)
			p, err := freePort(h)
			if err != nil {
				return
			}
			mu.Lock()
			listen = fmt.Sprintf("%s:%d", h, p)
			addrs = append(addrs, listen)
			mu.Unlock()
			cfg.Listen = listen
		case "bad":
			cfg.Listen = "127.0.0.1:notaport"
		case "busy":
			cfg.Listen = busy.Addr().String()
		case "db":
			cfg.DatabaseURL = fmt.Sprintf("%s?application_name=x%d", dbURL, nextID())
		}
		select {
		case src <- cfg:
		default:
		}
	}
	for _, o := range cs.Ops {
		switch o.Op {
		case "start":
			starts = append(starts, runAsync("Start", srv.Start))
		case "serve":
			h := ownHost(c)
			ln, err := net.Listen("tcp", h+":0")
			if err != nil {
				return inconcf("%v", err)
			}
			c.Cleanup(func() { ln.Close() })
			listen = ln.Addr().String()
			addrs = append(addrs, listen)
			lns = append(lns, ln)
			serves = append(serves, runAsync("Serve", func() error { return srv.Serve(ln) }))
		case "close":
			closes = append(closes, runAsync("Close", srv.Close))
		case "lnclose":
			// Whoever called Serve closes the listener himself.
			if len(lns) > 0 {
				lns[len(lns)-1].Close()
				c.Label("listener closed by the caller")
			}
		case "update":
			for i := 0; i < o.N; i++ {
				update(o.Kind)
			}
		case "distclose":
			others = append(others, closeDist())
			c.Label("configuration closed before the end")
		case "sourceclose":
			if srcOpen {
				srcOpen = false
				close(src)
			}
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Microsecond)
		case "settle":
			core.Settle(15 * time.Millisecond)
		case "client":
			// At whichever address accepts.
			var cl *sim.Peer
			for i := len(addrs) - 1; i >= 0 && cl == nil; i-- {
				cl, _ = sim.Dial(addrs[i])
			}
			if cl == nil {
				continue
			}
			c.Cleanup(cl.Stop)
			clients = append(clients, cl)
			c.Label("client:" + o.Kind)
			pkt := startup("app")
			switch o.Kind {
			case "idle":
			case "partial":
				cl.Send(pkt[:11])
			case "ssl":
				cl.Send(pgwire.SSLReq())
			case "wrongdb":
				cl.Send(startup("other"))
			case "startup":
				cl.Send(pkt)
				cl.Send(pgwire.Frame('Q', []byte("SELECT\x00")))
			default:
				cl.Send(pkt)
				var dc *sim.DBConn
				for i := 0; i < 40 && dc == nil; i++ {
					time.Sleep(time.Millisecond)
					dc = db.Find(pkt)
				}
				if dc == nil {
					continue
				}
				from, to := dc.Peer, cl
				if o.Kind == "stalleddb" {
					from, to = cl, dc.Peer
				}
				n := 30
				if o.Kind != "streaming" {
					to.Pause()
					n = 700
				}
				m := pgwire.Frame('d', make([]byte, 30000))
				for i := 0; i < n; i++ {
					from.Send(m)
				}
			}
		}
	}
	for _, a := range closes {
		if err := await("return of Close", a.returned); err != nil {
			return err
		}
	}
	c.LabelIf(len(closes) > 1, "concurrent closes")
	c.LabelIf(len(clients) > 0, "clients connected")
	for _, a := range append(append([]*asyncCall{}, starts...), append(serves, others...)...) {
		if err := await("return of "+a.what+" after the server was closed", a.returned); err != nil {
			return err
		}
	}
	ran := 0
	for _, a := range starts {
		switch {
		case errors.Is(a.err, server.ErrServerClosed):
			ran++
		case errors.Is(a.err, server.ErrServerAlreadyStarted) && len(starts) > 1:
		case errors.Is(a.err, server.ErrConfigDistributorClosed) && (!distOpen || !srcOpen):
		default:
			return violf("after Close, Start returned %v instead of %v", a.err, server.ErrServerClosed)
		}
	}
	// Nothing may be left behind.
	quiet := func() error {
		if err := await("closing of every listener", func() bool {
			ls := sim.Listening()
			for _, a := range addrs {
				if ls[a] {
					return false
				}
			}
			return true
		}); err != nil {
			return err
		}
		for _, cl := range clients {
			cl.Resume()
			// If a listener is closed in the middle of a handshake, Linux forgets the connection without telling the
			// client; a client that sends something learns about it. One byte is not enough to change what a live
			// session does.
			cl.Send([]byte{0})
			if err := await("closing of every client connection", cl.Ended); err != nil {
				return err
			}
		}
		for _, dc := range db.Conns() {
			dc.Resume()
			if err := await("closing of every database connection", dc.Ended); err != nil {
				return err
			}
		}
		return nil
	}
	if err := quiet(); err != nil {
		return err
	}
	for _, o := range cs.After {
		c.Label("afterwards:" + o.Op)
		switch o.Op {
		case "start":
			a := runAsync("Start", srv.Start)
			if err := await("return of Start on a closed server", a.returned); err != nil {
				return err
			}
			if !errors.Is(a.err, server.ErrServerClosed) {
				return violf("Start on a closed server returned %v", a.err)
			}
		case "serve":
			ln, err := net.Listen("tcp", ownHost(c)+":0")
			if err != nil {
				return inconcf("%v", err)
			}
			addrs = append(addrs, ln.Addr().String())
			c.Cleanup(func() { ln.Close() })
			a := runAsync("Serve", func() error { return srv.Serve(ln) })
			if err := await("return of Serve on a closed server", a.returned); err != nil {
				return err
			}
			if !errors.Is(a.err, server.ErrServerClosed) {
				return violf("Serve on a closed server returned %v", a.err)
			}
		case "serveconn":
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return inconcf("%v", err)
			}
			c.Cleanup(func() { ln.Close() })
			cl, err := sim.Dial(ln.Addr().String())
			if err != nil {
				return inconcf("%v", err)
			}
			c.Cleanup(cl.Stop)
			conn, err := ln.Accept()
			if err != nil {
				return inconcf("%v", err)
			}
			clients = append(clients, cl)
			a := runAsync("ServeConn", func() error { return srv.ServeConn(conn) })
			if err := await("return of ServeConn on a closed server", a.returned); err != nil {
				return err
			}
			if !errors.Is(a.err, server.ErrServerClosed) {
				return violf("ServeConn on a closed server returned %v", a.err)
			}
		case "update":
			update("listen")
			core.Settle(15 * time.Millisecond)
		case "close":
			a := runAsync("Close", srv.Close)
			if err := await("return of another Close", a.returned); err != nil {
				return err
			}
		}
	}
	if err := quiet(); err != nil {
		return err
	}
	if distOpen {
		a := closeDist()
		if err := await("return of closing the configuration", a.returned); err != nil {
			return err
		}
	}
	if err := core.AwaitGone("the end of everything the server started", before); err != nil {
		return err
	}
	if err := quiet(); err != nil {
		return err
	}
	c.LabelIf(ran > 0, "start call ran")
	c.LabelIf(len(clients) > 0 && cs.DB == "hung", "dial to the database hangs")
	if len(clients) > 0 || len(closes) > 1 || len(cs.After) > 0 {
		c.NonTrivial()
	}
	return nil
}

// What a closed server leaves behind may show only later.

type c07Later struct {
	Cases []c07Case `json:"cases"`
}

func genC07Later(t *rapid.T, env *core.Env) c07Later {
	var cs c07Later
	n := rapid.IntRange(1, 10).Draw(t, "n")
	for i := 0; i < n; i++ {
		cs.Cases = append(cs.Cases, genC07(t, env))
	}
	return cs
}

func runC07Later(c *core.Ctx, cs c07Later) error {
	for _, k := range cs.Cases {
		yield.Set(k.Delays)
		err := runC07(c, k)
		yield.Clear()
		if err != nil {
			return err
		}
	}
	before := core.TargetIDs()
	time.Sleep(5500 * time.Millisecond) // Close watches for five seconds
	if len(core.NewTarget(before)) > 0 {
		return core.AwaitGone("the end of everything a closed server started later", before)
	}
	c.NonTrivial()
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C07",
		Rule: "a case is a history of start and serve calls, clients in every phase of a session, configuration updates and one to four Close calls at generated places and with generated delays inside the proxy, followed by uses of the closed server; non-trivial = there were clients, several closes or later uses, and listeners, connections, goroutines and results were all checked; afterwards: 1 to 10 such histories, after which the process is observed for the five and a half seconds in which Close watches",
		Subs: []core.Sub{&core.Check[c07Case]{Name: "closing", Quick: 2400, Thorough: 80000, Gen: genC07, Run: runC07, Delays: func(c c07Case) []yield.Delay { return c.Delays }},
			&core.Check[c07Later]{Name: "afterwards", Quick: 16, Thorough: 400, Gen: genC07Later, Run: runC07Later}},
	})
}
