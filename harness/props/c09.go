package props

import (
	"bytes"
	"fmt"
	"time"

	"github.com/hired/gevulot/pkg/server"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C09: each new session uses the configuration in force when it starts.

type c09Op struct {
	Op   string `json:"op"`             // update, connect, start, send, race, end
	C    int    `json:"c,omitempty"`    // configuration: which database server
	Name string `json:"name,omitempty"` // database name
	S    int    `json:"s,omitempty"`    // client
	Kind string `json:"kind,omitempty"` // what a client sends on connecting: nothing, ssl, partial
}

type c09Case struct {
	Ops    []c09Op       `json:"ops"`
	Delays []yield.Delay `json:"delays,omitempty"`
}

func genC09(t *rapid.T, env *core.Env) c09Case {
	var cs c09Case
	n := rapid.IntRange(2, 16).Draw(t, "n")
	clients := 0
	names := []string{"app", "app", "two"}
	for i := 0; i < n; i++ {
		o := c09Op{Op: rapid.SampledFrom([]string{"update", "update", "connect", "connect", "start", "start", "start", "send", "race", "race", "end"}).Draw(t, "op")}
		switch o.Op {
		case "update", "race":
			o.C = rapid.IntRange(0, 4).Draw(t, "server")
			o.Name = rapid.SampledFrom(names).Draw(t, "name")
			if o.Op == "race" {
				o.Kind = rapid.SampledFrom([]string{"startfirst", "updatefirst"}).Draw(t, "order")
			}
		case "connect":
			o.S = clients
			clients++
			o.Kind = rapid.SampledFrom([]string{"nothing", "ssl", "partial"}).Draw(t, "kind")
		default:
			if clients == 0 {
				continue
			}
			o.S = rapid.IntRange(0, clients-1).Draw(t, "s")
		}
		cs.Ops = append(cs.Ops, o)
	}
	cs.Delays = core.GenDelays(t, env, 4)
	return cs
}

type c09Client struct {
	p       *sim.Peer
	name    string
	kind    string
	pkt     []byte
	started bool
	over    bool
	s       *sim.Session
}

type c09Route struct {
	db   *sim.DB
	name string
}

func runC09(c *core.Ctx, cs c09Case) error {
	// Servers 0, 1 and 2: different hosts, same port; 3: the host of 0, another port; 4: named by query parameters.
	var dbs []*sim.DB
	hosts := []string{ownHost(c), ownHost(c), ownHost(c)}
	d0, err := sim.NewDB(hosts[0])
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(d0.Stop)
	dbs = append(dbs, d0)
	for _, h := range hosts[1:] {
		d, err := sim.NewDBOpt(h, d0.Port, 0)
		if err != nil {
			d, err = sim.NewDB(h)
		}
		if err != nil {
			return inconcf("%v", err)
		}
		c.Cleanup(d.Stop)
		dbs = append(dbs, d)
	}
	d3, err := sim.NewDB(hosts[0])
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(d3.Stop)
	dbs = append(dbs, d3, d3)
	config := func(i int, name string) string {
		if i == 4 {
			return fmt.Sprintf("postgres://127.0.0.1:1/x?host=%s&port=%d&dbname=%s", d3.Host, d3.Port, name)
		}
		return dbs[i].URL(name)
	}
	px, err := sim.NewProxy(config(0, "app"))
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(px.Shutdown)
	cur := c09Route{dbs[0], "app"}
	var clients []*c09Client
	routed := 0

	connect := func(kind string) (*c09Client, error) {
		p, err := dial(px.Addr, 0, false)
		if err != nil {
			return nil, err
		}
		c.Cleanup(p.Stop)
		cl := &c09Client{p: p, kind: kind}
		return cl, nil
	}
	begin := func(cl *c09Client) {
		switch cl.kind {
		case "ssl":
			cl.p.Send(pgwire.SSLReq())
		case "partial":
			cl.p.Send(cl.pkt[:17])
		}
	}
	// outcome: which server got the request, or nil if it was refused.
	outcome := func(cl *c09Client, allowed []c09Route) error {
		var got *sim.DBConn
		if err := await("the outcome of a start-up request", func() bool {
			for _, d := range dbs {
				if x := d.Find(cl.pkt); x != nil {
					got = x
				}
			}
			return got != nil || cl.p.Ended()
		}); err != nil {
			return err
		}
		if got != nil && cl.kind == "ssl" {
			// Its refusal was sent before; let it arrive.
			if err := await("the answer to an SSL request", func() bool { return cl.p.Len() > 0 || cl.p.Ended() }); err != nil {
				return err
			}
		}
		var desc []string
		for _, r := range allowed {
			desc = append(desc, fmt.Sprintf("%q at %s:%d", r.name, r.db.Host, r.db.Port))
			if r.name == cl.name {
				if got != nil && got.DB == r.db {
					cl.s = &sim.Session{Client: cl.p, DB: got, Packet: cl.pkt}
					routed++
					return nil
				}
			} else if got == nil {
				r := cl.p.Received()
				if i := bytes.IndexByte(r, 'E'); i >= 0 && errorResponse(r[i:]) == nil {
					cl.over = true
					return nil
				}
				return violf("a refused client received %q instead of an error response", r)
			}
		}
		where := "was refused"
		if got != nil {
			where = fmt.Sprintf("went to %s:%d", got.DB.Host, got.DB.Port)
		}
		return violf("a start-up request for database %q %s while the configuration in force was %v", cl.name, where, desc)
	}
	start := func(cl *c09Client) {
		cl.started = true
		if cl.kind == "partial" {
			cl.p.Send(cl.pkt[17:])
		} else {
			cl.p.Send(cl.pkt)
		}
	}
	update := func(o c09Op) (c09Route, *asyncCall) {
		cfg := &server.Config{Listen: px.Addr, DatabaseURL: config(o.C, o.Name)}
		px.Src <- cfg
		return c09Route{dbs[o.C], o.Name}, runAsync("taking effect", func() error {
			for {
				g, err := px.Dist.Get()
				if err != nil || g == cfg {
					return err
				}
				time.Sleep(20 * time.Microsecond)
			}
		})
	}
	for i, o := range cs.Ops {
		switch o.Op {
		case "update":
			r, a := update(o)
			if err := await("a configuration update to take effect", a.returned); err != nil {
				return err
			}
			cur = r
			for _, cl := range clients {
				c.LabelIf(!cl.started, "client connected before an update")
				c.LabelIf(cl.s != nil && !cl.over, "session open across an update")
			}
		case "connect":
			cl, err := connect(o.Kind)
			if err != nil {
				return err
			}
			// Half of the clients want the one name, half the other.
			cl.name = []string{"app", "two"}[i%2]
			if i%3 == 0 {
				cl.name = cur.name
			}
			cl.pkt = startup(cl.name)
			begin(cl)
			clients = append(clients, cl)
		case "start":
			if o.S >= len(clients) || clients[o.S].started {
				continue
			}
			cl := clients[o.S]
			start(cl)
			if err := outcome(cl, []c09Route{cur}); err != nil {
				return err
			}
		case "race":
			cl, err := connect("nothing")
			if err != nil {
				return err
			}
			cl.name = o.Name
			if i%3 == 0 {
				cl.name = cur.name
			}
			cl.pkt = startup(cl.name)
			clients = append(clients, cl)
			old := cur
			var a *asyncCall
			if o.Kind == "startfirst" {
				start(cl)
				cur, a = update(o)
			} else {
				cur, a = update(o)
				start(cl)
			}
			if err := outcome(cl, []c09Route{old, cur}); err != nil {
				return err
			}
			if err := await("a configuration update to take effect", a.returned); err != nil {
				return err
			}
			c.Label("start-up racing an update")
		case "send":
			if o.S >= len(clients) || clients[o.S].s == nil || clients[o.S].over {
				continue
			}
			if err := alive(clients[o.S].s); err != nil {
				return err
			}
		case "end":
			if o.S >= len(clients) || clients[o.S].over {
				continue
			}
			clients[o.S].over = true
			clients[o.S].started = true
			clients[o.S].p.HalfClose()
		}
	}
	for _, cl := range clients {
		if !cl.started {
			start(cl)
			if err := outcome(cl, []c09Route{cur}); err != nil {
				return err
			}
		}
		if cl.s != nil && !cl.over {
			if err := alive(cl.s); err != nil {
				return err
			}
		}
	}
	// Nobody got anything else.
	for _, d := range dbs {
		for _, x := range d.Conns() {
			if x.Len() == 0 {
				continue
			}
			ok := false
			for _, cl := range clients {
				ok = ok || cl.s != nil && cl.s.DB == x
			}
			if !ok && x.Startup() != nil {
				return violf("the database at %s:%d received a start-up request it should not have got: %q", d.Host, d.Port, x.Received())
			}
		}
	}
	if routed > 0 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C09",
		Rule: "a case is a history of database URL updates (five servers on different hosts and ports, two names), clients connecting, sending part of their start-up, starting (also racing an update), exchanging messages and leaving; non-trivial = at least one session was routed, and every outcome was compared with the configurations in force" + patienceRule,
		Subs: []core.Sub{&core.Check[c09Case]{Name: "database switches", Quick: 2400, Thorough: 80000, Gen: genC09, Run: runC09, Delays: func(c c09Case) []yield.Delay { return c.Delays }},
			&core.Check[patienceConfig]{Name: "patience", Quick: 1, Thorough: 6, Aside: true, Gen: genPatienceConfig, Run: runC09Patience}},
	})
}
