package props

import (
	"fmt"
	"time"

	"github.com/hired/gevulot/pkg/server"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
)

// Patience: what holds must not stop holding because time passes. These cases mostly wait, and so run in a process of
// their own next to the others.

// patienceSeconds is how long a case waits: longer than the usual time limits (5, 10, 15, 30 and 60 seconds).
func patienceSeconds(t *rapid.T, env *core.Env) int {
	if env.Tier == "thorough" {
		return rapid.SampledFrom([]int{66, 95, 130, 190, 310, 610}).Draw(t, "seconds")
	}
	return rapid.IntRange(63, 68).Draw(t, "seconds")
}

// holdOut waits, calling watch every now and then.
func holdOut(seconds int, watch func() error) error {
	for end := time.Now().Add(time.Duration(seconds) * time.Second); time.Now().Before(end); {
		if err := watch(); err != nil {
			return err
		}
		time.Sleep(100 * time.Millisecond)
	}
	return nil
}

type patienceSession struct {
	Kind  string `json:"kind"`
	Size  int    `json:"size,omitempty"`     // of messages
	Every int    `json:"every_ms,omitempty"` // trickles
	Fill  int    `json:"fill,omitempty"`
}

type patienceCase struct {
	Seconds  int               `json:"seconds"`
	Sessions []patienceSession `json:"sessions"`
}

func genPatience(kinds ...string) func(t *rapid.T, env *core.Env) patienceCase {
	return func(t *rapid.T, env *core.Env) patienceCase {
		cs := patienceCase{Seconds: patienceSeconds(t, env)}
		for _, k := range kinds {
			cs.Sessions = append(cs.Sessions, patienceSession{
				Kind:  k,
				Size:  rapid.SampledFrom([]int{12, 50, 700, 5000, 20000}).Draw(t, "size"),
				Every: rapid.SampledFrom([]int{300, 1000, 2500, 7000, 16000}).Draw(t, "every"),
				Fill:  rapid.IntRange(0, 255).Draw(t, "fill"),
			})
		}
		return cs
	}
}

// waiting is one session of the case.
type waiting struct {
	name   string
	watch  func() error // during the wait
	finish func() error // after it
}

// flow is what was sent one way, and what has to arrive.
type flow struct {
	from, to *sim.Peer
	base     int
	want     []byte
	n        int
	what     string
}

func newFlow(from, to *sim.Peer, what string) *flow {
	return &flow{from: from, to: to, base: int(to.Len()), what: what}
}

func (f *flow) msg(size, fill int) []byte {
	f.n++
	b := make([]byte, size)
	fillPattern(b, fill+f.n)
	copy(b, fmt.Sprintf("%d|", f.n))
	return pgwire.Frame("dDQHSB!1"[(f.n+fill)%8], b)
}

func (f *flow) send(b []byte) {
	f.want = append(f.want, b...)
	f.from.Send(b)
}

// arrived checks that everything sent has arrived, and nothing else.
func (f *flow) arrived() error {
	if err := await("delivery "+f.what, func() bool { return int(f.to.Len()) >= f.base+len(f.want) || f.to.Ended() }); err != nil {
		return err
	}
	got := f.to.Received()[f.base:]
	if len(got) < len(f.want) {
		return violf("%s: the connection ended (%v) after %d of %d bytes", f.what, f.to.EndErr(), len(got), len(f.want))
	}
	return prefixErr("received "+f.what, got, f.want)
}

func runPatience(c *core.Ctx, cs patienceCase) error {
	w, err := newWorld(c, "app", 0)
	if err != nil {
		return err
	}
	start := time.Now()
	var ws []*waiting
	for _, k := range cs.Sessions {
		x, err := prepare(c, w, k)
		if err != nil {
			return err
		}
		ws = append(ws, x)
		c.Label(k.Kind)
	}
	if err := holdOut(cs.Seconds, func() error {
		for _, x := range ws {
			if err := x.watch(); err != nil {
				return after(err, x.name, start)
			}
		}
		return nil
	}); err != nil {
		return err
	}
	for _, x := range ws {
		if err := x.finish(); err != nil {
			return after(err, x.name, start)
		}
	}
	s, err := establish(c, w.px.Addr, w.db, "app", estOpt{})
	if err == nil {
		err = alive(s)
	}
	if err != nil {
		return after(err, "a new session", start)
	}
	c.NonTrivial()
	return nil
}

func after(err error, name string, start time.Time) error {
	if v, ok := err.(*core.Violation); ok {
		v.Msg = fmt.Sprintf("%s, after %.0f s: %s", name, time.Since(start).Seconds(), v.Msg)
	}
	return err
}

// prepare brings a session into the state in which it is to wait.
func prepare(c *core.Ctx, w *world, k patienceSession) (*waiting, error) {
	x := &waiting{name: k.Kind}
	// Sessions that have not started yet.
	pkt := startup("app")
	var before [][]byte // sent one after the other
	switch k.Kind {
	case "nothing sent":
		before = [][]byte{pkt}
	case "half a start-up request":
		n := 1 + k.Fill%(len(pkt)-1)
		before = [][]byte{pkt[:n], pkt[n:]}
	case "an SSL request":
		before = [][]byte{pgwire.SSLReq(), pkt}
	case "half an SSL request":
		n := 1 + k.Fill%7
		before = [][]byte{pgwire.SSLReq()[:n], append(pgwire.SSLReq()[n:], pkt...)}
	}
	if before != nil {
		cl, err := dial(w.px.Addr, 0, false)
		if err != nil {
			return nil, err
		}
		c.Cleanup(cl.Stop)
		refusals := 0
		if len(before) == 2 {
			cl.Send(before[0])
		}
		if k.Kind == "an SSL request" || k.Kind == "half an SSL request" {
			refusals = 1
		}
		x.watch = func() error {
			if cl.Ended() {
				return violf("the proxy hung up on a client that had not sent its start-up request yet (%v)", cl.EndErr())
			}
			return nil
		}
		x.finish = func() error {
			cl.Send(before[len(before)-1])
			s := &sim.Session{Client: cl, Packet: pkt}
			if err := await("delivery of the start-up request to the database", func() bool {
				s.DB = w.db.Find(pkt)
				return s.DB != nil || cl.Ended()
			}); err != nil {
				return err
			}
			if s.DB == nil {
				return violf("the proxy hung up on a client that was slow to send its start-up request (%v)", cl.EndErr())
			}
			if err := await("the refusal of SSL", func() bool { return int(cl.Len()) >= refusals || cl.Ended() }); err != nil {
				return err
			}
			if r := cl.Received(); string(r) != "N"[:refusals] {
				return violf("the client received %q", r)
			}
			return alive(s)
		}
		return x, nil
	}

	buf := 0
	switch k.Kind {
	case "stalled down, trickle up", "stalled up, trickle down", "held down", "held up", "database left a slow client", "client left a slow database":
		buf = 65536
	}
	s, err := establish(c, w.px.Addr, w.db, "app", estOpt{buf: buf})
	if err != nil {
		return nil, err
	}
	up, down := newFlow(s.Client, s.DB.Peer, "from the client"), newFlow(s.DB.Peer, s.Client, "from the database")
	running := func() error {
		if s.Client.Ended() || s.DB.Ended() {
			return violf("the session has ended although nobody hung up (client: %v, database: %v)", s.Client.EndErr(), s.DB.EndErr())
		}
		return nil
	}
	x.watch = running
	both := func() error {
		for i := 0; i < 3; i++ {
			up.send(up.msg(k.Size, k.Fill))
			down.send(down.msg(k.Size, k.Fill+100))
		}
		if err := up.arrived(); err != nil {
			return err
		}
		if err := down.arrived(); err != nil {
			return err
		}
		return running()
	}
	trickle := func(f *flow) func() error {
		var last time.Time
		return func() error {
			if now := time.Now(); now.Sub(last) >= time.Duration(k.Every)*time.Millisecond {
				last = now
				// One at a time: the one before must have arrived.
				if err := f.arrived(); err != nil {
					return err
				}
				f.send(f.msg(k.Size, k.Fill))
			}
			return running()
		}
	}
	// stall fills the way from p to q, which does not read, and drain checks that all of it arrives later.
	stall := func(p, q *sim.Peer) (b *bulk, watch, drain func() error, err error) {
		b = &bulk{typ: 'd', size: 32 << 10}
		room := kernelRoom() + c22Queue/2*int64(b.frameLen())
		b.n = int((room + 10<<20) / int64(b.frameLen()))
		bad := b.receive(q)
		base := q.Len()
		q.Pause()
		go b.stream(p)
		last, since := int64(-1), time.Now()
		for begin := time.Now(); time.Since(since) < 400*time.Millisecond && time.Since(begin) < 60*time.Second; time.Sleep(20 * time.Millisecond) {
			if n := p.Sent(); n != last {
				last, since = n, time.Now()
			}
		}
		watch = func() error {
			if ahead := p.Sent() - (q.Len() - base); ahead > room {
				return violf("the proxy went on accepting messages for a receiver that does not read: %d bytes", ahead)
			}
			return nil
		}
		drain = func() error {
			q.Resume()
			if err := await("delivery of everything after the receiver resumed reading", func() bool {
				return q.Len()-base >= b.total() || q.Ended() || bad() != ""
			}); err != nil {
				return err
			}
			if m := bad(); m != "" {
				return violf("what arrived after the stall is not what was sent: %s", m)
			}
			if q.Len()-base < b.total() {
				return violf("only %d of %d bytes arrived after the stall before the proxy ended the session (%v)", q.Len()-base, b.total(), q.EndErr())
			}
			return nil
		}
		return b, watch, drain, nil
	}
	switch k.Kind {
	case "idle", "idle from the start":
		if k.Kind == "idle" {
			if err := both(); err != nil {
				return nil, err
			}
		}
		x.finish = both
	case "half a message up", "half a message down":
		f := up
		if k.Kind == "half a message down" {
			f = down
		}
		if err := both(); err != nil {
			return nil, err
		}
		m := f.msg(k.Size, k.Fill)
		n := 1 + k.Fill*7%(len(m)-1)
		f.from.Send(m[:n])
		x.finish = func() error {
			f.want = append(f.want, m...)
			f.from.Send(m[n:])
			if err := f.arrived(); err != nil {
				return err
			}
			return both()
		}
	case "trickle up", "trickle down":
		f := up
		if k.Kind == "trickle down" {
			f = down
		}
		x.watch, x.finish = trickle(f), both
	case "held down", "held up", "stalled down, trickle up", "stalled up, trickle down":
		p, q, back := s.DB.Peer, s.Client, up
		if k.Kind == "held up" || k.Kind == "stalled up, trickle down" {
			p, q, back = s.Client, s.DB.Peer, down
		}
		_, watch, drain, err := stall(p, q)
		if err != nil {
			return nil, err
		}
		next := func() error { return nil }
		if k.Kind[:4] == "stal" {
			next = trickle(back)
		}
		x.watch = func() error {
			if err := watch(); err != nil {
				return err
			}
			if err := running(); err != nil {
				return err
			}
			return next()
		}
		x.finish = func() error {
			if err := back.arrived(); err != nil {
				return err
			}
			if err := drain(); err != nil {
				return err
			}
			back.send(back.msg(k.Size, k.Fill))
			return back.arrived()
		}
	case "database left a slow client", "client left a slow database":
		p, q := s.DB.Peer, s.Client
		if k.Kind == "client left a slow database" {
			p, q = s.Client, s.DB.Peer
		}
		// More than the kernel takes on its own: the rest waits in the queues of the proxy.
		b := &bulk{typ: 'd', size: 128 << 10, n: 100}
		bad := b.receive(q)
		base := q.Len()
		q.Pause()
		b.send(p)
		p.HalfClose()
		x.watch = func() error { return nil }
		x.finish = func() error {
			q.Resume()
			if err := await("the end of the session after one side hung up and the other one read the rest", q.Ended); err != nil {
				return err
			}
			if m := bad(); m != "" {
				return violf("what arrived is not what was sent: %s", m)
			}
			if q.Len()-base < b.total() {
				return violf("the one side sent %d bytes and hung up in an orderly way, but only %d bytes were delivered to the other one, which was slow to read (%v)", b.total(), q.Len()-base, q.EndErr())
			}
			return await("closing of the connection that was hung up", p.Ended)
		}
	case "idle, then the client hangs up", "idle, then the database hangs up", "idle, then the client resets", "idle, then the database resets":
		if err := both(); err != nil {
			return nil, err
		}
		f, how := up, "fin"
		if k.Kind == "idle, then the database hangs up" || k.Kind == "idle, then the database resets" {
			f = down
		}
		if k.Kind == "idle, then the client resets" || k.Kind == "idle, then the database resets" {
			how = "reset"
		}
		x.finish = func() error {
			for i := 0; i < 3; i++ {
				f.send(f.msg(k.Size, k.Fill))
			}
			if how == "reset" {
				if err := f.arrived(); err != nil {
					return err
				}
			}
			hangUp(f.from, how)
			if err := await("the end of the session after one side hung up", func() bool { return f.to.Ended() && (how == "reset" || f.from.Ended()) }); err != nil {
				return err
			}
			return f.arrived()
		}
	default:
		return nil, fmt.Errorf("unknown kind %q", k.Kind)
	}
	return x, nil
}

// patienceCheck makes the sub-check of a property.
func patienceCheck(kinds ...string) *core.Check[patienceCase] {
	return &core.Check[patienceCase]{Name: "patience", Quick: 1, Thorough: 6, Aside: true, Gen: genPatience(kinds...), Run: runPatience}
}

const patienceRule = ". Patience: sessions that wait for more than a minute in various states; every case counts"

// C08 and C09: changes of the configuration, and a long time after them.

type patienceConfig struct {
	Seconds int `json:"seconds"`
}

func genPatienceConfig(t *rapid.T, env *core.Env) patienceConfig {
	return patienceConfig{Seconds: patienceSeconds(t, env)}
}

func runC08Patience(c *core.Ctx, cs patienceConfig) error {
	db, err := sim.NewDB("")
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(db.Stop)
	var addrs []string
	for i := 0; i < 3; i++ {
		h := ownHost(c)
		p, err := freePort(h)
		if err != nil {
			return inconcf("%v", err)
		}
		addrs = append(addrs, fmt.Sprintf("%s:%d", h, p))
	}
	// Somebody else listens at the last one for the time being.
	busy, err := sim.Listen(ownHost(c), 0, 0)
	if err != nil {
		return inconcf("%v", err)
	}
	freed := false
	free := func() {
		if !freed {
			freed = true
			busy.Close()
		}
	}
	c.Cleanup(free)
	addrs = append(addrs, busy.Addr().String())
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	srv := server.NewServer(dist)
	start := runAsync("Start", srv.Start)
	c.Cleanup(func() {
		a := runAsync("Close", srv.Close)
		_ = await("return of Close", a.returned)
		dist.Close()
	})
	begin := time.Now()
	var sessions []*sim.Session
	at := ""
	move := func(i int) error {
		a := runAsync("update", func() error {
			src <- &server.Config{Listen: addrs[i], DatabaseURL: db.URL("app")}
			return nil
		})
		if err := await("the configuration update to be taken", func() bool { return a.returned() || start.returned() }); err != nil {
			return err
		}
		if i < 3 {
			at = addrs[i]
		}
		return nil
	}
	check := func() error {
		if err := await("listening at the address of the configuration", func() bool {
			l := sim.Listening()
			n := 0
			for i, a := range addrs {
				if l[a] && (i < 3 || freed) {
					n++
				}
			}
			return l[at] && n == 1 || start.returned()
		}); err != nil {
			return err
		}
		if start.returned() {
			return violf("Start returned: %v", start.err)
		}
		s, err := establish(c, at, db, "app", estOpt{})
		if err != nil {
			return err
		}
		sessions = append(sessions, s)
		for _, s := range sessions {
			if err := alive(s); err != nil {
				return err
			}
		}
		return nil
	}
	for _, i := range []int{0, 3, 1} {
		if err := move(i); err != nil {
			return err
		}
		if err := check(); err != nil {
			return err
		}
	}
	// Now it is free, but the configuration names another one.
	free()
	if err := holdOut(cs.Seconds, func() error {
		if l := sim.Listening(); !l[at] || l[addrs[3]] {
			return after(violf("it listens at %v instead of %s (an earlier address that was taken then: %s)", l, at, addrs[3]), "without further changes", begin)
		}
		for i, s := range sessions {
			if s.Client.Ended() || s.DB.Ended() {
				return after(violf("it has ended"), fmt.Sprintf("session %d, started before a change of address", i), begin)
			}
		}
		return nil
	}); err != nil {
		return err
	}
	if err := check(); err != nil {
		return after(err, "without further changes", begin)
	}
	if err := move(2); err != nil {
		return after(err, "another change", begin)
	}
	c.NonTrivial()
	return after(check(), "another change", begin)
}

func runC09Patience(c *core.Ctx, cs patienceConfig) error {
	var dbs []*sim.DB
	for i := 0; i < 3; i++ {
		d, err := sim.NewDB(ownHost(c))
		if err != nil {
			return inconcf("%v", err)
		}
		c.Cleanup(d.Stop)
		dbs = append(dbs, d)
	}
	px, err := sim.NewProxy(dbs[0].URL("app"))
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(px.Shutdown)
	begin := time.Now()
	var sessions []*sim.Session
	update := func(i int) error {
		cfg := &server.Config{Listen: px.Addr, DatabaseURL: dbs[i].URL("app")}
		px.Src <- cfg
		return await("a configuration update to take effect", func() bool { g, err := px.Dist.Get(); return err != nil || g == cfg })
	}
	enter := func(i int) error {
		s, err := establish(c, px.Addr, dbs[i], "app", estOpt{})
		if err != nil {
			return err
		}
		sessions = append(sessions, s)
		for _, s := range sessions {
			if err := alive(s); err != nil {
				return err
			}
		}
		return nil
	}
	if err := enter(0); err != nil {
		return err
	}
	// Connected before the update, but slow to start.
	slow, err := dial(px.Addr, 0, false)
	if err != nil {
		return err
	}
	c.Cleanup(slow.Stop)
	if err := update(1); err != nil {
		return err
	}
	if err := enter(1); err != nil {
		return err
	}
	if err := holdOut(cs.Seconds, func() error {
		for i, s := range sessions {
			if s.Client.Ended() || s.DB.Ended() {
				return after(violf("it has ended"), fmt.Sprintf("session %d, next to an update", i), begin)
			}
		}
		return nil
	}); err != nil {
		return err
	}
	if err := enter(1); err != nil {
		return after(err, "without further updates", begin)
	}
	if err := update(2); err != nil {
		return after(err, "another update", begin)
	}
	pkt := startup("app")
	slow.Send(pkt)
	if err := await("the outcome of a start-up request", func() bool {
		return dbs[0].Find(pkt) != nil || dbs[1].Find(pkt) != nil || dbs[2].Find(pkt) != nil || slow.Ended()
	}); err != nil {
		return err
	}
	if dbs[2].Find(pkt) == nil {
		return after(violf("its start-up request did not go to the database of the configuration in force"), "a client that connected long before", begin)
	}
	c.NonTrivial()
	return after(enter(2), "another update", begin)
}

// C10: a subscriber that does not read for a long time.

type patienceSubscribers struct {
	Seconds int `json:"seconds"`
	Updates int `json:"updates"`
	Cap     int `json:"cap"`
	SrcCap  int `json:"src_cap"`
}

func genC10Patience(t *rapid.T, env *core.Env) patienceSubscribers {
	return patienceSubscribers{Seconds: patienceSeconds(t, env), Updates: rapid.IntRange(3, 12).Draw(t, "updates"), Cap: rapid.IntRange(0, 2).Draw(t, "cap"), SrcCap: rapid.SampledFrom([]int{0, 3, 20}).Draw(t, "srccap")}
}

func runC10Patience(c *core.Ctx, cs patienceSubscribers) error {
	src := make(chan *server.Config, cs.SrcCap)
	dist := server.NewConfigDistributor(src)
	c.Cleanup(dist.Close)
	begin := time.Now()
	slow, quick := make(chan *server.Config, cs.Cap), make(chan *server.Config, 100)
	for _, ch := range []chan *server.Config{quick, slow} {
		a := runAsync("Subscribe", func() error { return dist.Subscribe(ch) })
		if err := await("the return of Subscribe", a.returned); err != nil {
			return err
		}
		if a.err != nil {
			return violf("Subscribe failed: %v", a.err)
		}
	}
	cfgs := make([]*server.Config, cs.Updates)
	for i := range cfgs {
		cfgs[i] = &server.Config{Listen: fmt.Sprint("l", i), DatabaseURL: fmt.Sprint("d", i)}
	}
	feeder := runAsync("updates", func() error {
		for _, cfg := range cfgs {
			src <- cfg
		}
		return nil
	})
	if err := holdOut(cs.Seconds, func() error { return nil }); err != nil {
		return err
	}
	for _, k := range []struct {
		ch   chan *server.Config
		name string
	}{{slow, "a subscriber that did not read for long"}, {quick, "a subscriber next to one that did not read for long"}} {
		for i, cfg := range cfgs {
			var got *server.Config
			if err := await(fmt.Sprintf("delivery of update %d of %d to %s", i+1, len(cfgs), k.name), func() bool {
				select {
				case got = <-k.ch:
					return true
				default:
					return false
				}
			}); err != nil {
				return after(err, k.name, begin)
			}
			if got != cfg {
				return after(violf("instead of update %d of %d it got %+v", i+1, len(cfgs), got), k.name, begin)
			}
		}
	}
	if err := await("all updates to be taken", feeder.returned); err != nil {
		return err
	}
	core.Settle(50 * time.Millisecond)
	if len(slow) > 0 || len(quick) > 0 {
		return violf("something was delivered twice")
	}
	c.NonTrivial()
	return nil
}

// C11: reads that wait for long, and calls next to a subscriber that has not read for long.

func runC11Patience(c *core.Ctx, cs patienceConfig) error {
	begin := time.Now()
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	c.Cleanup(dist.Close)
	first, second := &server.Config{Listen: "l"}, &server.Config{Listen: "m"}
	type read struct {
		cfg *server.Config
		err error
	}
	var gets []*asyncCall
	got := make([]read, 3)
	for i := range got {
		i := i
		gets = append(gets, runAsync("Get", func() error { got[i].cfg, got[i].err = dist.Get(); return nil }))
	}
	// Another one, with a subscriber that does not read.
	src2 := make(chan *server.Config, 1)
	dist2 := server.NewConfigDistributor(src2)
	c.Cleanup(dist2.Close)
	stuck := make(chan *server.Config)
	sub := runAsync("Subscribe", func() error { return dist2.Subscribe(stuck) })
	src2 <- first
	var get2, unsub *asyncCall
	if err := holdOut(cs.Seconds, func() error {
		for _, g := range gets {
			if g.returned() {
				return after(violf("Get returned although there is no configuration"), "a read that waits", begin)
			}
		}
		return nil
	}); err != nil {
		return err
	}
	feeder := runAsync("update", func() error { src <- first; src <- second; return nil })
	for i, g := range gets {
		if err := await("the return of a read once there is a configuration", g.returned); err != nil {
			return after(err, "a read that waits", begin)
		}
		if got[i].err != nil || got[i].cfg != first && got[i].cfg != second {
			return after(violf("it returned %v, %v", got[i].cfg, got[i].err), "a read that waits", begin)
		}
	}
	if err := await("the updates to be taken", feeder.returned); err != nil {
		return err
	}
	var r read
	get2 = runAsync("Get", func() error { r.cfg, r.err = dist2.Get(); return nil })
	unsub = runAsync("Unsubscribe", func() error { dist2.Unsubscribe(stuck); return nil })
	for _, a := range []*asyncCall{get2, unsub} {
		if err := await("the return of "+a.what+" next to a subscriber that does not read", a.returned); err != nil {
			return after(err, "a subscriber that does not read", begin)
		}
	}
	if r.err != nil || r.cfg != first {
		return violf("Get returned %v, %v", r.cfg, r.err)
	}
	for _, d := range []*server.ConfigDistributor{dist, dist2} {
		a := runAsync("Close", func() error { d.Close(); return nil })
		if err := await("the return of Close", a.returned); err != nil {
			return after(err, "closing", begin)
		}
	}
	if err := await("the return of Subscribe", sub.returned); err != nil {
		return err
	}
	c.NonTrivial()
	return nil
}
