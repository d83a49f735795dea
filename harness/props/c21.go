package props

import (
	"bytes"
	"fmt"
	"runtime/metrics"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C21: no peer can bring the proxy down.

type c21Attack struct {
	Stage  string `json:"stage"`            // start-up, client, database, greeting, both
	SSL    int    `json:"ssl,omitempty"`    // SSL requests first
	Data   []byte `json:"data,omitempty"`   // what is sent
	Valid  int    `json:"valid,omitempty"`  // valid messages before it
	Kind   string `json:"kind"`             // how the bytes were made
	Chunks []int  `json:"chunks,omitempty"` // how they are written
	Then   string `json:"then"`             // stay, close, half, reset, deaf
	Answer []byte `json:"answer,omitempty"` // stage both: what the other side sends at the same time
}

type c21Case struct {
	Attacks []c21Attack   `json:"attacks"`
	Traffic int           `json:"traffic"`
	Delays  []yield.Delay `json:"delays,omitempty"`
}

var (
	tlsHello = []byte("\x16\x03\x01\x00\xa5\x01\x00\x00\xa1\x03\x03" + "0123456789abcdef0123456789abcdef" + "\x00\x00\x04\x13\x01\x00\xff\x01\x00\x00\x74")
	gssReq   = pgwire.StartupRaw(pgwire.I32(nil, 80877104))
	cancel   = pgwire.StartupRaw(pgwire.I32(pgwire.I32(pgwire.I32(nil, 80877102), 1234), 5678))
)

// wideKinds are the kinds of messages that come with a type byte.
var wideKinds = func() (ks []string) {
	for _, k := range valKinds {
		if !isStartup(k) {
			ks = append(ks, k)
		}
	}
	return ks
}()

// genHostile makes a byte stream to be sent at a stage.
func genHostile(t *rapid.T, stage string) ([]byte, string) {
	kinds := []string{"random", "frames", "frames", "frames", "lengths", "lengths", "mutated", "mutated", "bodies", "bodies", "bodies", "bodies", "values", "values", "values", "tiny", "text", "zeros"}
	if stage == "start-up" {
		kinds = append(kinds, "start-up", "start-up", "start-up", "start-up", "start-up", "foreign", "foreign", "ssl")
	}
	kind := rapid.SampledFrom(kinds).Draw(t, "hostile")
	side := "client"
	if stage == "database" || stage == "greeting" {
		side = "db"
	}
	if rapid.IntRange(0, 4).Draw(t, "otherside") == 0 {
		if side == "client" {
			side = "db"
		} else {
			side = "client"
		}
	}
	edges := []int{-1, 0, 1, 2, 3, 4, 5, 8, 255, 65535, 65536, 1 << 20, 1<<24 - 1, 1 << 24, 1 << 30, 1<<31 - 1, 1<<31 - 5, -1 << 31, -4, -5}
	switch kind {
	case "random":
		return pgwire.Bytes(t, "bytes", 300), kind
	case "frames": // well-framed, any type byte, senseless bodies
		var b []byte
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
			b = append(b, pgwire.Frame(rapid.Byte().Draw(t, "type"), pgwire.Bytes(t, "body", 60))...)
		}
		return b, kind
	case "lengths": // a length that lies
		b := []byte{rapid.Byte().Draw(t, "type")}
		if stage == "start-up" {
			b = nil
		}
		b = pgwire.I32(b, rapid.SampledFrom(edges).Draw(t, "length"))
		return append(b, pgwire.Bytes(t, "body", 60)...), kind
	case "mutated":
		var b []byte
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
			b = append(b, pgwire.GenAny(t, side).Wire()...)
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "mutations"); i < n; i++ {
			b, _ = mutate(t, b)
		}
		return b, kind
	case "bodies": // well-framed messages whose bodies are wrong for their types
		var b []byte
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
			m := pgwire.GenValid(t, side)
			for j, k := 0, rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "mutations"); j < k; j++ {
				m.B, _ = mutate(t, m.B)
			}
			b = append(b, m.Wire()...)
		}
		return b, kind
	case "values": // valid messages of a few kinds whose order and contents make no sense together
		kinds := rapid.SliceOfN(rapid.SampledFrom(wideKinds), 1, 3).Draw(t, "kinds")
		if rapid.IntRange(0, 2).Draw(t, "rows") == 0 {
			kinds = []string{"row description", "data row"}
		}
		var b []byte
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
			b = append(b, genVal(t, rapid.SampledFrom(kinds).Draw(t, "kind")).encode()...)
		}
		return b, kind
	case "tiny":
		return pgwire.Bytes(t, "bytes", 5), kind
	case "text":
		return []byte(rapid.SampledFrom([]string{"GET / HTTP/1.1\r\nHost: db\r\n\r\n", "SSH-2.0-OpenSSH_9.6\r\n", "\n\n\n", "QUIT\r\n", "{\"jsonrpc\":2}", "\x00\x00\x00\x00\x00\x00\x00\x00"}).Draw(t, "text")), kind
	case "zeros":
		return bytes.Repeat([]byte{rapid.SampledFrom([]byte{0, 0, 1, 0x80, 0xff}).Draw(t, "byte")}, rapid.IntRange(1, 5000).Draw(t, "count")), kind
	case "foreign":
		b := rapid.SampledFrom([][]byte{tlsHello, gssReq, cancel, append(append([]byte{}, gssReq...), tlsHello...), append(append([]byte{}, pgwire.SSLReq()...), tlsHello...)}).Draw(t, "foreign")
		return append([]byte{}, b...), kind
	case "ssl": // an SSL request with something behind it
		return pgwire.StartupRaw(append(pgwire.I32(nil, pgwire.SSLRequest), pgwire.Bytes(t, "more", 20)...)), kind
	case "start-up":
		b := startup("app")
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "mutations"); i < n; i++ {
			b, _ = mutate(t, b)
		}
		return b, kind
	}
	panic(kind)
}

func genC21(t *rapid.T, env *core.Env) c21Case {
	var cs c21Case
	cs.Traffic = rapid.IntRange(1, 6).Draw(t, "traffic")
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "attacks"); i < n; i++ {
		a := c21Attack{Stage: rapid.SampledFrom([]string{"start-up", "start-up", "start-up", "client", "client", "database", "database", "greeting", "both"}).Draw(t, "stage")}
		a.Data, a.Kind = genHostile(t, a.Stage)
		switch a.Stage {
		case "start-up":
			a.SSL = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "ssl")
		case "both":
			a.Answer, _ = genHostile(t, "database")
			fallthrough
		default:
			a.Valid = rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "valid")
		}
		a.Chunks = genChunks(t)
		a.Then = rapid.SampledFrom([]string{"stay", "stay", "close", "half", "reset", "deaf"}).Draw(t, "then")
		cs.Attacks = append(cs.Attacks, a)
	}
	cs.Delays = core.GenDelays(t, env, 2)
	return cs
}

// witness is a well-behaved session that must not notice anything.
type witness struct {
	s        *sim.Session
	up, down []byte
}

func (w *witness) talk(n int) {
	for i := 0; i < n; i++ {
		u := pgwire.Frame('Q', pgwire.CStr(nil, fmt.Sprintf("witness asks %d", nextID())))
		d := pgwire.Frame('C', pgwire.CStr(nil, fmt.Sprintf("witness is told %d", nextID())))
		w.up, w.down = append(w.up, u...), append(w.down, d...)
		w.s.Client.Send(u)
		w.s.DB.Send(d)
	}
}

func (w *witness) check(when string) error {
	if err := await("relaying on a well-behaved session "+when, func() bool {
		return len(fromClient(w.s)) >= len(w.up) && w.s.Client.Len() >= int64(len(w.down)) || w.s.DB.Ended() || w.s.Client.Ended()
	}); err != nil {
		return err
	}
	if err := prefixErr("received by the database of a well-behaved session "+when, fromClient(w.s), w.up); err != nil {
		return err
	}
	if err := prefixErr("received by the client of a well-behaved session "+when, w.s.Client.Received(), w.down); err != nil {
		return err
	}
	if w.s.DB.Ended() || w.s.Client.Ended() {
		return violf("a well-behaved session was ended %s (database end: %v, client end: %v)", when, w.s.DB.Ended(), w.s.Client.Ended())
	}
	return nil
}

func runC21(c *core.Ctx, cs c21Case) error {
	w, err := newWorld(c, "app", 0)
	if err != nil {
		return err
	}
	var witnesses []*witness
	newWitness := func() error {
		s, err := establish(c, w.px.Addr, w.db, "app", estOpt{})
		if err != nil {
			return err
		}
		witnesses = append(witnesses, &witness{s: s})
		return nil
	}
	for i := 0; i < 2; i++ {
		if err := newWitness(); err != nil {
			return err
		}
	}
	// A client that is in the middle of starting.
	midway, err := dial(w.px.Addr, 0, false)
	if err != nil {
		return err
	}
	c.Cleanup(midway.Stop)
	midpkt := startup("app")
	midway.Send(midpkt[:9])
	var sent int
	var memory sampler
	memory.start()
	for i, a := range cs.Attacks {
		sent += len(a.Data) + len(a.Answer) + 40*(a.Valid+a.SSL) + 100*cs.Traffic*len(witnesses)
		c.Label("stage:" + a.Stage)
		c.Label("bytes:" + a.Kind)
		c.Label("then:" + a.Then)
		for _, x := range witnesses {
			x.talk(cs.Traffic)
		}
		var end *sim.Peer
		switch a.Stage {
		case "start-up":
			if end, err = dial(w.px.Addr, 0, false); err != nil {
				return err
			}
			c.Cleanup(end.Stop)
			end.SendChunks(append(bytes.Repeat(pgwire.SSLReq(), a.SSL), a.Data...), a.Chunks, 0)
		case "greeting":
			w.db.Greet(a.Data)
			pkt := startup("app")
			if end, err = dial(w.px.Addr, 0, false); err != nil {
				return err
			}
			c.Cleanup(end.Stop)
			end.Send(pkt)
			n := w.db.Count()
			_ = await("connection of the attacked session to the database", func() bool { return w.db.Count() > n || w.db.Find(pkt) != nil || end.Ended() })
			core.Settle(20 * time.Millisecond)
			w.db.Greet(nil)
		default:
			s, err := establish(c, w.px.Addr, w.db, "app", estOpt{})
			if err != nil {
				return err
			}
			end = s.Client
			other := s.DB.Peer
			if a.Stage == "database" {
				end, other = other, end
			}
			for j := 0; j < a.Valid; j++ {
				end.Send(pgwire.Frame('d', []byte("valid")))
			}
			if a.Stage == "both" {
				other.Send(a.Answer)
			}
			end.SendChunks(a.Data, a.Chunks, 0)
		}
		switch a.Then {
		case "close":
			end.CloseAfter()
		case "half":
			end.HalfClose()
		case "reset":
			end.ResetAfter()
		case "deaf":
			end.Pause()
		}
		if i%2 == 0 {
			core.Settle(10 * time.Millisecond)
		}
		for _, x := range witnesses {
			if err := x.check(fmt.Sprintf("after hostile peer %d (%s)", i, a.Stage)); err != nil {
				return err
			}
		}
		if n, limit := memory.soFar(), uint64(64<<20+1000*sent); n > limit {
			return violf("%d hostile peers, which sent less than %d bytes, made the process allocate %d bytes", i+1, sent+1, n)
		}
	}
	core.Settle(20 * time.Millisecond)
	if err := newWitness(); err != nil {
		return err
	}
	midway.Send(midpkt[9:])
	if err := await("delivery of a start-up request begun before the hostile peers came", func() bool { return w.db.Find(midpkt) != nil || midway.Ended() }); err != nil {
		return err
	}
	dc := w.db.Find(midpkt)
	if dc == nil {
		return violf("a client that had begun its start-up before the hostile peers came was turned away: %q", midway.Received())
	}
	c.Cleanup(dc.Stop)
	witnesses = append(witnesses, &witness{s: &sim.Session{Client: midway, DB: dc, Packet: midpkt}})
	for _, x := range witnesses {
		x.talk(2)
		if err := x.check("after all hostile peers"); err != nil {
			return err
		}
	}
	if done, e := w.px.Served(); done {
		return violf("the server stopped serving: %v", e)
	}
	c.NonTrivial()
	return nil
}

// Peers that announce far more than they send.
type c21Bulk struct {
	Stage string `json:"stage"`
	Type  int    `json:"type"`
	Size  int    `json:"size"`
	N     int    `json:"n"`
	Sent  int    `json:"sent"`
}

func genC21Bulk(t *rapid.T, env *core.Env) c21Bulk {
	return c21Bulk{
		Stage: rapid.SampledFrom([]string{"start-up", "client", "database"}).Draw(t, "stage"),
		Type:  int(rapid.SampledFrom([]byte("QPBdDTREKSZANvxp\x00\xff")).Draw(t, "type")),
		Size:  rapid.SampledFrom([]int{1 << 27, 1 << 28, 1 << 28, 1 << 29, 1 << 29, 1 << 30, 1<<31 - 1}).Draw(t, "size"),
		N:     rapid.IntRange(1, 12).Draw(t, "n"),
		Sent:  rapid.SampledFrom([]int{0, 1, 3, 100, 4096, 60000}).Draw(t, "sent"),
	}
}

func runC21Bulk(c *core.Ctx, cs c21Bulk) error {
	w, err := newWorld(c, "app", 0)
	if err != nil {
		return err
	}
	s, err := establish(c, w.px.Addr, w.db, "app", estOpt{})
	if err != nil {
		return err
	}
	wit := &witness{s: s}
	const limit = 100 << 20
	var fail error
	var memory sampler
	memory.start()
	func() {
		for i := 0; i < cs.N && fail == nil; i++ {
			var end *sim.Peer
			if cs.Stage == "start-up" {
				if end, fail = dial(w.px.Addr, 0, false); fail != nil {
					return
				}
				c.Cleanup(end.Stop)
				end.Send(append(pgwire.I32(pgwire.I32(nil, cs.Size), pgwire.Version3), bytes.Repeat([]byte{'x'}, cs.Sent)...))
			} else {
				var a *sim.Session
				if a, fail = establish(c, w.px.Addr, w.db, "app", estOpt{}); fail != nil {
					return
				}
				end = a.Client
				if cs.Stage == "database" {
					end = a.DB.Peer
				}
				end.Send(append(pgwire.I32([]byte{byte(cs.Type)}, cs.Size), bytes.Repeat([]byte{'x'}, cs.Sent)...))
			}
			core.Settle(15 * time.Millisecond)
			wit.talk(1)
			fail = wit.check("next to peers that announce huge messages")
			if memory.soFar() > limit {
				return
			}
		}
		core.Settle(50 * time.Millisecond)
	}()
	if fail != nil {
		return fail
	}
	c.Label("stage:" + cs.Stage)
	if n := memory.soFar(); n > limit {
		return violf("at most %d peers that announced messages of %d bytes but sent only %d made the process allocate %d bytes", cs.N, cs.Size, cs.Sent, n)
	}
	c.NonTrivial()
	return nil
}

// Crowds of peers that do nothing, or not enough.

type c21Crowd struct {
	Groups  []c21Group    `json:"groups"`
	Leave   int           `json:"leave"` // every so manieth of them leaves before the newcomers are tried
	Delays  []yield.Delay `json:"delays,omitempty"`
	Witness int           `json:"witness"`
}

type c21Group struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Part int    `json:"part"` // how much of a start-up request is sent
}

func genC21Crowd(t *rapid.T, env *core.Env) c21Crowd {
	var cs c21Crowd
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "groups"); i < n; i++ {
		cs.Groups = append(cs.Groups, c21Group{
			Kind: rapid.SampledFrom([]string{"silent", "partial", "ssl", "ssl and silent", "refused", "established", "deaf", "malformed", "left at once", "hung up"}).Draw(t, "kind"),
			N:    rapid.SampledFrom([]int{1, 10, 40, 70, 140, 270}).Draw(t, "n"),
			Part: rapid.IntRange(1, 30).Draw(t, "part"),
		})
	}
	if rapid.IntRange(0, 7).Draw(t, "huge") == 0 {
		// more than a thousand that get no session; not more than the race detector can bear with
		cs.Groups = []c21Group{{Kind: rapid.SampledFrom([]string{"silent", "partial", "ssl", "ssl and silent", "malformed"}).Draw(t, "hugekind"), N: 1100, Part: rapid.IntRange(1, 30).Draw(t, "part")}}
	}
	cs.Leave = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "leave")
	cs.Witness = rapid.IntRange(0, 3).Draw(t, "witnesses")
	cs.Delays = core.GenDelays(t, env, 1)
	return cs
}

func runC21Crowd(c *core.Ctx, cs c21Crowd) error {
	w, err := newWorld(c, "app", 0)
	if err != nil {
		return err
	}
	var witnesses []*witness
	newWitness := func() error {
		s, err := establish(c, w.px.Addr, w.db, "app", estOpt{})
		if err != nil {
			return err
		}
		witnesses = append(witnesses, &witness{s: s})
		return nil
	}
	for i := 0; i < cs.Witness; i++ {
		if err := newWitness(); err != nil {
			return err
		}
	}
	check := func(when string) error {
		for _, x := range witnesses {
			x.talk(1)
			if err := x.check(when); err != nil {
				return err
			}
		}
		return nil
	}
	var crowd []*sim.Peer
	total := 0
	for _, g := range cs.Groups {
		c.Label("crowd:" + g.Kind)
		for i := 0; i < g.N; i++ {
			p, err := dial(w.px.Addr, 0, g.Kind == "deaf")
			if err != nil {
				return err
			}
			c.Cleanup(p.Stop)
			crowd = append(crowd, p)
			total++
			switch g.Kind {
			case "silent":
			case "partial":
				pkt := startup("app")
				if g.Part < len(pkt) {
					pkt = pkt[:g.Part]
				} else {
					pkt = pkt[:len(pkt)-1]
				}
				p.Send(pkt)
			case "ssl":
				p.Send(append(pgwire.SSLReq(), startup("app")[:g.Part]...))
			case "ssl and silent":
				p.Send(pgwire.SSLReq())
			case "refused":
				p.Send(startup("other"))
			case "malformed":
				p.Send(pgwire.StartupRaw(append(pgwire.I32(nil, pgwire.Version3), "user\x00u"...)))
			case "established", "deaf":
				p.Send(startup("app"))
			case "left at once":
				p.Abort()
			case "hung up":
				p.Send(append(startup("app"), pgwire.Frame('Q', pgwire.CStr(nil, "select 1"))...))
				p.HalfClose()
			}
		}
		if err := check(fmt.Sprintf("next to a crowd of %d", total)); err != nil {
			return err
		}
	}
	if cs.Leave > 0 {
		for i, p := range crowd {
			if i%cs.Leave == 0 {
				if i%2 == 0 {
					p.CloseAfter()
				} else {
					p.Abort()
				}
			}
		}
	}
	for i := 0; i < 2; i++ {
		if err := newWitness(); err != nil {
			return err
		}
	}
	if err := check(fmt.Sprintf("after a crowd of %d", total)); err != nil {
		return err
	}
	if done, e := w.px.Served(); done {
		return violf("the server stopped serving: %v", e)
	}
	c.LabelIf(total > 1024, "crowd of more than 1024")
	c.LabelIf(total > 128, "crowd of more than 128")
	c.NonTrivial()
	return nil
}

// sampler tells how much memory has been allocated since its start.
type sampler struct{ base uint64 }

func (s *sampler) start() { s.base = totalAlloc() }

func (s *sampler) soFar() uint64 { return totalAlloc() - s.base }

func totalAlloc() uint64 {
	m := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(m)
	return m[0].Value.Uint64()
}

func init() {
	core.Register(&core.Prop{
		ID:   "C21",
		Rule: "a case is a series of hostile peers (clients before and after start-up, database servers before and after the start-up request reached them, both at once) sending random bytes, lying lengths, senseless frames, mutated valid streams or other protocols, in generated chunks, and then staying, leaving, resetting or going deaf, next to sessions that must not notice; non-trivial = all of them were sent and the witnesses, a client caught midway and a new client were checked byte for byte; announced sizes: peers that announce up to 2 GB but send little, with the memory taken measured; crowds: up to 1100 clients at a time of one to three kinds that start up incompletely, idle, are refused or leave; hoards: streams of up to 50000 messages with ever new names, texts or values, and up to 2000 clients that come and go, after which the memory in use must be about what it was; out of files: the real program, allowed 24 to 90 files, with up to 140 clients at a time; every case counts" + patienceRule,
		Subs: []core.Sub{
			&core.Check[c21Case]{Name: "hostile peers", Quick: 2400, Thorough: 60000, Gen: genC21, Run: runC21, Delays: func(c c21Case) []yield.Delay { return c.Delays }},
			&core.Check[c21Bulk]{Name: "announced sizes", Quick: 160, Thorough: 4000, Gen: genC21Bulk, Run: runC21Bulk},
			&core.Check[c21Crowd]{Name: "crowds", Quick: 64, Thorough: 2000, Gen: genC21Crowd, Run: runC21Crowd, Delays: func(c c21Crowd) []yield.Delay { return c.Delays }},
			&core.Check[c21Hoard]{Name: "hoards", Quick: 64, Thorough: 2000, Gen: genC21Hoard, Run: runC21Hoard},
			&core.Check[c21Files]{Name: "out of files", Quick: 64, Thorough: 2000, Gen: genC21Files, Run: runC21Files},
			patienceCheck("nothing sent", "half a start-up request", "idle"),
		},
	})
}
