package props

import (
	"bytes"
	"fmt"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C05: a session ends when either side hangs up, after delivering what was sent.

type c05Case struct {
	Stage string        `json:"stage"`          // connected, partial, ssl, refused (nobody listens at the database), dbaccept, dbgreets, established
	Who   string        `json:"who"`            // client, db, both
	How   string        `json:"how"`            // fin (still reads), close, reset
	How2  string        `json:"how2,omitempty"` // the other side's way if both hang up
	Warm  []c05Burst    `json:"warm,omitempty"` // relayed before, in both directions
	Last  []pgwire.Msg  `json:"last,omitempty"` // sent right before hanging up
	Cut   int           `json:"cut,omitempty"`  // the last bytes are an incomplete message of this many bytes
	Big   int           `json:"big,omitempty"`  // a number of additional 8 kB messages before Last
	Cross int           `json:"cross,omitempty"`
	Buf   int           `json:"buf,omitempty"`
	Slow  bool          `json:"slow,omitempty"` // the other side starts reading only after the hang-up
	Wait  int           `json:"wait,omitempty"` // us between sending and hanging up
	Delay []yield.Delay `json:"delays,omitempty"`
}

type c05Burst struct {
	Side string       `json:"side"`
	Msgs []pgwire.Msg `json:"msgs"`
}

func genC05(t *rapid.T, env *core.Env) c05Case {
	var cs c05Case
	cs.Stage = rapid.SampledFrom([]string{"connected", "partial", "ssl", "refused", "dbaccept", "dbgreets", "established", "established", "established", "established", "established", "established"}).Draw(t, "stage")
	cs.Who = rapid.SampledFrom([]string{"client", "db", "client", "db", "both"}).Draw(t, "who")
	switch cs.Stage {
	case "connected", "partial", "ssl":
		cs.Who = "client"
	case "dbaccept", "dbgreets":
		cs.Who = "db"
	}
	hows := []string{"fin", "close", "reset"}
	cs.How = rapid.SampledFrom(hows).Draw(t, "how")
	if cs.Who == "both" {
		cs.How2 = rapid.SampledFrom(hows).Draw(t, "how2")
	}
	if cs.Stage == "established" {
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "warm"); i < n; i++ {
			b := c05Burst{Side: rapid.SampledFrom([]string{"client", "db"}).Draw(t, "side")}
			b.Msgs = genMsgs(t, b.Side, 1, 3)
			cs.Warm = append(cs.Warm, b)
		}
		cs.Big = rapid.SampledFrom([]int{0, 0, 0, 1, 10, 200, 700}).Draw(t, "big")
		if rapid.IntRange(0, 3).Draw(t, "docross") == 0 {
			cs.Cross = rapid.SampledFrom([]int{1, 10, 100}).Draw(t, "cross")
		}
		if cs.Cross == 0 && rapid.IntRange(0, 3).Draw(t, "smallbuf") == 0 {
			cs.Buf = rapid.SampledFrom([]int{2304, 16384}).Draw(t, "buf")
		}
		cs.Slow = rapid.IntRange(0, 3).Draw(t, "slow") == 0
	}
	if cs.Stage == "established" || cs.Stage == "dbgreets" {
		side := cs.Who
		if side == "both" {
			side = "client"
		}
		cs.Last = genMsgs(t, side, 0, 6)
		if cs.Stage == "dbgreets" && rapid.Bool().Draw(t, "fatal") {
			cs.Last = []pgwire.Msg{pgwire.GenKind(t, "db", "ErrorResponse")}
		}
		if rapid.IntRange(0, 3).Draw(t, "cutmsg") == 0 {
			cs.Cut = rapid.IntRange(1, 30).Draw(t, "cut")
		}
	}
	cs.Wait = rapid.SampledFrom([]int{0, 0, 200, 3000}).Draw(t, "wait")
	cs.Delay = core.GenDelays(t, env, 4)
	return cs
}

func hangUp(p *sim.Peer, how string) {
	switch how {
	case "fin":
		p.HalfClose()
	case "close":
		p.CloseAfter()
	default:
		p.ResetAfter()
	}
}

func runC05(c *core.Ctx, cs c05Case) error {
	c.HoldGC()
	db, err := sim.NewDBOpt("", 0, cs.Buf)
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(db.Stop)
	url := db.URL("app")
	if cs.Stage == "refused" {
		// Nobody listens there, nor could: a freed ephemeral port may be taken by anyone, even by the proxy itself.
		url = fmt.Sprintf("postgres://%s:1/app", ownHost(c))
	}
	px, err := sim.NewProxy(url)
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(px.Shutdown)
	var witness *sim.Session
	if cs.Stage != "refused" {
		if witness, err = establish(c, px.Addr, db, "app", estOpt{}); err != nil {
			return err
		}
		if err := alive(witness); err != nil {
			return err
		}
	}
	core.Settle(200 * time.Millisecond)
	before := core.TargetIDs()

	c.Label("stage:" + cs.Stage)
	c.Label("hang-up:" + cs.Who + " " + cs.How)
	gone := func() error {
		if err := core.AwaitGone("the end of everything that belongs to a session one side of which hung up", before); err != nil {
			return err
		}
		if witness != nil {
			if err := alive(witness); err != nil {
				return err
			}
		}
		c.NonTrivial()
		return nil
	}
	ended := func(p *sim.Peer, whose string) error {
		return await("closing of the "+whose+"'s connection after the other side hung up", p.Ended)
	}
	cl, err := dial(px.Addr, cs.Buf, false)
	if err != nil {
		return err
	}
	c.Cleanup(cl.Stop)
	pkt := startup("app")
	switch cs.Stage {
	case "connected", "partial", "ssl":
		if cs.Stage == "partial" {
			cl.Send(pkt[:2+len(pkt)*3/4%len(pkt)])
		}
		if cs.Stage == "ssl" {
			cl.Send(pgwire.SSLReq())
		}
		cl.Wait(cs.Wait)
		hangUp(cl, cs.How)
		if cs.How == "fin" {
			if err := ended(cl, "client"); err != nil {
				return err
			}
		}
		return gone()
	case "refused":
		cl.Send(pkt)
		if cs.Who != "db" {
			cl.Wait(cs.Wait)
			hangUp(cl, cs.How)
		} else if err := ended(cl, "client"); err != nil {
			return err
		}
		return gone()
	case "dbaccept":
		n := db.Count()
		cl.Send(pkt)
		if err := await("a connection to the database", func() bool { return db.Count() > n || cl.Ended() }); err != nil {
			return err
		}
		if db.Count() > n {
			dc := db.Conns()[n]
			dc.Wait(cs.Wait)
			hangUp(dc.Peer, cs.How)
		}
		if err := ended(cl, "client"); err != nil {
			return err
		}
		return gone()
	}

	cl.Send(pkt)
	s := &sim.Session{Client: cl, Packet: pkt}
	if err := await("delivery of the start-up request to the database", func() bool {
		s.DB = db.Find(pkt)
		return s.DB != nil || cl.Ended()
	}); err != nil {
		return err
	}
	if s.DB == nil {
		return violf("the proxy hung up on a start-up request for the configured database")
	}
	var up, down []byte
	for _, b := range cs.Warm {
		if b.Side == "client" {
			up = append(up, wire(b.Msgs)...)
			cl.Send(wire(b.Msgs))
		} else {
			down = append(down, wire(b.Msgs)...)
			s.DB.Send(wire(b.Msgs))
		}
	}
	if err := await("delivery of what was sent", func() bool {
		return s.DB.Len() >= int64(len(pkt)+len(up)) && cl.Len() >= int64(len(down)) || cl.Ended() || s.DB.Ended()
	}); err != nil {
		return err
	}
	if done, err := relayed(s, up, down); err != nil || !done {
		if err == nil {
			err = violf("the session ended by itself")
		}
		return err
	}
	leaver, other := cl, s.DB.Peer
	lname, oname := "client", "database"
	if cs.Who == "db" {
		leaver, other = s.DB.Peer, cl
		lname, oname = "database", "client"
	}
	if cs.Slow {
		other.Pause()
	}
	var last []byte
	for i := 0; i < cs.Big; i++ {
		last = append(last, pgwire.Frame('d', bytes.Repeat([]byte{byte(i)}, 8000))...)
	}
	last = append(last, wire(cs.Last)...)
	complete := len(last)
	if cs.Cut > 0 {
		last = append(last, pgwire.Frame('Q', bytes.Repeat([]byte("q"), 40))[:cs.Cut]...)
	}
	cross := bytes.Repeat(pgwire.Frame('d', bytes.Repeat([]byte("c"), 200)), cs.Cross)
	other.Send(cross)
	leaver.Send(last)
	if cs.Wait > 0 {
		leaver.Wait(cs.Wait)
	}
	hangUp(leaver, cs.How)
	if cs.Who == "both" {
		hangUp(other, cs.How2)
	}
	if cs.Slow {
		core.Settle(30 * time.Millisecond)
		other.Resume()
	}
	if cs.Who != "both" || cs.How2 == "fin" {
		if err := ended(other, oname); err != nil {
			return err
		}
	}
	if cs.How == "fin" {
		if err := ended(leaver, lname); err != nil {
			return err
		}
	}
	// Whatever arrived is a prefix; all of it after an orderly hang-up with nothing in flight the other way.
	sentUp, sentDown := up, down
	if lname == "client" {
		sentUp, sentDown = append(sentUp, last...), append(sentDown, cross...)
	} else {
		sentUp, sentDown = append(sentUp, cross...), append(sentDown, last...)
	}
	if _, err := relayed(s, sentUp, sentDown); err != nil {
		return err
	}
	if cs.Who != "both" && cs.How != "reset" && cs.Cross == 0 {
		base := len(down)
		if lname == "client" {
			base = len(pkt) + len(up)
		}
		if got := len(other.Received()) - base; got < complete {
			return violf("the %s sent %d bytes of complete messages and hung up in an orderly way (%s), but only %d bytes were delivered to the %s before its connection was closed (%v)", lname, complete, cs.How, got, oname, other.EndErr())
		}
		if complete > 0 {
			c.Label("delivery before hang-up checked")
		}
	}
	return gone()
}

func init() {
	core.Register(&core.Prop{
		ID:   "C05",
		Rule: "a case is one session next to a witness session: a stage of its life, who hangs up and how (FIN, close, reset, both sides, in the middle of a message), what was sent just before, traffic in the other direction, and delays inside the proxy; non-trivial = the end of the other connection, of every goroutine of the session, and the survival of the witness were checked" + patienceRule,
		Subs: []core.Sub{&core.Check[c05Case]{Name: "hang-ups", Quick: 3000, Thorough: 90000, Gen: genC05, Run: runC05, Delays: func(c c05Case) []yield.Delay { return c.Delay }},
			patienceCheck("database left a slow client", "client left a slow database", "idle, then the client hangs up", "idle, then the database hangs up", "idle, then the client resets", "idle, then the database resets")},
	})
}
