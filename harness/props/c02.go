package props

import (
	"bytes"
	"fmt"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C02: concurrent sessions never mix, delay, alter or end each other.

type c02Op struct {
	Op     string `json:"op"` // open, send, end, settle, hold
	S      int    `json:"s"`
	Side   string `json:"side,omitempty"`
	Kind   string `json:"kind,omitempty"` // for hold: silent, partial, ssl, stalled; for end: fin, close, reset
	N      int    `json:"n,omitempty"`
	Size   int    `json:"size,omitempty"`
	Chunks []int  `json:"chunks,omitempty"`
}

type c02Case struct {
	Ops    []c02Op       `json:"ops"`
	Buf    int           `json:"buf,omitempty"`
	Same   bool          `json:"same,omitempty"` // all start-up requests are equal
	Delays []yield.Delay `json:"delays,omitempty"`
}

func genC02(t *rapid.T, env *core.Env) c02Case {
	var cs c02Case
	sessions := rapid.IntRange(2, 8).Draw(t, "sessions")
	opened := 0
	n := rapid.IntRange(sessions+2, sessions+22).Draw(t, "ops")
	for i := 0; i < n; i++ {
		if opened < sessions && (opened == 0 || rapid.IntRange(0, 2).Draw(t, "opennow") == 0) {
			cs.Ops = append(cs.Ops, c02Op{Op: "open", S: opened})
			opened++
			continue
		}
		o := c02Op{S: rapid.IntRange(0, opened-1).Draw(t, "s")}
		switch rapid.SampledFrom([]string{"send", "send", "send", "send", "send", "send", "end", "settle", "hold"}).Draw(t, "op") {
		case "send":
			o.Op = "send"
			o.Side = rapid.SampledFrom([]string{"client", "db"}).Draw(t, "side")
			o.N = rapid.SampledFrom([]int{1, 2, 5, 30}).Draw(t, "n")
			o.Size = rapid.SampledFrom([]int{0, 1, 20, 600, 5000}).Draw(t, "size")
			o.Chunks = genChunks(t)
		case "end":
			o.Op = "end"
			o.Side = rapid.SampledFrom([]string{"client", "db"}).Draw(t, "side")
			o.Kind = rapid.SampledFrom([]string{"fin", "close", "reset"}).Draw(t, "how")
		case "settle":
			o.Op = "settle"
		case "hold":
			o.Op = "hold"
			o.Kind = rapid.SampledFrom([]string{"silent", "partial", "ssl", "stalled-client", "stalled-db"}).Draw(t, "hold")
		}
		cs.Ops = append(cs.Ops, o)
	}
	if rapid.IntRange(0, 3).Draw(t, "smallbuf") == 0 {
		cs.Buf = rapid.SampledFrom([]int{2304, 8192, 32768}).Draw(t, "buf")
	}
	cs.Same = rapid.IntRange(0, 2).Draw(t, "same") == 0
	cs.Delays = core.GenDelays(t, env, 4)
	return cs
}

type c02Session struct {
	*sim.Session
	up, down []byte
	hello    []byte
	id       int
	ended    bool
	n        int
}

// tagged makes messages that only this session and direction sends.
func tagged(s *c02Session, idx int, side string, n, size int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		s.n++
		p := []byte(fmt.Sprintf("%s%d#%d|", side, idx, s.n))
		for j := 0; j < size; j++ {
			p = append(p, byte(idx*31+s.n*7+j))
		}
		typ := byte('d')
		switch s.n % 4 {
		case 1:
			typ = 'Q'
			if side == "db" {
				typ = 'S'
			}
			p = pgwire.CStr(nil, fmt.Sprintf("%s%d#%d %x", side, idx, s.n, p))
		case 2:
			typ = 'D'
			if side == "db" {
				p = append(pgwire.I32(pgwire.I16(nil, 1), len(p)), p...)
			}
		}
		b = append(b, pgwire.Frame(typ, p)...)
	}
	return b
}

func runC02(c *core.Ctx, cs c02Case) error {
	w, err := newWorld(c, "app", cs.Buf)
	if err != nil {
		return err
	}
	var ss []*c02Session
	byIdx := map[int]*c02Session{}
	var holds []*sim.Peer
	common := startup("app")
	taken := map[*sim.DBConn]bool{}
	find := func(s *c02Session) *sim.DBConn {
		if !cs.Same {
			return w.db.Find(s.Packet)
		}
		for _, d := range w.db.Conns() {
			if !taken[d] && bytes.HasPrefix(d.Received(), s.hello) {
				taken[d] = true
				return d
			}
		}
		return nil
	}
	connect := func(s *c02Session) error {
		if s.DB != nil {
			return nil
		}
		if err := await("delivery of the start-up request to the database", func() bool {
			s.DB = find(s)
			return s.DB != nil || s.Client.Ended()
		}); err != nil {
			return err
		}
		if s.DB == nil {
			return violf("the proxy hung up on a session that was starting")
		}
		c.Cleanup(s.DB.Stop)
		return nil
	}
	sends, endings := 0, 0
	for _, o := range cs.Ops {
		s := byIdx[o.S]
		switch o.Op {
		case "open":
			if s != nil {
				continue
			}
			cl, err := dial(w.px.Addr, cs.Buf, false)
			if err != nil {
				return err
			}
			c.Cleanup(cl.Stop)
			pkt := startup("app")
			if cs.Same {
				pkt = common
			}
			cl.Send(pkt)
			s = &c02Session{Session: &sim.Session{Client: cl, Packet: pkt}}
			if cs.Same {
				// What tells it from the others.
				s.up = tagged(s, o.S, "client", 1, 30)
				s.hello = append(append([]byte{}, pkt...), s.up...)
				cl.Send(s.up)
			}
			ss = append(ss, s)
			byIdx[o.S] = s
		case "send":
			if s == nil || s.ended {
				continue
			}
			sends++
			b := tagged(s, o.S, o.Side, o.N, o.Size)
			if o.Side == "client" {
				s.up = append(s.up, b...)
				s.Client.SendChunks(b, o.Chunks, 0)
				continue
			}
			if err := connect(s); err != nil {
				return err
			}
			s.down = append(s.down, b...)
			s.DB.SendChunks(b, o.Chunks, 0)
		case "end":
			if s == nil || s.ended {
				continue
			}
			if err := connect(s); err != nil {
				return err
			}
			s.ended = true
			endings++
			p := s.Client
			if o.Side == "db" {
				p = s.DB.Peer
			}
			switch o.Kind {
			case "fin":
				p.HalfClose()
			case "close":
				p.CloseAfter()
			default:
				p.Abort()
			}
			c.Label("ended:" + o.Side + " " + o.Kind)
		case "settle":
			core.Settle(20 * time.Millisecond)
		case "hold":
			// Clients that hold things up for themselves only.
			c.Label("held:" + o.Kind)
			switch o.Kind {
			case "silent", "partial", "ssl":
				cl, err := dial(w.px.Addr, 0, false)
				if err != nil {
					return err
				}
				c.Cleanup(cl.Stop)
				if o.Kind == "partial" {
					cl.Send(startup("app")[:9])
				}
				if o.Kind == "ssl" {
					cl.Send(pgwire.SSLReq())
				}
				holds = append(holds, cl)
			default:
				h, err := establish(c, w.px.Addr, w.db, "app", estOpt{buf: cs.Buf, clientPaused: o.Kind == "stalled-client", dbPaused: o.Kind == "stalled-db"})
				if err != nil {
					return err
				}
				p := h.DB.Peer
				if o.Kind == "stalled-db" {
					p = h.Client
				}
				msg := pgwire.Frame('d', make([]byte, 60000))
				for i := 0; i < 200; i++ {
					p.Send(msg)
				}
			}
		}
	}
	for i, s := range ss {
		if err := connect(s); err != nil {
			return err
		}
		if s.ended {
			continue
		}
		if err := await("delivery of everything sent in a session", func() bool {
			return (s.DB.Len() >= int64(len(s.Packet)+len(s.up)) && s.Client.Len() >= int64(len(s.down))) || s.DB.Ended() || s.Client.Ended()
		}); err != nil {
			return err
		}
		done, err := relayed(s.Session, s.up, s.down)
		if err != nil {
			return err
		}
		if !done || s.DB.Ended() || s.Client.Ended() {
			return violf("session %d, which nobody ended, was ended (client end: %v, database end: %v) with %d of %d and %d of %d bytes delivered", i, s.Client.EndErr(), s.DB.EndErr(), len(fromClient(s.Session)), len(s.up), s.Client.Len(), len(s.down))
		}
		if err := alive(s.Session); err != nil {
			return err
		}
	}
	// Also what ended sessions received was theirs.
	seen := map[*sim.DBConn]bool{}
	for _, s := range ss {
		if seen[s.DB] {
			return violf("two clients were served by one database connection")
		}
		seen[s.DB] = true
		if s.ended {
			if _, err := relayed(s.Session, s.up, s.down); err != nil {
				return err
			}
		}
	}
	for _, h := range holds {
		if h.Ended() {
			return violf("a client that had not finished its start-up was disconnected while other sessions came and went: %v", h.EndErr())
		}
		for _, b := range h.Received() {
			if b != 'N' {
				return violf("a client that had not finished its start-up received %q", h.Received())
			}
		}
	}
	c.Labelf("sessions:%d", len(ss))
	c.LabelIf(cs.Same, "equal start-up requests")
	c.LabelIf(len(holds) > 0, "unfinished start-ups around")
	if len(ss) >= 2 && sends >= 2 {
		c.NonTrivial()
	}
	_ = endings
	return nil
}

// Many sessions at once.

type c02Crowd struct {
	N      int           `json:"n"`
	Same   bool          `json:"same,omitempty"`
	Size   int           `json:"size"`
	Rounds int           `json:"rounds"`
	Leave  int           `json:"leave"` // every so manieth session ends between rounds, and another takes its place
	Delays []yield.Delay `json:"delays,omitempty"`
}

func genC02Crowd(t *rapid.T, env *core.Env) c02Crowd {
	return c02Crowd{
		N:      rapid.SampledFrom([]int{20, 70, 130, 260, 300, 520}).Draw(t, "n"),
		Same:   rapid.Bool().Draw(t, "same"),
		Size:   rapid.SampledFrom([]int{0, 10, 600, 5000}).Draw(t, "size"),
		Rounds: rapid.IntRange(1, 4).Draw(t, "rounds"),
		Leave:  rapid.SampledFrom([]int{0, 2, 3, 7}).Draw(t, "leave"),
		Delays: core.GenDelays(t, env, 1),
	}
}

func runC02Crowd(c *core.Ctx, cs c02Crowd) error {
	w, err := newWorld(c, "app", 0)
	if err != nil {
		return err
	}
	common := startup("app")
	var ss []*c02Session
	taken := map[*sim.DBConn]bool{}
	opened := 0
	open := func() error {
		cl, err := dial(w.px.Addr, 0, false)
		if err != nil {
			return err
		}
		c.Cleanup(cl.Stop)
		s := &c02Session{Session: &sim.Session{Client: cl, Packet: common}}
		if !cs.Same {
			s.Packet = startup("app")
		}
		s.id = opened
		s.up = tagged(s, s.id, "client", 1, 30)
		s.hello = append(append([]byte{}, s.Packet...), s.up...)
		opened++
		cl.Send(s.hello)
		ss = append(ss, s)
		return nil
	}
	for i := 0; i < cs.N; i++ {
		if err := open(); err != nil {
			return err
		}
	}
	for r := 0; r < cs.Rounds; r++ {
		if err := await(fmt.Sprintf("the start-up requests and first messages of %d sessions reaching the database", len(ss)), func() bool {
			byHello := map[string]*sim.DBConn{}
			for _, s := range ss {
				if s.DB == nil {
					byHello[string(s.hello)] = nil
				}
				if s.Client.Ended() {
					return true
				}
			}
			if len(byHello) == 0 {
				return true
			}
			for _, d := range w.db.Conns() {
				if taken[d] {
					continue
				}
				got := d.Received()
				if d, ok := byHello[string(got)]; ok && d != nil {
					return true
				}
				if _, ok := byHello[string(got)]; ok {
					byHello[string(got)] = d
				}
			}
			all := true
			for _, s := range ss {
				if s.DB == nil {
					s.DB = byHello[string(s.hello)]
					all = all && s.DB != nil
					taken[s.DB] = true
				}
			}
			return all
		}); err != nil {
			return err
		}
		for i, s := range ss {
			if s.DB == nil {
				return violf("one of %d sessions (number %d) was turned away or mixed up with another (client end: %v)", len(ss), i, s.Client.EndErr())
			}
			u, d := tagged(s, s.id, "client", 2, cs.Size), tagged(s, s.id, "db", 2, cs.Size)
			s.up, s.down = append(s.up, u...), append(s.down, d...)
			s.Client.Send(u)
			s.DB.Send(d)
		}
		for i, s := range ss {
			if err := await("delivery in one of many sessions", func() bool {
				return s.DB.Len() >= int64(len(s.Packet)+len(s.up)) && s.Client.Len() >= int64(len(s.down)) || s.DB.Ended() || s.Client.Ended()
			}); err != nil {
				return err
			}
			done, err := relayed(s.Session, s.up, s.down)
			if err != nil {
				return err
			}
			if !done || s.DB.Ended() || s.Client.Ended() {
				return violf("session %d of %d, which nobody ended, was ended (client end: %v, database end: %v)", i, len(ss), s.Client.EndErr(), s.DB.EndErr())
			}
		}
		if cs.Leave > 0 && r+1 < cs.Rounds {
			var stay []*c02Session
			gone := 0
			for i, s := range ss {
				if (i+r)%cs.Leave != 0 {
					stay = append(stay, s)
					continue
				}
				gone++
				if i%2 == 0 {
					s.Client.CloseAfter()
				} else {
					s.DB.CloseAfter()
				}
			}
			ss = stay
			for i := 0; i < gone; i++ {
				if err := open(); err != nil {
					return err
				}
			}
		}
	}
	seen := map[*sim.DBConn]bool{}
	for _, s := range ss {
		if seen[s.DB] {
			return violf("two clients were served by one database connection")
		}
		seen[s.DB] = true
	}
	if n := w.db.Count(); n != opened {
		return violf("%d sessions were started over %d database connections", opened, n)
	}
	c.Labelf("crowd of:%d", cs.N)
	c.NonTrivial()
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C02",
		Rule: "a case is a history of opening, streaming on, stalling and ending 2 to 8 sessions of one proxy without waiting in between, with delays inside the proxy; every payload carries its session; non-trivial = at least 2 sessions and 2 bursts of traffic were compared byte for byte; crowds: 20 to 520 sessions at once, coming and going in rounds; every case counts",
		Subs: []core.Sub{&core.Check[c02Case]{Name: "interleaved sessions", Quick: 2000, Thorough: 40000, Gen: genC02, Run: runC02, Delays: func(c c02Case) []yield.Delay { return c.Delays }},
			&core.Check[c02Crowd]{Name: "crowds", Quick: 40, Thorough: 1600, Gen: genC02Crowd, Run: runC02Crowd, Delays: func(c c02Crowd) []yield.Delay { return c.Delays }}},
	})
}
