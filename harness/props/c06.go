package props

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C06: a stalled direction never blocks the other one.

type c06Case struct {
	Stalled string        `json:"stalled"` // who does not read: client or db
	KB      int           `json:"kb"`      // size of the queued messages
	MB      int           `json:"mb"`      // offered in the stalled direction
	First   bool          `json:"first"`   // the other direction starts at once, not when the first has come to a standstill
	N       int           `json:"n"`       // messages in the other direction
	Size    int           `json:"size"`
	Chunks  []int         `json:"chunks,omitempty"`
	Buf     int           `json:"buf,omitempty"`
	Rounds  int           `json:"rounds"`
	Delays  []yield.Delay `json:"delays,omitempty"`
}

func genC06(t *rapid.T, env *core.Env) c06Case {
	cs := c06Case{
		Stalled: rapid.SampledFrom([]string{"client", "db"}).Draw(t, "stalled"),
		KB:      rapid.SampledFrom([]int{8, 30, 64, 256}).Draw(t, "kb"),
		MB:      rapid.IntRange(50, 70).Draw(t, "mb"),
		First:   rapid.IntRange(0, 3).Draw(t, "first") == 0,
		N:       rapid.SampledFrom([]int{1, 3, 70, 140, 300, 1000, 3000}).Draw(t, "n"),
		Size:    rapid.SampledFrom([]int{0, 10, 1000, 9000}).Draw(t, "size"),
		Buf:     rapid.SampledFrom([]int{0, 32768, 65536}).Draw(t, "buf"),
		Rounds:  rapid.IntRange(1, 3).Draw(t, "rounds"),
	}
	if rapid.IntRange(0, 3).Draw(t, "chunked") == 0 {
		cs.Chunks = genChunks(t)
	}
	cs.Delays = core.GenDelays(t, env, 2)
	return cs
}

func runC06(c *core.Ctx, cs c06Case) error {
	w, err := newWorld(c, "app", cs.Buf)
	if err != nil {
		return err
	}
	s, err := establish(c, w.px.Addr, w.db, "app", estOpt{buf: cs.Buf})
	if err != nil {
		return err
	}
	stalled, queuer := s.Client, s.DB.Peer
	if cs.Stalled == "db" {
		stalled, queuer = s.DB.Peer, s.Client
	}
	b := &bulk{typ: 'd', size: cs.KB << 10, n: cs.MB << 10 / cs.KB}
	bad := b.receive(stalled)
	stalled.Pause()
	base := stalled.Len()
	b.send(queuer)
	still := true
	if !cs.First {
		still = standstill(queuer, 30*time.Second)
	}
	// The other direction: from the side that does not read to the side that does.
	o := &bulk{typ: 'H', size: cs.Size, n: cs.N * cs.Rounds}
	if cs.Size < 12 {
		o.typ = 'S'
	}
	obad := o.receive(queuer)
	obase := queuer.Len()
	for r := 0; r < cs.Rounds; r++ {
		var out []byte
		for i := r * cs.N; i < (r+1)*cs.N; i++ {
			out = append(out, o.msg(i)...)
		}
		stalled.SendChunks(out, cs.Chunks, 0)
		want := obase + int64((r+1)*cs.N*o.frameLen())
		if err := await("delivery in the direction opposite to the stalled one", func() bool { return queuer.Len() >= want || queuer.Ended() || obad() != "" }); err != nil {
			return err
		}
		if m := obad(); m != "" {
			return violf("in the direction opposite to the stalled one: %s", m)
		}
		if queuer.Len() < want {
			return violf("the session ended while one direction was stalled: %v", queuer.EndErr())
		}
		core.Settle(20 * time.Millisecond)
	}
	if cs.First {
		still = standstill(queuer, 30*time.Second)
	}
	stalled.Resume()
	if err := await("delivery of everything once the receiver reads", func() bool {
		return stalled.Len()-base >= b.total() || stalled.Ended() || bad() != ""
	}); err != nil {
		return err
	}
	if m := bad(); m != "" {
		return violf("in the direction that had been stalled: %s", m)
	}
	if stalled.Len()-base < b.total() {
		return violf("only %d of %d bytes arrived in the direction that had been stalled: %v", stalled.Len()-base, b.total(), stalled.EndErr())
	}
	c.LabelIf(still, "standstill reached")
	c.Label("not reading:" + cs.Stalled)
	if still {
		c.NonTrivial()
	}
	return nil
}

// pipelining client against a database that answers requests one by one, like PostgreSQL does.

type c06Pipe struct {
	N      int           `json:"n"`
	Req    int           `json:"req"`   // size of a request
	Reply  int           `json:"reply"` // size of a reply message
	Per    int           `json:"per"`   // reply messages per request
	Buf    int           `json:"buf,omitempty"`
	Delays []yield.Delay `json:"delays,omitempty"`
}

func genC06Pipe(t *rapid.T, env *core.Env) c06Pipe {
	cs := c06Pipe{
		N:     rapid.SampledFrom([]int{50, 200, 1000, 4000}).Draw(t, "n"),
		Req:   rapid.SampledFrom([]int{12, 100, 4000, 16000}).Draw(t, "req"),
		Reply: rapid.SampledFrom([]int{12, 100, 4000, 16000}).Draw(t, "reply"),
		Per:   rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "per"),
		Buf:   rapid.SampledFrom([]int{0, 32768, 65536}).Draw(t, "buf"),
	}
	most := 40 << 20
	if cs.Buf > 0 {
		most = 12 << 20 // small windows are slow
	}
	for cs.N*(cs.Req+cs.Reply*cs.Per) > most {
		cs.N /= 2
	}
	cs.Delays = core.GenDelays(t, env, 2)
	return cs
}

func runC06Pipe(c *core.Ctx, cs c06Pipe) error {
	// The database: reads a request, writes its replies, and only then reads on.
	ln, err := sim.Listen("", 0, cs.Buf)
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(func() { ln.Close() })
	req := &bulk{typ: 'Q', size: cs.Req, n: cs.N}
	var served int64
	trouble := make(chan string, 4)
	go func() {
		conn, err := ln.Accept()
		if err != nil {
			return
		}
		defer conn.Close()
		c2 := conn.(*net.TCPConn)
		var l [4]byte
		if _, err := io.ReadFull(c2, l[:]); err != nil {
			return
		}
		if _, err := io.CopyN(io.Discard, c2, int64(binary.BigEndian.Uint32(l[:]))-4); err != nil {
			return
		}
		rep := &bulk{typ: 'D', size: cs.Reply, n: cs.N * cs.Per}
		buf := make([]byte, req.frameLen())
		for i := 0; i < cs.N; i++ {
			if _, err := io.ReadFull(c2, buf); err != nil {
				trouble <- fmt.Sprintf("after %d requests: %v", i, err)
				return
			}
			req.verify(buf)
			if req.bad != "" {
				trouble <- req.bad
				return
			}
			for j := 0; j < cs.Per; j++ {
				if _, err := c2.Write(rep.msg(i*cs.Per + j)); err != nil {
					trouble <- fmt.Sprintf("while answering request %d: %v", i, err)
					return
				}
			}
			atomic.AddInt64(&served, 1)
			core.Progress.Add(1)
		}
		_, _ = io.Copy(io.Discard, c2)
	}()
	px, err := sim.NewProxy(fmt.Sprintf("postgres://%s/app", ln.Addr()))
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(px.Shutdown)
	cl, err := dial(px.Addr, cs.Buf, false)
	if err != nil {
		return err
	}
	c.Cleanup(cl.Stop)
	rep := &bulk{typ: 'D', size: cs.Reply, n: cs.N * cs.Per}
	bad := rep.receive(cl)
	cl.Send(pgwire.Startup(pgwire.Version3, []pgwire.KV{{K: "user", V: "u"}, {K: "database", V: "app"}}))
	(&bulk{typ: 'Q', size: cs.Req, n: cs.N}).send(cl)
	var what string
	if err := await(fmt.Sprintf("the replies to %d pipelined requests of %d bytes", cs.N, cs.Req), func() bool {
		select {
		case what = <-trouble:
		default:
		}
		return what != "" || cl.Len() >= rep.total() || cl.Ended() || bad() != ""
	}); err != nil {
		return err
	}
	if what != "" {
		return violf("the database had trouble with pipelined requests: %s", what)
	}
	if m := bad(); m != "" {
		return violf("the replies to pipelined requests are not what the database sent: %s", m)
	}
	if cl.Len() < rep.total() {
		return violf("the session ended before all replies arrived (%d of %d bytes, %d requests served): %v", cl.Len(), rep.total(), atomic.LoadInt64(&served), cl.EndErr())
	}
	c.LabelIf(cs.N > 150, "more requests than queues hold")
	c.NonTrivial()
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C06",
		Rule: "stalled direction: one side offers 50 to 70 MB without being read while up to 9000 messages cross; non-trivial = the sender came to a standstill and everything was then compared. Pipelining: up to 4000 requests without waiting against a database that answers one by one; all replies are compared" + patienceRule,
		Subs: []core.Sub{
			&core.Check[c06Case]{Name: "stalled direction", Quick: 64, Thorough: 2400, Gen: genC06, Run: runC06, Delays: func(c c06Case) []yield.Delay { return c.Delays }},
			&core.Check[c06Pipe]{Name: "pipelining client", Quick: 160, Thorough: 6000, Gen: genC06Pipe, Run: runC06Pipe, Delays: func(c c06Pipe) []yield.Delay { return c.Delays }},
			patienceCheck("stalled down, trickle up", "stalled up, trickle down"),
		},
	})
}
