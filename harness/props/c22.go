package props

import (
	"fmt"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C22: a slow receiver slows its sender instead of filling memory.

type c22Case struct {
	Side   string        `json:"side"` // the sender
	Type   byte          `json:"type"`
	KB     int           `json:"kb"`    // size of a message
	Over   int           `json:"over"`  // MB offered beyond what can be held
	Reads  []int         `json:"reads"` // MB read between later stalls
	Buf    int           `json:"buf"`   // socket buffers of the ends
	Warm   int           `json:"warm"`  // messages relayed before the stall
	Cross  int           `json:"cross"` // messages sent the other way during the stall
	Hang   bool          `json:"hang"`  // the sender finishes with an orderly hang-up
	Delays []yield.Delay `json:"delays,omitempty"`
}

func genC22(t *rapid.T, env *core.Env) c22Case {
	cs := c22Case{
		Side:  rapid.SampledFrom([]string{"client", "db"}).Draw(t, "side"),
		Type:  rapid.SampledFrom([]byte("dDQ!")).Draw(t, "type"),
		KB:    rapid.SampledFrom([]int{16, 20, 64, 200}).Draw(t, "kb"),
		Over:  rapid.IntRange(30, 40).Draw(t, "over"),
		Buf:   rapid.SampledFrom([]int{32768, 65536, 0}).Draw(t, "buf"),
		Warm:  rapid.IntRange(0, 20).Draw(t, "warm"),
		Cross: rapid.SampledFrom([]int{0, 0, 50, 300}).Draw(t, "cross"),
		Hang:  rapid.IntRange(0, 2).Draw(t, "hang") == 0,
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nreads"); i < n; i++ {
		cs.Reads = append(cs.Reads, rapid.SampledFrom([]int{1, 3, 10, 30}).Draw(t, "mb"))
	}
	cs.Delays = core.GenDelays(t, env, 2)
	return cs
}

// accepted messages: a bounded number is allowed to be held in the proxy.
const c22Queue = 1024

func runC22(c *core.Ctx, cs c22Case) error {
	w, err := newWorld(c, "app", cs.Buf)
	if err != nil {
		return err
	}
	s, err := establish(c, w.px.Addr, w.db, "app", estOpt{buf: cs.Buf})
	if err != nil {
		return err
	}
	sender, receiver := s.Client, s.DB.Peer
	if cs.Side == "db" {
		sender, receiver = s.DB.Peer, s.Client
	}
	b := &bulk{typ: cs.Type, size: cs.KB << 10}
	held := c22Queue * int64(b.frameLen())
	if held > 20<<20 {
		held = 20 << 20 // 100 of the largest messages
	}
	room := kernelRoom() + held
	b.n = int((room + int64(cs.Over)<<20) / int64(b.frameLen()))
	b.n += cs.Warm
	bad := b.receive(receiver)
	base := receiver.Len()
	for i := 0; i < cs.Warm; i++ {
		sender.Send(b.msg(i))
	}
	if err := await("delivery of what was sent", func() bool { return receiver.Len()-base >= int64(cs.Warm*b.frameLen()) || receiver.Ended() }); err != nil {
		return err
	}
	receiver.Pause()
	for i := cs.Warm; i < b.n; i++ {
		sender.Send(b.msg(i))
	}
	if cs.Hang {
		sender.HalfClose()
	}
	stalls := 0
	check := func() error {
		if !standstill(sender, 60*time.Second) {
			if ahead := sender.Sent() - (receiver.Len() - base); ahead > room {
				return violf("the receiver has stopped reading, but the proxy went on accepting messages: %d bytes ahead of the receiver (messages of %d bytes; the kernel's buffers hold at most %d)", ahead, b.frameLen(), kernelRoom())
			}
			return nil
		}
		stalls++
		if ahead := sender.Sent() - (receiver.Len() - base); ahead > room {
			return violf("the receiver has stopped reading, but the proxy accepted %d bytes more than it had read (messages of %d bytes; the kernel's buffers hold at most %d)", ahead, b.frameLen(), kernelRoom())
		}
		return nil
	}
	if err := check(); err != nil {
		return err
	}
	for _, mb := range cs.Reads {
		target := receiver.Len() + int64(mb)<<20
		receiver.Resume()
		if err := await("further delivery after the receiver reads again", func() bool { return receiver.Len() >= target || receiver.Len()-base >= b.total() || receiver.Ended() }); err != nil {
			return err
		}
		receiver.Pause()
		if err := check(); err != nil {
			return err
		}
	}
	if cs.Cross > 0 && !cs.Hang {
		if err := crossTraffic(receiver, sender, cs.Cross); err != nil {
			return err
		}
	}
	receiver.Resume()
	if err := await("delivery of everything after the receiver resumed reading", func() bool {
		return receiver.Len()-base >= b.total() || receiver.Ended() || bad() != ""
	}); err != nil {
		return err
	}
	if m := bad(); m != "" {
		return violf("what arrived after the stall is not what was sent: %s", m)
	}
	if receiver.Len()-base < b.total() {
		return violf("only %d of %d bytes arrived before the proxy ended the session (%v)", receiver.Len()-base, b.total(), receiver.EndErr())
	}
	if cs.Hang {
		if err := await("the end of the session after the sender hung up", receiver.Ended); err != nil {
			return err
		}
		if m := bad(); m != "" {
			return violf("what arrived after the stall is not what was sent: %s", m)
		}
	}
	c.Labelf("stalls reached:%d", stalls)
	if stalls > 0 {
		c.NonTrivial()
	}
	return nil
}

// crossTraffic sends n small messages from p to q, whose other direction may be stalled, and checks that they arrive.
func crossTraffic(p, q *sim.Peer, n int) error {
	var want []byte
	for i := 0; i < n; i++ {
		want = append(want, pgwire.Frame('d', []byte(fmt.Sprintf("cross %d %d", nextID(), i)))...)
	}
	base := int(q.Len())
	p.Send(want)
	if err := await("delivery in the direction opposite to the stalled one", func() bool { return q.Len() >= int64(base+len(want)) || q.Ended() }); err != nil {
		return err
	}
	got := q.Received()
	if len(got) < base+len(want) {
		return violf("the session ended while one direction was stalled: %v", q.EndErr())
	}
	return prefixErr("received in the direction opposite to the stalled one", got[base:], want)
}

func init() {
	core.Register(&core.Prop{
		ID:   "C22",
		Rule: "a case is a session in which one side offers 30 to 40 MB more than the kernel and 1024 messages (at most 20 MB) in the proxy can hold while the other side does not read, with partial resumptions; non-trivial = the sender came to a standstill at least once and all bytes were compared after the final resumption" + patienceRule,
		Subs: []core.Sub{&core.Check[c22Case]{Name: "stall and resume", Quick: 48, Thorough: 1600, Gen: genC22, Run: runC22, Delays: func(c c22Case) []yield.Delay { return c.Delays }},
			patienceCheck("held down", "held up")},
	})
}
