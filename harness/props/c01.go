package props

import (
	"bytes"
	"fmt"
	"time"

	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C01: what either side sends reaches the other side unchanged, in order, once.

type c01Burst struct {
	Side   string       `json:"side"`
	Msgs   []pgwire.Msg `json:"msgs"`
	Chunks []int        `json:"chunks,omitempty"`
	GapUs  int          `json:"gap_us,omitempty"`
	Sync   bool         `json:"sync,omitempty"` // wait for delivery of everything before going on
}

type c01Case struct {
	Bursts    []c01Burst    `json:"bursts"`
	Terminate bool          `json:"terminate,omitempty"`
	Buf       int           `json:"buf,omitempty"`
	Delays    []yield.Delay `json:"delays,omitempty"`
}

func genC01(t *rapid.T, env *core.Env) c01Case {
	var cs c01Case
	n := rapid.IntRange(1, 6).Draw(t, "bursts")
	for i := 0; i < n; i++ {
		b := c01Burst{Side: rapid.SampledFrom([]string{"client", "db"}).Draw(t, "side")}
		b.Msgs = genMsgs(t, b.Side, 1, 6)
		for j := range b.Msgs {
			if b.Side == "client" && b.Msgs[j].T == 'X' {
				b.Msgs[j].T = 'S' // a session may end at Terminate: sent last only
			}
		}
		b.Chunks = genChunks(t)
		if b.Chunks != nil && rapid.IntRange(0, 3).Draw(t, "gaps") == 0 {
			b.GapUs = rapid.SampledFrom([]int{10, 100, 1000}).Draw(t, "gap")
		}
		b.Sync = rapid.Bool().Draw(t, "sync")
		cs.Bursts = append(cs.Bursts, b)
	}
	cs.Terminate = rapid.Bool().Draw(t, "terminate")
	if rapid.IntRange(0, 3).Draw(t, "smallbuf") == 0 {
		cs.Buf = rapid.SampledFrom([]int{2304, 8192, 32768}).Draw(t, "buf")
	}
	cs.Delays = core.GenDelays(t, env, 3)
	return cs
}

// relayed checks that both ends got a prefix of what was sent; complete tells whether they got everything.
func relayed(s *sim.Session, up, down []byte) (complete bool, err error) {
	gu, gd := fromClient(s), s.Client.Received()
	if err := prefixErr("received by the database", gu, up); err != nil {
		return false, err
	}
	if err := prefixErr("received by the client", gd, down); err != nil {
		return false, err
	}
	return len(gu) == len(up) && len(gd) == len(down), nil
}

func runC01(c *core.Ctx, cs c01Case) error {
	log.SetLevel(log.InfoLevel)
	w, err := newWorld(c, "app", cs.Buf)
	if err != nil {
		return err
	}
	s, err := establish(c, w.px.Addr, w.db, "app", estOpt{buf: cs.Buf})
	if err != nil {
		return err
	}
	var up, down []byte
	kinds := map[string]bool{}
	msgs, chunked := 0, false
	deliver := func(what string) error {
		var verr error
		aerr := await(what, func() bool {
			if s.DB.Len() < int64(len(s.Packet)+len(up)) || s.Client.Len() < int64(len(down)) {
				if !s.DB.Ended() && !s.Client.Ended() {
					return false
				}
			}
			var done bool
			done, verr = relayed(s, up, down)
			return done || verr != nil || s.DB.Ended() || s.Client.Ended()
		})
		if verr == nil {
			_, verr = relayed(s, up, down)
		}
		if verr != nil {
			return verr
		}
		if aerr != nil {
			return aerr
		}
		if done, _ := relayed(s, up, down); !done {
			return violf("the proxy ended the session (client end: %v, database end: %v) before delivering everything: the database got %d of %d bytes, the client %d of %d",
				s.Client.EndErr(), s.DB.EndErr(), len(fromClient(s)), len(up), s.Client.Len(), len(down))
		}
		return nil
	}
	for _, b := range cs.Bursts {
		bytes := wire(b.Msgs)
		p := s.Client
		if b.Side == "client" {
			up = append(up, bytes...)
		} else {
			down = append(down, bytes...)
			p = s.DB.Peer
		}
		for _, m := range b.Msgs {
			kinds[b.Side+":"+m.Kind] = true
			msgs++
			c.Label("sent:" + b.Side + " " + m.Kind)
		}
		chunked = chunked || b.Chunks != nil
		p.SendChunks(bytes, b.Chunks, b.GapUs)
		if b.Sync {
			if err := deliver("delivery of what was sent"); err != nil {
				return err
			}
		}
	}
	if err := deliver("delivery of what was sent"); err != nil {
		return err
	}
	if cs.Terminate {
		x := pgwire.Frame('X', nil)
		up = append(up, x...)
		s.Client.Send(x)
		var got []byte
		if err := await("delivery of the Terminate message", func() bool {
			got = fromClient(s)
			return len(got) >= len(up) || s.DB.Ended()
		}); err != nil {
			return err
		}
		if got = fromClient(s); !bytes.Equal(got, up) {
			return violf("Terminate was not delivered as sent: the database received %s", tail(got))
		}
	}
	// Nothing may follow what was sent.
	core.Settle(40 * time.Millisecond)
	if _, err := relayed(s, up, down); err != nil {
		return err
	}
	if len(kinds) >= 2 && msgs >= 3 {
		c.NonTrivial()
	}
	c.LabelIf(chunked, "split into chunks")
	return nil
}

// A receiver that does not read for a while: what is under way must not be touched by whatever else is relayed meanwhile.

type c01Stream struct {
	Stalled string `json:"stalled"` // who does not read: client or db
	Sizes   []int  `json:"sizes"`   // of the messages, cyclically
	Back    int    `json:"back"`    // messages in the opposite direction meanwhile
	BackSz  []int  `json:"back_sizes"`
}

type c01Backlog struct {
	Streams []c01Stream   `json:"streams"` // one per session
	MB      int           `json:"mb"`
	Buf     int           `json:"buf"`
	Order   []int         `json:"order,omitempty"` // in which sessions are resumed
	Delays  []yield.Delay `json:"delays,omitempty"`
}

func genC01Backlog(t *rapid.T, env *core.Env) c01Backlog {
	cs := c01Backlog{MB: rapid.SampledFrom([]int{1, 6, 7}).Draw(t, "mb"), Buf: rapid.SampledFrom([]int{32768, 65536}).Draw(t, "buf")}
	n := rapid.IntRange(1, 3).Draw(t, "sessions")
	for i := 0; i < n; i++ {
		st := c01Stream{Stalled: rapid.SampledFrom([]string{"client", "db"}).Draw(t, "stalled")}
		st.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{12, 40, 100, 507, 508, 900, 4000, 9000, 20000}), 1, 6).Draw(t, "sizes")
		st.Back = rapid.SampledFrom([]int{0, 1, 20, 150, 700}).Draw(t, "back")
		st.BackSz = rapid.SliceOfN(rapid.SampledFrom([]int{12, 40, 508, 3000}), 1, 3).Draw(t, "backsizes")
		cs.Streams = append(cs.Streams, st)
	}
	cs.Order = rapid.Permutation([]int{0, 1, 2}[:n]).Draw(t, "order")
	cs.Delays = core.GenDelays(t, env, 2)
	return cs
}

func runC01Backlog(c *core.Ctx, cs c01Backlog) error {
	log.SetLevel(log.WarnLevel)
	w, err := newWorld(c, "app", cs.Buf)
	if err != nil {
		return err
	}
	type flow struct {
		stalled, sender *sim.Peer
		b, o            *bulk
		bad, obad       func() string
		base, obase     int64
	}
	var flows []*flow
	for _, st := range cs.Streams {
		s, err := establish(c, w.px.Addr, w.db, "app", estOpt{buf: cs.Buf})
		if err != nil {
			return err
		}
		f := &flow{stalled: s.Client, sender: s.DB.Peer}
		if st.Stalled == "db" {
			f.stalled, f.sender = s.DB.Peer, s.Client
		}
		sum := 0
		for _, n := range st.Sizes {
			sum += n + 5
		}
		f.b = &bulk{typ: 'D', sizes: st.Sizes, n: cs.MB << 20 / sum * len(st.Sizes)}
		if limit := 60000; f.b.n > limit {
			f.b.n = limit
		}
		f.o = &bulk{typ: 'Q', sizes: st.BackSz, n: st.Back}
		f.bad, f.obad = f.b.receive(f.stalled), f.o.receive(f.sender)
		f.base, f.obase = f.stalled.Len(), f.sender.Len()
		f.stalled.Pause()
		f.b.send(f.sender)
		flows = append(flows, f)
	}
	stood := 0
	for _, f := range flows {
		if standstill(f.sender, 20*time.Second) {
			stood++
		}
	}
	for _, f := range flows {
		f.o.send(f.stalled)
	}
	for _, f := range flows {
		f := f
		if err := await("delivery in the direction opposite to one in which nothing is read", func() bool {
			return f.sender.Len()-f.obase >= f.o.total() || f.sender.Ended() || f.obad() != ""
		}); err != nil {
			return err
		}
		if m := f.obad(); m != "" {
			return violf("what one side received is not what the other sent: %s", m)
		}
		if f.sender.Len()-f.obase < f.o.total() {
			return violf("a session ended before everything was delivered: %v", f.sender.EndErr())
		}
	}
	for _, i := range cs.Order {
		if i >= len(flows) {
			continue
		}
		f := flows[i]
		f.stalled.Resume()
		if err := await("delivery of everything to a receiver that had not read for a while", func() bool {
			return f.stalled.Len()-f.base >= f.b.total() || f.stalled.Ended() || f.bad() != ""
		}); err != nil {
			return err
		}
		if m := f.bad(); m != "" {
			return violf("a receiver that had not read for a while did not get what was sent: %s", m)
		}
		if f.stalled.Len()-f.base < f.b.total() {
			return violf("only %d of %d bytes arrived before the session ended: %v", f.stalled.Len()-f.base, f.b.total(), f.stalled.EndErr())
		}
	}
	core.Settle(40 * time.Millisecond)
	for _, f := range flows {
		if m := f.bad(); m != "" {
			return violf("after everything was delivered: %s", m)
		}
		if m := f.obad(); m != "" {
			return violf("after everything was delivered: %s", m)
		}
	}
	c.Labelf("sessions at a standstill:%d of %d", stood, len(flows))
	if stood > 0 {
		c.NonTrivial()
	}
	return nil
}

// Messages of many megabytes, and well-formed ones with as many elements as the protocol allows.

type c01Big struct {
	Side string `json:"side"`
	Kind string `json:"kind"`
	Size int    `json:"size"`
}

type c01Large struct {
	Msgs   []c01Big      `json:"msgs"`
	Buf    int           `json:"buf,omitempty"`
	Chunk  int           `json:"chunk,omitempty"`
	Delays []yield.Delay `json:"delays,omitempty"`
}

var c01BigKinds = map[string][]string{
	"client": {"copy data", "query", "password", "bind", "parse", "unknown"},
	"db":     {"copy data", "data row", "wide row", "null row", "row description", "error", "notice", "command complete", "parameter status", "unknown"},
}

func genC01Large(t *rapid.T, env *core.Env) c01Large {
	cs := c01Large{Buf: rapid.SampledFrom([]int{0, 0, 32768, 1 << 20}).Draw(t, "buf"), Chunk: rapid.SampledFrom([]int{0, 0, 511, 4096, 65536, 1<<20 + 1}).Draw(t, "chunk")}
	left := 24 << 20
	if env.Tier == "thorough" {
		left = 300 << 20
	}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
		m := c01Big{Side: rapid.SampledFrom([]string{"client", "db"}).Draw(t, "side")}
		m.Kind = rapid.SampledFrom(c01BigKinds[m.Side]).Draw(t, "kind")
		max := 24
		if env.Tier == "thorough" {
			max = 28
		}
		m.Size = 1<<rapid.IntRange(0, max).Draw(t, "log") + rapid.SampledFrom([]int{0, 0, 1, -1, -4, -5, -6, 5, 777}).Draw(t, "off")
		if rapid.IntRange(0, 5).Draw(t, "decimal") == 0 {
			m.Size = rapid.SampledFrom([]int{100, 1000, 10000, 100000, 1000000, 10000000, 16000000, 20000000}).Draw(t, "size") + rapid.IntRange(-6, 6).Draw(t, "off10")
		}
		if m.Size < 0 || m.Size > left {
			m.Size = rapid.IntRange(0, 100).Draw(t, "small")
		}
		left -= m.Size
		cs.Msgs = append(cs.Msgs, m)
	}
	cs.Delays = core.GenDelays(t, env, 2)
	return cs
}

var c01Text = func() []byte {
	b := make([]byte, 8<<10)
	for i := range b {
		b[i] = byte('!' + (i+i>>8)%90)
	}
	return b
}()

func (m c01Big) wire(serial int) []byte {
	text := func(n int) []byte {
		// Text without zero bytes, different in every block of 8 KB.
		b := make([]byte, n)
		for i := 0; i < n; i += len(c01Text) {
			copy(b[i:], c01Text)
			copy(b[i:], fmt.Sprintf("%d:%d|", serial, i))
		}
		return b
	}
	elements := func(max int) int { // a number of elements near the size, within a 16-bit count
		n := m.Size
		if n > max {
			n = max - n%3
		}
		return n
	}
	switch m.Kind {
	case "copy data":
		return pgwire.Frame('d', text(m.Size))
	case "query":
		return pgwire.Frame('Q', append(text(m.Size), 0))
	case "password":
		return pgwire.Frame('p', append(text(m.Size), 0))
	case "parse":
		return pgwire.Frame('P', pgwire.I16(append(pgwire.CStr(nil, "s"), append(text(m.Size), 0)...), 0))
	case "bind":
		b := pgwire.I16(pgwire.I16(pgwire.CStr(pgwire.CStr(nil, "p"), "s"), 0), 2)
		b = append(pgwire.I32(b, m.Size), text(m.Size)...)
		b = append(pgwire.I32(b, 3), "end"...)
		return pgwire.Frame('B', pgwire.I16(b, 0))
	case "data row":
		b := append(pgwire.I32(pgwire.I16(nil, 2), m.Size), text(m.Size)...)
		return pgwire.Frame('D', append(pgwire.I32(b, 3), "end"...))
	case "wide row", "null row":
		n := elements(32767)
		b := pgwire.I16(nil, n)
		for i := 0; i < n; i++ {
			if m.Kind == "null row" && i%2 == 0 {
				b = pgwire.I32(b, -1)
				continue
			}
			b = append(pgwire.I32(b, i%5), text(i%5)...)
		}
		return pgwire.Frame('D', b)
	case "row description":
		n := elements(32767)
		b := pgwire.I16(nil, n)
		for i := 0; i < n; i++ {
			b = pgwire.CStr(b, fmt.Sprintf("c%d", i))
			b = pgwire.I16(pgwire.I32(b, i), i)
			b = pgwire.I16(pgwire.I32(pgwire.I16(pgwire.I32(b, 20+i), -1), -1), i%2)
		}
		return pgwire.Frame('T', b)
	case "error", "notice":
		b := pgwire.CStr([]byte{'S'}, "ERROR")
		b = append(append(append(b, 'M'), text(m.Size)...), 0)
		b = append(pgwire.CStr(append(b, 'C'), "XX000"), 0)
		if m.Kind == "notice" {
			return pgwire.Frame('N', b)
		}
		return pgwire.Frame('E', b)
	case "command complete":
		return pgwire.Frame('C', append(text(m.Size), 0))
	case "parameter status":
		return pgwire.Frame('S', append(pgwire.CStr(nil, "name"), append(text(m.Size), 0)...))
	}
	return pgwire.Frame('!', text(m.Size))
}

func runC01Large(c *core.Ctx, cs c01Large) error {
	log.SetLevel(log.WarnLevel)
	w, err := newWorld(c, "app", cs.Buf)
	if err != nil {
		return err
	}
	s, err := establish(c, w.px.Addr, w.db, "app", estOpt{buf: cs.Buf})
	if err != nil {
		return err
	}
	var up, down []byte
	small, most := func(i int) []byte { return pgwire.Frame('d', []byte(fmt.Sprintf("between %d", i))) }, 0
	for i, m := range cs.Msgs {
		b := append(m.wire(i), small(i)...)
		p := s.DB.Peer
		if m.Side == "client" {
			p, up = s.Client, append(up, b...)
		} else {
			down = append(down, b...)
		}
		if cs.Chunk > 0 && len(b) < 2000*cs.Chunk {
			p.SendChunks(b, []int{cs.Chunk}, 0)
		} else {
			p.Send(b)
		}
		if m.Size > most {
			most = m.Size
		}
		c.Label("large:" + m.Side + " " + m.Kind)
	}
	if err := await("delivery of large messages", func() bool {
		return s.DB.Len() >= int64(len(s.Packet)+len(up)) && s.Client.Len() >= int64(len(down)) || s.DB.Ended() || s.Client.Ended()
	}); err != nil {
		return err
	}
	done, err := relayed(s, up, down)
	if err != nil {
		return err
	}
	if !done {
		return violf("the proxy ended the session (client end: %v, database end: %v) before delivering everything: the database got %d of %d bytes, the client %d of %d",
			s.Client.EndErr(), s.DB.EndErr(), len(fromClient(s)), len(up), s.Client.Len(), len(down))
	}
	if err := alive(s); err != nil {
		return err
	}
	for _, lim := range []int{1 << 16, 1 << 20, 1 << 24} {
		c.LabelIf(most > lim, fmt.Sprintf("messages of more than %d bytes", lim))
	}
	if most > 4096 {
		c.NonTrivial()
	}
	return nil
}

// Sessions that last: many messages, many bytes.

type c01Long struct {
	Up     int           `json:"up"` // messages of the client
	Down   int           `json:"down"`
	Sizes  []int         `json:"sizes"`
	Delays []yield.Delay `json:"delays,omitempty"`
}

func genC01Long(t *rapid.T, env *core.Env) c01Long {
	counts := []int{300, 1100, 5000, 33000, 66000}
	if env.Tier == "thorough" {
		counts = append(counts, 140000)
	}
	cs := c01Long{Up: rapid.SampledFrom(counts).Draw(t, "up"), Down: rapid.SampledFrom(counts).Draw(t, "down")}
	cs.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{12, 12, 13, 20, 40, 100}), 1, 4).Draw(t, "sizes")
	if env.Tier == "thorough" && rapid.IntRange(0, 15).Draw(t, "volume") == 0 {
		// more than 2^31 or 2^32 bytes in one direction
		cs.Sizes, cs.Up, cs.Down = []int{1 << 20}, 100, rapid.SampledFrom([]int{2060, 4110}).Draw(t, "mb")
		if rapid.Bool().Draw(t, "upwards") {
			cs.Up, cs.Down = cs.Down, cs.Up
		}
	} else {
		cs.Delays = core.GenDelays(t, env, 1)
	}
	return cs
}

// Messages of a hundred megabytes and more: one per direction at most, and something small behind it.
func genC01Giant(t *rapid.T, env *core.Env) c01Long {
	sizes := []int{1 << 25, 50_000_000, 1 << 26, 100_000_000, 1 << 27}
	if env.Tier == "thorough" {
		sizes = append(sizes, 200_000_000, 1<<28, 500_000_000, 1<<29)
	}
	cs := c01Long{Sizes: []int{rapid.SampledFrom(sizes).Draw(t, "size") + rapid.IntRange(1, 9).Draw(t, "more"), 12}}
	// Both ways, if that is not too much.
	cs.Up, cs.Down = 2, 2
	if cs.Sizes[0] > 1<<26+9 {
		if rapid.Bool().Draw(t, "upwards") {
			cs.Down = 0
		} else {
			cs.Up = 0
		}
	}
	return cs
}

func runC01Long(c *core.Ctx, cs c01Long) error {
	log.SetLevel(log.WarnLevel)
	w, err := newWorld(c, "app", 0)
	if err != nil {
		return err
	}
	s, err := establish(c, w.px.Addr, w.db, "app", estOpt{})
	if err != nil {
		return err
	}
	type flow struct {
		b        *bulk
		from, to *sim.Peer
		bad      func() string
		base     int64
	}
	flows := []*flow{{b: &bulk{typ: 'Q', sizes: cs.Sizes, n: cs.Up}, from: s.Client, to: s.DB.Peer}, {b: &bulk{typ: 'C', sizes: cs.Sizes, n: cs.Down}, from: s.DB.Peer, to: s.Client}}
	for _, f := range flows {
		f.bad, f.base = f.b.receive(f.to), f.to.Len()
	}
	for _, f := range flows {
		f := f
		go f.b.stream(f.from)
	}
	if err := await("delivery of everything in a long session", func() bool {
		n := 0
		for _, f := range flows {
			if f.bad() != "" || f.to.Ended() {
				return true
			}
			if f.to.Len()-f.base >= f.b.total() {
				n++
			}
		}
		return n == len(flows)
	}); err != nil {
		return err
	}
	for _, f := range flows {
		if m := f.bad(); m != "" {
			return violf("in a long session something else arrived than was sent: %s", m)
		}
		if f.to.Len()-f.base < f.b.total() {
			return violf("the proxy ended a long session after %d of %d bytes: %v", f.to.Len()-f.base, f.b.total(), f.to.EndErr())
		}
	}
	core.Settle(20 * time.Millisecond)
	for _, f := range flows {
		if m := f.bad(); m != "" {
			return violf("after everything was delivered in a long session: %s", m)
		}
	}
	c.LabelIf(cs.Up > 65536 || cs.Down > 65536, "more than 2^16 messages")
	c.LabelIf(cs.Up+cs.Down > 2000 && cs.Sizes[0] > 1000, "more than 2^31 bytes")
	c.LabelIf(cs.Sizes[0] > 1<<24+9, "messages of more than 2^24 bytes")
	c.LabelIf(cs.Sizes[0] > 100_000_000, "messages of more than 100000000 bytes")
	c.NonTrivial()
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C01",
		Rule: "relay: a case is one session through the real proxy: bursts of generated protocol messages from both sides with chunk sizes, gaps, socket buffers and delays inside the proxy; non-trivial = at least 3 messages of at least 2 kinds were relayed and compared byte for byte; backlog: a case is 1 to 3 sessions in each of which one side does not read while the other sends megabytes of numbered messages of mixed sizes, with traffic in the opposite directions, before reading goes on; non-trivial = at least one sender came to a standstill; large messages: one to six messages of up to 20 MB (thorough: 256 MB) or up to 32767 elements; non-trivial = one of more than 4 KB; long sessions: up to 66000 (thorough: 140000) messages, or (thorough) more than 2^31 bytes, in one session; every case counts; giant messages: the same with one message of 32 to 134 MB (thorough: 537 MB) per direction at most" + patienceRule,
		Subs: []core.Sub{&core.Check[c01Case]{Name: "relay", Quick: 2400, Thorough: 60000, Gen: genC01, Run: runC01, Delays: func(c c01Case) []yield.Delay { return c.Delays }},
			&core.Check[c01Backlog]{Name: "backlog", Quick: 56, Thorough: 3000, Gen: genC01Backlog, Run: runC01Backlog, Delays: func(c c01Backlog) []yield.Delay { return c.Delays }},
			&core.Check[c01Large]{Name: "large messages", Quick: 96, Thorough: 3000, Gen: genC01Large, Run: runC01Large, Delays: func(c c01Large) []yield.Delay { return c.Delays }},
			&core.Check[c01Long]{Name: "long sessions", Quick: 24, Thorough: 400, Gen: genC01Long, Run: runC01Long, Delays: func(c c01Long) []yield.Delay { return c.Delays }},
			&core.Check[c01Long]{Name: "giant messages", Quick: 3, Thorough: 12, Aside: true, Gen: genC01Giant, Run: runC01Long},
			patienceCheck("idle", "idle from the start", "half a message up", "half a message down", "trickle up", "trickle down")},
	})
}
