package props

import (
	"bytes"
	"io"
	"net"
	"sync"
	"time"

	"github.com/hired/gevulot/pkg/pg"
	"pgregory.net/rapid"

	"gevulotverif/core"
)

// C14: every message encodes and decodes exactly as the wire format says.

func genC14(t *rapid.T, env *core.Env) val {
	return genVal(t, rapid.SampledFrom(valKinds).Draw(t, "kind"))
}

func runC14(c *core.Ctx, v val) error {
	c.Label(v.Kind)
	c.NonTrivial()
	want := v.encode()
	m := v.message()
	f := m.Frame()
	if !bytes.Equal(f.Bytes(), want) {
		return violf("%s is encoded as %s instead of %s", v, hexDiff(f.Bytes(), want), hexDiff(want, f.Bytes()))
	}
	if !isStartup(v.Kind) && f.MessageType() != typeOf(v) {
		return violf("the frame of %s has the type %q instead of %q", v, f.MessageType(), typeOf(v))
	}
	if !bytes.Equal(f.MessageBody(), v.body()) {
		return violf("the frame of %s has the body %q instead of %q", v, f.MessageBody(), v.body())
	}
	if again, err := valueOf(m); err != nil || !sameVal(again, v) {
		return violf("encoding changed the message: %s became %s (%v)", v, again, err)
	}
	d, err := parser(v.Kind)(frameOf(v.Kind, append([]byte{}, want...)))
	if err != nil {
		return violf("decoding the bytes of %s failed: %v", v, err)
	}
	got, err := valueOf(d)
	if err != nil || !sameVal(got, v) {
		return violf("decoding the bytes of %s yields %s (%v)", v, got, err)
	}
	if b := d.Frame().Bytes(); !bytes.Equal(b, want) {
		return violf("decoding and encoding %s again yields other bytes: %s instead of %s", v, hexDiff(b, want), hexDiff(want, b))
	}
	if s, ok := d.(*pg.StartupMessage); ok {
		last := map[string]string{}
		for i := 0; i+1 < len(v.Strs); i += 2 {
			last[string(v.Strs[i])] = string(v.Strs[i+1])
		}
		for k, w := range last {
			if g := s.GetParameter(k); g != w {
				return violf("parameter %q of %s is %q instead of %q", k, v, g, w)
			}
		}
		if g := s.GetParameter("no such parameter"); g != "" {
			return violf("a parameter that is not there is %q", g)
		}
	}
	return nil
}

// hexDiff shows a around the first byte where it differs from b.
func hexDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return hexAround(a, i)
}

// memConn is a connection to memory.
type memConn struct {
	r io.Reader
	w bytes.Buffer
}

func (c *memConn) Read(b []byte) (int, error)       { return c.r.Read(b) }
func (c *memConn) Write(b []byte) (int, error)      { return c.w.Write(b) }
func (c *memConn) Close() error                     { return nil }
func (c *memConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *memConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *memConn) SetDeadline(time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error { return nil }

type c14Conn struct {
	Startup *val  `json:"startup,omitempty"`
	Msgs    []val `json:"msgs"`
	Repeat  int   `json:"repeat,omitempty"` // the messages come that many times
	Chunks  []int `json:"chunks,omitempty"`
}

type c14Conns struct {
	Conns []c14Conn `json:"conns"` // used at the same time
}

func genC14Conns(t *rapid.T, env *core.Env) c14Conns {
	var cs c14Conns
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "conns"); i < n; i++ {
		var k c14Conn
		if rapid.Bool().Draw(t, "startup") {
			v := genVal(t, "startup")
			k.Startup = &v
		}
		for j, m := 0, rapid.IntRange(1, 12).Draw(t, "msgs"); j < m; j++ {
			kind := rapid.SampledFrom(valKinds).Draw(t, "kind")
			if isStartup(kind) {
				kind = "data row"
			}
			k.Msgs = append(k.Msgs, genVal(t, kind))
		}
		if rapid.IntRange(0, 40).Draw(t, "long") == 0 {
			k.Repeat = edgeSize(t, "repeat", 5000)
		}
		k.Chunks = genChunks(t)
		cs.Conns = append(cs.Conns, k)
	}
	return cs
}

func runC14Conns(c *core.Ctx, cs c14Conns) error {
	errs := make([]error, len(cs.Conns))
	var wg sync.WaitGroup
	for i := range cs.Conns {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = violf("the code under test panicked: %v", r)
				}
			}()
			errs[i] = runC14Conn(cs.Conns[i])
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if len(cs.Conns) > 1 {
		c.Label("several connections")
	}
	if len(cs.Conns[0].Msgs) > 1 {
		c.NonTrivial()
	}
	return nil
}

func runC14Conn(k c14Conn) error {
	var all []byte
	size := 0
	for _, v := range k.Msgs {
		size += len(v.body()) + 5
	}
	for i, once := 1, k.Msgs[:len(k.Msgs):len(k.Msgs)]; i < k.Repeat && i*size < 1<<22; i++ {
		k.Msgs = append(k.Msgs, once...)
	}
	if k.Startup != nil {
		all = append(all, k.Startup.encode()...)
	}
	for _, v := range k.Msgs {
		all = append(all, v.encode()...)
	}
	mem := &memConn{r: &chunkReader{data: append([]byte{}, all...), chunks: k.Chunks}}
	conn := pg.NewConn(mem)
	var got []pg.Message
	var bodies [][]byte // encoded as soon as they were received; must not change either
	if k.Startup != nil {
		m, err := conn.RecvStartupMessage()
		if err != nil {
			return violf("receiving %s failed: %v", *k.Startup, err)
		}
		got = append(got, m)
	}
	for _, v := range k.Msgs {
		m, err := conn.RecvMessage()
		if err != nil {
			return violf("receiving %s failed: %v", v, err)
		}
		got = append(got, m)
		bodies = append(bodies, m.Frame().Bytes())
	}
	want := k.Msgs
	if k.Startup != nil {
		want = append([]val{*k.Startup}, want...)
		bodies = append([][]byte{k.Startup.encode()}, bodies...)
	}
	// All have been read: none may have changed.
	for i, v := range want {
		g, err := valueOf(got[i])
		if err != nil {
			return violf("%s was received as %v", v, err)
		}
		if g.Kind == "generic" && v.Kind != "generic" {
			// relayed without being understood: the bytes are all there is
			v = val{Kind: "generic", Type: int(typeOf(v)), Data: v.body()}
		}
		if v.Kind == "generic" && g.Kind != "generic" {
			if s, verd := strict(g.Kind, v.body()); verd == mustFail || !sameVal(s, g) && s.Kind != "?" {
				return violf("message %d (%s) was received as %s", i, v, g)
			}
		} else if !sameVal(g, v) {
			return violf("message %d (%s), looked at after the following ones were received, is %s", i, v, g)
		}
		if b := got[i].Frame().Bytes(); !bytes.Equal(b, want[i].encode()) {
			return violf("message %d (%s), encoded after the following ones were received, gives %s instead of %s", i, want[i], hexDiff(b, want[i].encode()), hexDiff(want[i].encode(), b))
		}
		if !bytes.Equal(bodies[i], want[i].encode()) {
			return violf("the encoding of message %d (%s) changed when further messages were handled", i, want[i])
		}
	}
	// Sending them writes the same stream.
	for _, v := range want {
		if err := conn.SendMessage(v.message()); err != nil {
			return violf("sending %s failed: %v", v, err)
		}
	}
	if !bytes.Equal(mem.w.Bytes(), all) {
		return violf("sending the messages wrote other bytes: %s instead of %s", hexDiff(mem.w.Bytes(), all), hexDiff(all, mem.w.Bytes()))
	}
	return nil
}

// chunkReader hands out data in chunks.
type chunkReader struct {
	data   []byte
	chunks []int // sizes, repeated; 0 = an empty read; none = as much as asked for
	i      int
	zero   int
	err    error // at the end (io.EOF if nil)
	early  bool  // the error comes together with the last bytes
	off    int   // how much was read
}

func (r *chunkReader) Read(b []byte) (int, error) {
	e := r.err
	if e == nil {
		e = io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	if r.off >= len(r.data) {
		return 0, e
	}
	n := len(b)
	if len(r.chunks) > 0 {
		k := r.chunks[r.i%len(r.chunks)]
		r.i++
		if k < n {
			n = k
		}
		if n == 0 {
			if r.zero++; r.zero <= 20 {
				return 0, nil
			}
			n = 1
		}
	}
	n = copy(b[:n], r.data[r.off:])
	r.off += n
	if r.early && r.off == len(r.data) {
		return n, e
	}
	return n, nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C14",
		Rule: "one message: a generated value of one of 24 kinds, encoded and compared with an independent encoder, decoded and compared; every case counts. Sizes: messages with elements up to 16 MB and up to 32767 of them, sizes around powers of two and ten; every case counts. Connections: 1 to 4 connections used at once with 1 to 12 messages each, all compared after the last was read; non-trivial = at least two messages on a connection",
		Subs: []core.Sub{
			&core.Check[val]{Name: "one message", Quick: 100000, Thorough: 4000000, Gen: genC14, Run: runC14},
			&core.Check[sizeCase]{Name: "sizes", Quick: 4000, Thorough: 120000, Gen: genC14Sizes, Run: runC14Sizes},
			&core.Check[c14Conns]{Name: "messages on connections", Quick: 16000, Thorough: 800000, Gen: genC14Conns, Run: runC14Conns},
		},
	})
}
