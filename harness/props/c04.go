package props

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C04: negotiation and forwarding of the start-up request.

type c04Case struct {
	SSL       int           `json:"ssl"`
	Pipelined bool          `json:"pipelined,omitempty"` // do not wait for the refusals
	Kind      string        `json:"kind"`                // good, version, or a way of being malformed
	Version   uint32        `json:"version,omitempty"`
	Params    []pgwire.KV   `json:"params,omitempty"`
	Body      []byte        `json:"body,omitempty"` // malformed: what follows the version
	Length    int           `json:"length,omitempty"`
	Extra     []pgwire.Msg  `json:"extra,omitempty"`
	Chunks    []int         `json:"chunks,omitempty"`
	GapUs     int           `json:"gap_us,omitempty"`
	Delays    []yield.Delay `json:"delays,omitempty"`
}

func genC04(t *rapid.T, env *core.Env) c04Case {
	var cs c04Case
	cs.SSL = rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 7, 20, 60}).Draw(t, "ssl")
	cs.Pipelined = rapid.Bool().Draw(t, "pipelined")
	var kv []pgwire.KV
	kv = append(kv, pgwire.KV{K: "user", V: pgwire.Str(t, "user", 10)}, pgwire.KV{K: "database", V: "app"})
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, "nparams"); i < n; i++ {
		if rapid.Bool().Draw(t, "known") {
			kv = append(kv, genKnownParam(t))
			continue
		}
		k := pgwire.Str(t, "key", 10)
		if k == "" || k == "database" {
			k = "k"
		}
		kv = append(kv, pgwire.KV{K: k, V: pgwire.Str(t, "value", 20)})
	}
	if rapid.IntRange(0, 9).Draw(t, "nouser") == 0 {
		kv = kv[1:]
	}
	if rapid.IntRange(0, 9).Draw(t, "longparam") == 0 {
		kv = append(kv, pgwire.KV{K: "options", V: strings.Repeat("-c x=y ", rapid.SampledFrom([]int{40, 700, 1400, 3000}).Draw(t, "long"))})
	}
	cs.Params = rapid.Permutation(kv).Draw(t, "order")
	cs.Chunks = genChunks(t)
	if cs.Chunks != nil && rapid.IntRange(0, 3).Draw(t, "gaps") == 0 {
		cs.GapUs = rapid.SampledFrom([]int{10, 300, 2000}).Draw(t, "gap")
	}
	if rapid.Bool().Draw(t, "extra") {
		cs.Extra = genMsgs(t, "client", 1, 4)
		for i := range cs.Extra {
			if cs.Extra[i].T == 'X' {
				cs.Extra[i].T = 'S'
			}
		}
	}
	cs.Kind = rapid.SampledFrom([]string{"good", "good", "good", "version", "unterminated", "keyonly", "nonul", "trailing", "short", "empty", "length", "cut"}).Draw(t, "kind")
	switch cs.Kind {
	case "version":
		cs.Version = rapid.SampledFrom([]uint32{196609, 196610, 196607, 131072, 65536, 0, 3, 0x30000 << 1, 80877102, 80877104, 80877105, 1, 0xffffffff, 0x7fffffff, 0x80000000, 0x00000300}).Draw(t, "version")
		if rapid.IntRange(0, 2).Draw(t, "anyversion") == 0 {
			cs.Version = rapid.Uint32().Draw(t, "v")
			if cs.Version == 196608 || cs.Version == 80877103 {
				cs.Version = 5
			}
		}
	case "trailing":
		cs.Body = append([]byte{rapid.Byte().Draw(t, "first")}, pgwire.Bytes(t, "trailing", 12)...)
	case "length":
		cs.Length = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, -1, -2147483648, -8, 8}).Draw(t, "length")
	case "cut":
		cs.Length = rapid.IntRange(0, 30).Draw(t, "at")
	}
	cs.Delays = core.GenDelays(t, env, 3)
	return cs
}

// knownParams are parameters that clients really send, with some of their values.
var knownParams = []struct {
	names  []string
	values []string
}{
	{[]string{"replication"}, []string{"database", "false", "off", "no", "0"}},
	{[]string{"_pq_.command_tag", "_pq_.protocol_managed_params", "_pq_.", "_pq_.x", "_PQ_.x", "_pq_"}, []string{"", "1", "on", "x"}},
	{[]string{"options"}, []string{"", "-c search_path=app,public", "--work_mem=1MB -c role=admin", "-c database=other", "-d other", "app", "-c a=\\ b"}},
	{[]string{"client_encoding", "CLIENT_ENCODING"}, []string{"", "UTF8", "'utf-8'", "SQL_ASCII", "LATIN1", "auto"}},
	{[]string{"application_name", "fallback_application_name"}, []string{"", "psql", "pgbouncer", "gevulot", "a\tb\n", "%41", "PostgreSQL JDBC Driver"}},
	{[]string{"TimeZone", "timezone", "DateStyle", "datestyle", "IntervalStyle", "intervalstyle", "search_path", "extra_float_digits", "statement_timeout", "lc_messages", "client_min_messages", "session_authorization", "role", "is_superuser", "geqo", "standard_conforming_strings", "session_replication_role", "default_transaction_read_only", "row_security"},
		[]string{"", "0", "2", "on", "off", "UTC", "Europe/London", "ISO, MDY", "postgres", "app", "none", "default", "DEFAULT"}},
	{[]string{"user", "User", "USER", "dbname", "Database", "DATABASE", "db", "password", "passfile", "host", "hostaddr", "port", "sslmode", "gssencmode", "service", "target_session_attrs", "connect_timeout", "scram_client_key", "ssl", "protocol_version", "pool_mode"},
		[]string{"", "app", "other", "u", "disable", "require", "127.0.0.1", "5432", "3.0", "any"}},
}

func genKnownParam(t *rapid.T) pgwire.KV {
	g := knownParams[rapid.IntRange(0, len(knownParams)-1).Draw(t, "group")]
	return pgwire.KV{K: rapid.SampledFrom(g.names).Draw(t, "name"), V: rapid.SampledFrom(g.values).Draw(t, "known value")}
}

// packet makes the start-up packet of the case; complete tells whether the proxy has all of it.
func (cs c04Case) packet(params []pgwire.KV) (pkt []byte, complete bool) {
	good := pgwire.Startup(pgwire.Version3, params)
	body := good[4:]
	switch cs.Kind {
	case "good":
		return good, true
	case "version":
		return pgwire.StartupRaw(append(pgwire.I32(nil, int(cs.Version)), body[4:]...)), true
	case "unterminated": // no terminator after the last value
		return pgwire.StartupRaw(body[:len(body)-1]), true
	case "keyonly": // a key without value
		return pgwire.StartupRaw(append(append([]byte{}, body[:len(body)-1]...), "lonely\x00"...)), true
	case "nonul": // the last value is not NUL-terminated
		return pgwire.StartupRaw(body[:len(body)-2]), true
	case "trailing":
		return pgwire.StartupRaw(append(append([]byte{}, body...), cs.Body...)), true
	case "short": // not even a whole version number
		return pgwire.StartupRaw(body[:3]), true
	case "empty": // a version number and nothing else
		return pgwire.StartupRaw(body[:4]), true
	case "length": // impossible length
		return append(pgwire.I32(nil, cs.Length), body...), true
	case "cut": // the client goes away in the middle
		n := cs.Length
		if n > len(good)-1 {
			n = len(good) - 1
		}
		return good[:n], false
	}
	panic("unknown kind " + cs.Kind)
}

func runC04(c *core.Ctx, cs c04Case) error {
	c.HoldGC()
	w, err := newWorld(c, "app", 0)
	if err != nil {
		return err
	}
	params := append([]pgwire.KV{{K: "application_name", V: fmt.Sprintf("n%d", nextID())}}, cs.Params...)
	pkt, complete := cs.packet(params)
	cl, err := dial(w.px.Addr, 0, false)
	if err != nil {
		return err
	}
	c.Cleanup(cl.Stop)
	ns := bytes.Repeat([]byte{'N'}, cs.SSL)
	ssl := pgwire.SSLReq()
	if cs.Pipelined {
		extra := wire(cs.Extra)
		cl.SendChunks(append(append(bytes.Repeat(ssl, cs.SSL), pkt...), extra...), cs.Chunks, cs.GapUs)
	} else {
		for i := 0; i < cs.SSL; i++ {
			cl.SendChunks(ssl, cs.Chunks, cs.GapUs)
			if err := await("the answer to an SSL request", func() bool { return cl.Len() > int64(i) || cl.Ended() }); err != nil {
				return err
			}
			if got := cl.Received(); !bytes.Equal(got, ns[:i+1]) {
				return violf("after %d SSL requests the client had received %q (hung up: %v)", i+1, got, cl.Ended())
			}
		}
		cl.SendChunks(append(append([]byte{}, pkt...), wire(cs.Extra)...), cs.Chunks, cs.GapUs)
	}
	c.Label("start-up:" + cs.Kind)
	c.LabelIf(cs.SSL > 0, "SSL requested")
	if cs.Kind == "good" {
		want := append(append([]byte{}, pkt...), wire(cs.Extra)...)
		var dc *sim.DBConn
		if err := await("delivery of the start-up request and what follows it", func() bool {
			if dc == nil {
				if conns := w.db.Conns(); len(conns) > 0 {
					dc = conns[0]
				}
			}
			return (dc != nil && dc.Len() >= int64(len(want)) && cl.Len() >= int64(cs.SSL)) || cl.Ended()
		}); err != nil {
			return err
		}
		if dc == nil {
			return violf("a valid start-up request was refused: %q (the client received %q)", params, cl.Received())
		}
		core.Settle(20 * time.Millisecond)
		if err := prefixErr("received by the database", dc.Received(), want); err != nil {
			return err
		}
		if len(dc.Received()) < len(want) {
			return violf("only %d of %d bytes of the start-up request and what follows reached the database before the session ended", len(dc.Received()), len(want))
		}
		if got := cl.Received(); !bytes.Equal(got, ns) {
			return violf("after %d SSL requests and a start-up request the client had received %q", cs.SSL, got)
		}
		if n := w.db.Count(); n != 1 {
			return violf("one client made the proxy open %d database connections", n)
		}
		c.NonTrivial()
		return alive(&sim.Session{Client: cl, DB: dc, Packet: pkt})
	}
	if !complete {
		cl.HalfClose()
	}
	if err := await("the end of a session with a start-up request that is not valid ("+cs.Kind+")", cl.Ended); err != nil {
		return err
	}
	core.Settle(20 * time.Millisecond)
	for _, dc := range w.db.Conns() {
		if r := dc.Received(); len(r) > 0 {
			return violf("a start-up request that is not valid (%s: %q) reached the database as %q", cs.Kind, pkt, r)
		}
	}
	// If the proxy leaves bytes unread, the connection is reset, which may destroy answers on their way.
	got := cl.Received()
	if len(cs.Extra) > 0 || cs.Kind == "length" {
		if len(got) < len(ns) {
			ns = ns[:len(got)]
		}
	}
	if !bytes.HasPrefix(got, ns) {
		return violf("after %d SSL requests and an invalid start-up request the client had received %q", cs.SSL, got)
	}
	c.NonTrivial()
	return nil
}

type c04Flood struct {
	N     int  `json:"n"`
	Chunk int  `json:"chunk,omitempty"`
	Late  bool `json:"late,omitempty"` // the client reads the refusals only afterwards
	Start bool `json:"start,omitempty"`
}

func genC04Flood(t *rapid.T, env *core.Env) c04Flood {
	return c04Flood{
		N:     rapid.IntRange(20000, 60000).Draw(t, "n"),
		Chunk: rapid.SampledFrom([]int{0, 7, 8, 24, 1000}).Draw(t, "chunk"),
		Late:  rapid.Bool().Draw(t, "late"),
		Start: rapid.Bool().Draw(t, "start"),
	}
}

func heap() uint64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc + m.StackInuse
}

func runC04Flood(c *core.Ctx, cs c04Flood) error {
	w, err := newWorld(c, "app", 0)
	if err != nil {
		return err
	}
	before := heap()
	cl, err := dial(w.px.Addr, 0, false)
	if err != nil {
		return err
	}
	c.Cleanup(cl.Stop)
	if cs.Late {
		cl.Pause()
	}
	req := bytes.Repeat(pgwire.SSLReq(), cs.N)
	if cs.Chunk > 0 {
		cl.SendChunks(req, []int{cs.Chunk}, 0)
	} else {
		cl.Send(req)
	}
	if cs.Late {
		if err := await("reading of the SSL requests", cl.Flushed); err != nil {
			return err
		}
		cl.Resume()
	}
	if err := await("the answers to the SSL requests", func() bool { return cl.Len() >= int64(cs.N) || cl.Ended() }); err != nil {
		return err
	}
	core.Settle(20 * time.Millisecond)
	if cl.Ended() || cl.Len() != int64(cs.N) {
		return violf("%d SSL requests were answered with %d bytes (hung up: %v)", cs.N, cl.Len(), cl.Ended())
	}
	var bad bool
	cl.Peek(func(b []byte) {
		for _, x := range b {
			bad = bad || x != 'N'
		}
	})
	if bad {
		return violf("SSL requests were answered with something else than refusals")
	}
	for _, g := range core.TargetGoroutines() {
		if strings.Contains(g.Stack, "additional frames elided") || strings.Count(g.Stack, "\n\t") > 80 {
			return violf("the call stack grows with the number of SSL requests (%d so far): the proxy will run out of stack and die\n%s", cs.N, clipLines(g.Stack, 20))
		}
	}
	// What the peer keeps is the queue (8 bytes per request) and the answers.
	own := uint64(cs.N*8 + 4*cs.N)
	if after := heap(); after > before+own+uint64(cs.N)*40+(2<<20) {
		return violf("the proxy grew by %d bytes while answering %d SSL requests", after-before, cs.N)
	}
	c.NonTrivial()
	if !cs.Start {
		return nil
	}
	pkt := startup("app")
	cl.Send(pkt)
	if err := await("delivery of the start-up request after a flood of SSL requests", func() bool { return w.db.Find(pkt) != nil || cl.Ended() }); err != nil {
		return err
	}
	dc := w.db.Find(pkt)
	if dc == nil {
		return violf("a start-up request after %d SSL requests was refused", cs.N)
	}
	return alive(&sim.Session{Client: cl, DB: dc, Packet: pkt})
}

func clipLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func init() {
	core.Register(&core.Prop{
		ID:   "C04",
		Rule: "a case is a number of SSL requests followed by a start-up request (valid, of another version, or malformed in one of nine ways), possibly with pipelined messages, in generated chunks; non-trivial = the answers and what reached the database were compared byte for byte" + patienceRule,
		Subs: []core.Sub{
			&core.Check[c04Case]{Name: "negotiation", Quick: 4000, Thorough: 120000, Gen: genC04, Run: runC04, Delays: func(c c04Case) []yield.Delay { return c.Delays }},
			&core.Check[c04Flood]{Name: "flood of SSL requests", Quick: 32, Thorough: 800, Gen: genC04Flood, Run: runC04Flood},
			patienceCheck("nothing sent", "half a start-up request", "an SSL request", "half an SSL request"),
		},
	})
}
