package props

import (
	"bytes"
	"fmt"
	"net/url"
	"strings"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
	"gevulotverif/yield"
)

// C03: only the configured database can be reached.

type c03Try struct {
	Params []pgwire.KV   `json:"params"`
	SSL    int           `json:"ssl,omitempty"`
	Extra  []byte        `json:"extra,omitempty"` // pipelined behind the start-up packet
	Chunks []int         `json:"chunks,omitempty"`
	Delays []yield.Delay `json:"delays,omitempty"`
}

type c03Case struct {
	DB    pgwire.S `json:"db"`
	Query bool     `json:"query,omitempty"` // the URL names the database in a parameter
	User  string   `json:"user,omitempty"`  // the URL has a user, and no database if DB is empty
	Tries []c03Try `json:"tries"`
}

func nearMiss(t *rapid.T, db string) string {
	switch rapid.IntRange(0, 13).Draw(t, "miss") {
	case 0:
		return strings.ToUpper(db)
	case 1:
		return strings.ToLower(db)
	case 2:
		return db + "x"
	case 3:
		return db + " "
	case 4:
		return " " + db
	case 5:
		if len(db) > 1 {
			return db[:len(db)-1]
		}
		return "y"
	case 6:
		return "/" + db
	case 7:
		return url.PathEscape(db)
	case 8:
		return strings.Title(db) //nolint
	case 9:
		return db + db
	case 10:
		if len(db) > 1 {
			return db[1:]
		}
		return "z"
	case 11:
		return `"` + db + `"`
	case 12:
		return rapid.SampledFrom([]string{"postgres", "template1", "other", "app", "", "replication", "true", "%", "*"}).Draw(t, "other")
	default:
		return pgwire.Str(t, "dbname", 12)
	}
}

func genC03(t *rapid.T, env *core.Env) c03Case {
	cs := c03Case{DB: rapid.SampledFrom([]pgwire.S{"app", "app", "App", "my db", "a/b", "été", "p%41", "user", "x", "postgres", "a+b", "a?b#c", "db:1@h"}).Draw(t, "db")}
	if rapid.IntRange(0, 4).Draw(t, "randomdb") == 0 {
		if s := pgwire.Str(t, "configured", 12); s != "" {
			cs.DB = pgwire.S(s)
		}
	}
	cs.Query = rapid.IntRange(0, 5).Draw(t, "inquery") == 0
	if rapid.IntRange(0, 3).Draw(t, "hasuser") == 0 {
		cs.User = rapid.SampledFrom([]string{"app", "alice", "x"}).Draw(t, "urluser")
	}
	if cs.User != "" && rapid.IntRange(0, 2).Draw(t, "nodb") == 0 {
		cs.DB = ""
	}
	want := string(cs.DB)
	if want == "" {
		want = cs.User
	}
	n := rapid.IntRange(1, 4).Draw(t, "tries")
	for i := 0; i < n; i++ {
		var tr c03Try
		name := func() string {
			if rapid.Bool().Draw(t, "right") {
				return want
			}
			return nearMiss(t, want)
		}
		var kv []pgwire.KV
		if rapid.IntRange(0, 9).Draw(t, "nouser") != 0 {
			u := "u"
			if rapid.IntRange(0, 2).Draw(t, "userlikedb") == 0 {
				u = name()
			}
			kv = append(kv, pgwire.KV{K: "user", V: u})
			if rapid.IntRange(0, 9).Draw(t, "user2") == 0 {
				kv = append(kv, pgwire.KV{K: "user", V: name()})
			}
		}
		for j, k := 0, rapid.SampledFrom([]int{0, 0, 1, 1, 1, 1, 2, 3}).Draw(t, "ndb"); j < k; j++ {
			kv = append(kv, pgwire.KV{K: "database", V: name()})
		}
		for j, k := 0, rapid.IntRange(0, 3).Draw(t, "nother"); j < k; j++ {
			key := rapid.SampledFrom([]string{"Database", "DATABASE", "database ", " database", "databas", "databases", "dbname", "options", "application_name", "client_encoding", "_pq_.database", "User", "user "}).Draw(t, "key")
			kv = append(kv, pgwire.KV{K: key, V: name()})
		}
		if len(kv) > 1 {
			kv = rapid.Permutation(kv).Draw(t, "order")
		}
		tr.Params = kv
		tr.SSL = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "ssl")
		tr.Chunks = genChunks(t)
		if rapid.IntRange(0, 3).Draw(t, "pipelined") == 0 {
			tr.Extra = pgwire.Frame('Q', pgwire.CStr(nil, "SELECT 1"))
		}
		cs.Tries = append(cs.Tries, tr)
	}
	if rapid.Bool().Draw(t, "delayed") {
		cs.Tries[0].Delays = core.GenDelays(t, env, 2)
	}
	return cs
}

// errorResponse tells whether b is exactly one well-formed ErrorResponse message.
func errorResponse(b []byte) error {
	if len(b) < 6 || b[0] != 'E' {
		return fmt.Errorf("not an ErrorResponse")
	}
	n := int(b[1])<<24 | int(b[2])<<16 | int(b[3])<<8 | int(b[4])
	if n+1 != len(b) {
		return fmt.Errorf("the length field says %d, the message has %d bytes after the type", n, len(b)-1)
	}
	body := b[5:]
	fields := map[byte]string{}
	for {
		if len(body) == 0 {
			return fmt.Errorf("no terminator")
		}
		code := body[0]
		body = body[1:]
		if code == 0 {
			break
		}
		i := bytes.IndexByte(body, 0)
		if i < 0 {
			return fmt.Errorf("unterminated field %c", code)
		}
		fields[code] = string(body[:i])
		body = body[i+1:]
	}
	if len(body) != 0 {
		return fmt.Errorf("%d bytes after the terminator", len(body))
	}
	for _, f := range "SCM" {
		if fields[byte(f)] == "" {
			return fmt.Errorf("field %c, which is always present, is missing", f)
		}
	}
	return nil
}

func (cs c03Case) url(db *sim.DB) string {
	host := fmt.Sprintf("%s:%d", db.Host, db.Port)
	auth := ""
	if cs.User != "" {
		auth = cs.User + ":secret@"
	}
	if cs.Query {
		path := "/ignored"
		if cs.DB == "" {
			path = ""
		} else {
			return fmt.Sprintf("postgres://%s%s%s?dbname=%s", auth, host, path, pctAll(string(cs.DB)))
		}
		return fmt.Sprintf("postgres://%s%s%s?connect_timeout=10", auth, host, path)
	}
	if cs.DB == "" {
		return fmt.Sprintf("postgres://%s%s", auth, host)
	}
	return fmt.Sprintf("postgres://%s%s/%s", auth, host, pctAll(string(cs.DB)))
}

// pctAll percent-encodes everything but letters and digits.
func pctAll(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "%%%02X", ch)
		}
	}
	return b.String()
}

func runC03(c *core.Ctx, cs c03Case) error {
	c.HoldGC()
	db, err := sim.NewDB("")
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(db.Stop)
	px, err := sim.NewProxy(cs.url(db))
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(px.Shutdown)
	want := string(cs.DB)
	if want == "" {
		want = cs.User
	}
	var expected [][]byte // what the database must have received
	var live []*sim.Session
	for _, tr := range cs.Tries {
		params := append([]pgwire.KV{{K: "application_name", V: fmt.Sprintf("t%d", nextID())}}, tr.Params...)
		pkt := pgwire.Startup(pgwire.Version3, params)
		cl, err := dial(px.Addr, 0, false)
		if err != nil {
			return err
		}
		c.Cleanup(cl.Stop)
		var out []byte
		for i := 0; i < tr.SSL; i++ {
			out = append(out, pgwire.SSLReq()...)
		}
		out = append(out, pkt...)
		cl.SendChunks(append(out, tr.Extra...), tr.Chunks, 0)
		target := pgwire.EffectiveDatabase(params)
		desc := fmt.Sprintf("start-up request %q for database %q (configured: %q)", params, target, want)
		ns := bytes.Repeat([]byte{'N'}, tr.SSL)
		if target == want {
			var dc *sim.DBConn
			if err := await("forwarding of a "+desc, func() bool {
				dc = db.Find(pkt)
				return (dc != nil && dc.Len() >= int64(len(pkt)+len(tr.Extra)) && cl.Len() >= int64(len(ns))) || cl.Ended()
			}); err != nil {
				return err
			}
			if dc == nil {
				return violf("a %s was refused; the client received %q", desc, cl.Received())
			}
			full := append(append([]byte{}, pkt...), tr.Extra...)
			expected = append(expected, full)
			if err := prefixErr("received by the database", dc.Received(), full); err != nil {
				return err
			}
			if !bytes.Equal(cl.Received(), ns) {
				return violf("a %s: the proxy itself sent %q to the client", desc, cl.Received())
			}
			live = append(live, &sim.Session{Client: cl, DB: dc, Packet: pkt})
			c.Label("accepted")
			c.LabelIf(len(params) > 0 && target != "" && !hasKey(params, "database"), "accepted by user name")
			continue
		}
		c.Label("refused")
		if err := await("the end of the session after a "+desc, func() bool { return cl.Ended() || anyBytes(db, pkt) }); err != nil {
			return err
		}
		if anyBytes(db, pkt) {
			return violf("a %s was passed on to the database server", desc)
		}
		if len(tr.Extra) == 0 {
			got := cl.Received()
			if !bytes.HasPrefix(got, ns) {
				return violf("a %s: the client received %q", desc, got)
			}
			if e := errorResponse(got[len(ns):]); e != nil {
				return violf("a %s: instead of an error response the client received %q: %v", desc, got, e)
			}
		}
	}
	core.Settle(30 * time.Millisecond)
	for _, dc := range db.Conns() {
		r := dc.Received()
		if len(r) == 0 {
			continue
		}
		ok := false
		for _, e := range expected {
			ok = ok || bytes.Equal(e, r)
		}
		if !ok {
			return violf("the database server received %q, which was not in an accepted start-up request (configured: %q)", r, want)
		}
	}
	for _, s := range live {
		if err := alive(s); err != nil {
			return err
		}
	}
	c.NonTrivial()
	c.LabelIf(len(live) > 0 && len(live) < len(cs.Tries), "accepted and refused in one case")
	return nil
}

func hasKey(kv []pgwire.KV, k string) bool {
	for _, p := range kv {
		if p.K == k {
			return true
		}
	}
	return false
}

// anyBytes tells whether the database got a start-up packet with the unique name of pkt.
func anyBytes(db *sim.DB, pkt []byte) bool {
	i := bytes.IndexByte(pkt[8:], 0)
	rest := pkt[8+i+1:]
	tag := rest[:bytes.IndexByte(rest, 0)+1]
	tag = append([]byte("application_name\x00"), tag...)
	for _, dc := range db.Conns() {
		if bytes.Contains(dc.Received(), tag) {
			return true
		}
	}
	return false
}

func init() {
	core.Register(&core.Prop{
		ID:   "C03",
		Rule: "a case is a configured database name and one to four start-up requests with generated parameters (right name, near misses, repetitions, look-alike keys, defaults); non-trivial = every decision was compared with PostgreSQL's own reading of the request",
		Subs: []core.Sub{&core.Check[c03Case]{Name: "start-up requests", Quick: 2400, Thorough: 80000, Gen: genC03, Run: runC03, Delays: func(c c03Case) []yield.Delay { return c.Tries[0].Delays }}},
	})
}
