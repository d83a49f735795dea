package props

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"

	"github.com/hired/gevulot/pkg/pgmeta"
	"github.com/lib/pq/oid"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/minisql"
	"gevulotverif/pgwire"
)

// C19: the database inspector reports every user table or an error.

type c19Rel struct {
	OID    uint32   `json:"oid"`
	Name   pgwire.S `json:"name"`
	Schema int      `json:"schema"`
	Kind   string   `json:"kind"`
	Part   bool     `json:"part,omitempty"`
}

type c19Fault struct {
	Kind  string `json:"kind"`            // none, error, fatal, cut, reset
	After int    `json:"after,omitempty"` // rows (error, fatal) or bytes (cut, reset)
	Of    int    `json:"of,omitempty"`    // After is counted as a fraction After/Of of the answer if Of > 0
}

type c19Call struct {
	Schemas []pgwire.S `json:"schemas"`
	Rels    []c19Rel   `json:"rels"`
	Many    int        `json:"many,omitempty"`    // that many more tables
	Faults  []c19Fault `json:"faults,omitempty"`  // of the first, second... attempt; the last one for all further ones
	Notices int        `json:"notices,omitempty"` // a notice after that many rows
	Chunk   int        `json:"chunk,omitempty"`
}

type c19Case struct {
	Calls []c19Call `json:"calls"`
}

var c19Schemas = []string{"public", "information_schema", "pg_catalog", "pg_toast", "pg_temp_1", "pg_toast_temp_12", "pg_", "pgfoo", "pg", "PG_x", "my_pg_x",
	"Information_Schema", "information_schema2", "an_information_schema", "pgx_y", "p", "Public", "a b", "quo\"te", "quo'te", "日本", "pg%", "_pg_", "back\\slash", "pg\\_x", "tenant_1"}

var c19Kinds = []string{"r", "r", "r", "p", "f", "v", "m", "r", "p", "f", "v", "m", "i", "I", "S", "t", "c"}

func genC19(t *rapid.T, env *core.Env) c19Case {
	var cs c19Case
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "calls"); i < n; i++ {
		var k c19Call
		used := map[string]bool{}
		for j, m := 0, rapid.IntRange(1, 6).Draw(t, "nschemas"); j < m; j++ {
			s := rapid.SampledFrom(c19Schemas).Draw(t, "schema")
			if rapid.IntRange(0, 5).Draw(t, "odd") == 0 {
				s = pgwire.Str(t, "schemaname", 12)
			}
			if !used[s] && validUTF8(s) && s != "" {
				used[s] = true
				k.Schemas = append(k.Schemas, pgwire.S(s))
			}
		}
		if len(k.Schemas) == 0 {
			k.Schemas = []pgwire.S{"public"}
		}
		oids := map[uint32]bool{}
		for j, m := 0, rapid.IntRange(0, 20).Draw(t, "nrels"); j < m; j++ {
			r := c19Rel{Schema: rapid.IntRange(0, len(k.Schemas)-1).Draw(t, "in"), Kind: rapid.SampledFrom(c19Kinds).Draw(t, "kind"), Part: rapid.IntRange(0, 5).Draw(t, "part") == 0}
			r.OID = rapid.SampledFrom([]uint32{1, 16384, 16385, 99999, 2147483647, 2147483648, 4294967295, 12345, 20000}).Draw(t, "oid") + uint32(j)*7
			if oids[r.OID] || r.OID == 0 {
				continue
			}
			oids[r.OID] = true
			r.Name = pgwire.S(rapid.SampledFrom([]string{"users", "companies", "t", "pg_stuff", "Users", "a b", "x\"y", "orders_2020", "information_schema", "日本"}).Draw(t, "name"))
			if rapid.IntRange(0, 3).Draw(t, "oddname") == 0 {
				s := pgwire.Str(t, "relname", 12)
				if validUTF8(s) && s != "" {
					r.Name = pgwire.S(s)
				}
			}
			k.Rels = append(k.Rels, r)
		}
		if rapid.IntRange(0, 40).Draw(t, "large") == 0 {
			k.Many = rapid.SampledFrom([]int{100, 1000, 1001, 3000}).Draw(t, "many")
		}
		if rapid.IntRange(0, 2).Draw(t, "faulty") != 0 {
			for j, m := 0, rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "nfaults"); j < m; j++ {
				f := c19Fault{Kind: rapid.SampledFrom([]string{"error", "error", "fatal", "cut", "cut", "cut", "reset", "none"}).Draw(t, "fault")}
				if f.Kind != "none" {
					f.After, f.Of = rapid.IntRange(0, 100).Draw(t, "after"), 100
					if rapid.Bool().Draw(t, "early") {
						f.After, f.Of = rapid.IntRange(0, 12).Draw(t, "units"), 0
					}
				}
				k.Faults = append(k.Faults, f)
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "notice") == 0 {
			k.Notices = rapid.IntRange(1, 10).Draw(t, "noticeafter")
		}
		k.Chunk = rapid.SampledFrom([]int{0, 0, 0, 1, 7, 100}).Draw(t, "chunk")
		if k.Many > 0 {
			k.Chunk = 0
		}
		cs.Calls = append(cs.Calls, k)
	}
	return cs
}

func validUTF8(s string) bool { return strings.ToValidUTF8(s, "") == s }

func (k c19Call) rels() []c19Rel {
	rs := append([]c19Rel(nil), k.Rels...)
	for i := 0; i < k.Many; i++ {
		rs = append(rs, c19Rel{OID: uint32(1000000 + i), Name: pgwire.S(fmt.Sprintf("t%d", i)), Schema: i % len(k.Schemas), Kind: "r"})
	}
	return rs
}

func (k c19Call) want() map[oid.Oid]pgmeta.Table {
	m := map[oid.Oid]pgmeta.Table{}
	for _, r := range k.rels() {
		s := string(k.Schemas[r.Schema])
		if s == "information_schema" || strings.HasPrefix(s, "pg_") || !strings.Contains("rpfvm", r.Kind) {
			continue
		}
		m[oid.Oid(r.OID)] = pgmeta.Table{Schema: s, Name: string(r.Name)}
	}
	return m
}

func (k c19Call) catalog(name string) *minisql.DB {
	ns := &minisql.Table{Cols: []minisql.Column{{Name: "oid", Type: minisql.OID}, {Name: "nspname", Type: minisql.Name}, {Name: "nspowner", Type: minisql.OID}}}
	for i, s := range k.Schemas {
		ns.Rows = append(ns.Rows, []minisql.Value{int64(2000 + i), string(s), int64(10)})
	}
	cl := &minisql.Table{Cols: []minisql.Column{{Name: "oid", Type: minisql.OID}, {Name: "relname", Type: minisql.Name}, {Name: "relnamespace", Type: minisql.OID},
		{Name: "relkind", Type: minisql.Char}, {Name: "relispartition", Type: minisql.Bool}, {Name: "relpersistence", Type: minisql.Char}, {Name: "relowner", Type: minisql.OID},
		{Name: "reltuples", Type: minisql.Int8}, {Name: "relhasindex", Type: minisql.Bool}, {Name: "relnatts", Type: minisql.Int4}}}
	for i, r := range k.rels() {
		pers := "p"
		if i%4 == 3 {
			pers = "u"
		}
		if strings.HasPrefix(string(k.Schemas[r.Schema]), "pg_temp") {
			pers = "t"
		}
		cl.Rows = append(cl.Rows, []minisql.Value{int64(r.OID), string(r.Name), int64(2000 + r.Schema), r.Kind, r.Part, pers, int64(10), int64(i % 3), i%2 == 0, int64(i % 5)})
	}
	col := func(n string) minisql.Column { return minisql.Column{Name: n, Type: minisql.Name} }
	tables := &minisql.Table{Cols: []minisql.Column{col("schemaname"), col("tablename"), col("tableowner")}}
	views := &minisql.Table{Cols: []minisql.Column{col("schemaname"), col("viewname"), col("viewowner")}}
	matviews := &minisql.Table{Cols: []minisql.Column{col("schemaname"), col("matviewname"), col("matviewowner")}}
	is := &minisql.Table{Cols: []minisql.Column{col("table_catalog"), col("table_schema"), col("table_name"), col("table_type")}}
	for _, r := range k.rels() {
		s, n := string(k.Schemas[r.Schema]), string(r.Name)
		switch r.Kind {
		case "r", "p":
			tables.Rows = append(tables.Rows, []minisql.Value{s, n, "u"})
			typ := "BASE TABLE"
			if strings.HasPrefix(s, "pg_temp") {
				typ = "LOCAL TEMPORARY"
			}
			is.Rows = append(is.Rows, []minisql.Value{name, s, n, typ})
		case "v":
			views.Rows = append(views.Rows, []minisql.Value{s, n, "u"})
			is.Rows = append(is.Rows, []minisql.Value{name, s, n, "VIEW"})
		case "f":
			is.Rows = append(is.Rows, []minisql.Value{name, s, n, "FOREIGN"})
		case "m":
			matviews.Rows = append(matviews.Rows, []minisql.Value{s, n, "u"})
		}
	}
	return &minisql.DB{Name: name, Tables: map[string]*minisql.Table{"pg_class": cl, "pg_namespace": ns, "pg_tables": tables, "pg_views": views,
		"pg_matviews": matviews, "information_schema.tables": is}}
}

// pgServer answers queries about a catalog.
type pgServer struct {
	ln net.Listener

	mu          sync.Mutex
	conns       map[net.Conn]bool
	call        *c19Call // what queries are answered with; nil = not asked for the mapping yet
	db          *minisql.DB
	attempts    int
	sound       int // attempts answered to the end
	broken      int // attempts that broke off before the end of the result
	unsupported error
	sql         string
}

func newPGServer() (*pgServer, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &pgServer{ln: ln, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
	return s, nil
}

func (s *pgServer) stop() {
	s.ln.Close()
	s.mu.Lock()
	for c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
}

var errCut = fmt.Errorf("cut")

// answer is the outgoing side of an attempt.
type answer struct {
	c     net.Conn
	limit int // bytes that may still be written, -1 = any number
	reset bool
	chunk int

	refused bool // the answer was an error
}

func (a *answer) write(b []byte) error {
	cut := false
	if a.limit >= 0 && len(b) > a.limit {
		b, cut = b[:a.limit], true
	}
	if a.limit >= 0 {
		a.limit -= len(b)
	}
	for len(b) > 0 {
		n := len(b)
		if a.chunk > 0 && a.chunk < n {
			n = a.chunk
		}
		if _, err := a.c.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	if cut {
		if a.reset {
			_ = a.c.(*net.TCPConn).SetLinger(0)
		}
		return errCut
	}
	return nil
}

func readMsg(r *bufio.Reader) (t byte, body []byte, err error) {
	var h [5]byte
	if _, err = io.ReadFull(r, h[:]); err != nil {
		return
	}
	n := int(binary.BigEndian.Uint32(h[1:])) - 4
	if n < 0 || n > 1<<20 {
		return 0, nil, fmt.Errorf("bad length")
	}
	body = make([]byte, n)
	_, err = io.ReadFull(r, body)
	return h[0], body, err
}

func (s *pgServer) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		var h [8]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[:])) - 8
		if n < 0 || n > 1<<16 {
			return
		}
		rest := make([]byte, n)
		if _, err := io.ReadFull(r, rest); err != nil {
			return
		}
		if binary.BigEndian.Uint32(h[4:]) == pgwire.SSLRequest {
			_, _ = c.Write([]byte("N"))
			continue
		}
		break
	}
	var hello []byte
	hello = append(hello, pgwire.Frame('R', pgwire.I32(nil, 0))...)
	for _, kv := range [][2]string{{"server_version", "12.4"}, {"client_encoding", "UTF8"}, {"standard_conforming_strings", "on"}, {"TimeZone", "UTC"}} {
		hello = append(hello, pgwire.Frame('S', pgwire.CStr(pgwire.CStr(nil, kv[0]), kv[1]))...)
	}
	hello = append(hello, pgwire.Frame('K', pgwire.I32(pgwire.I32(nil, 1), 2))...)
	hello = append(hello, pgwire.Frame('Z', []byte("I"))...)
	if _, err := c.Write(hello); err != nil {
		return
	}
	var stmt string
	var nparams int
	var params []string
	failed := false // in the extended protocol: skip to Sync
	out := &answer{c: c, limit: -1}
	txn := byte('I')
	ran := func(sql string, ok bool) {
		switch w := strings.ToUpper(strings.TrimSpace(sql)); {
		case strings.HasPrefix(w, "BEGIN"), strings.HasPrefix(w, "START"):
			txn = 'T'
		case strings.HasPrefix(w, "COMMIT"), strings.HasPrefix(w, "END"), strings.HasPrefix(w, "ROLLBACK"):
			txn = 'I'
		case txn == 'T' && !ok:
			txn = 'E'
		}
	}
	for {
		t, body, err := readMsg(r)
		if err != nil {
			return
		}
		str := func() string {
			i := bytes.IndexByte(body, 0)
			if i < 0 {
				body = nil
				return ""
			}
			x := string(body[:i])
			body = body[i+1:]
			return x
		}
		switch t {
		case 'X':
			return
		case 'Q':
			out = s.begin(c)
			sql := str()
			if s.answer(out, sql, nil, true) != nil {
				return
			}
			ran(sql, !out.refused)
			if out.write(pgwire.Frame('Z', []byte{txn})) != nil {
				return
			}
		case 'P':
			str()
			stmt = str()
			nparams = strings.Count(stmt, "$")
			failed = false
			_, _ = c.Write(pgwire.Frame('1', nil))
		case 'D':
			if failed {
				continue
			}
			cols, err := s.describe(stmt, nparams)
			if err != nil {
				_, _ = c.Write(errorFields("ERROR", "42601", err.Error()))
				failed = true
				continue
			}
			if body[0] == 'S' {
				pd := pgwire.I16(nil, nparams)
				for i := 0; i < nparams; i++ {
					pd = pgwire.I32(pd, minisql.Text)
				}
				_, _ = c.Write(pgwire.Frame('t', pd))
			}
			if cols == nil {
				_, _ = c.Write(pgwire.Frame('n', nil))
				continue
			}
			_, _ = c.Write(rowDescription(cols))
		case 'B':
			str()
			str()
			params = nil
			rd := func(n int) []byte {
				if n < 0 || n > len(body) {
					n = len(body)
				}
				x := body[:n]
				body = body[n:]
				return x
			}
			u16 := func() int { x := append(rd(2), 0, 0); return int(x[0])<<8 | int(x[1]) }
			nf := u16()
			rd(2 * nf)
			np := u16()
			for i := 0; i < np; i++ {
				x := rd(4)
				if len(x) < 4 {
					return
				}
				params = append(params, string(rd(int(int32(binary.BigEndian.Uint32(x))))))
			}
			_, _ = c.Write(pgwire.Frame('2', nil))
		case 'E':
			if failed {
				continue
			}
			out = s.begin(c)
			if s.answer(out, stmt, params, false) != nil {
				return
			}
			ran(stmt, !out.refused)
			failed = out.refused
		case 'C':
			_, _ = c.Write(pgwire.Frame('3', nil))
		case 'S':
			failed = false
			if out.write(pgwire.Frame('Z', []byte{txn})) != nil {
				return
			}
		}
	}
}

func errorFields(sev, code, msg string) []byte {
	var b []byte
	for _, f := range []struct {
		t byte
		v string
	}{{'S', sev}, {'V', sev}, {'C', code}, {'M', msg}} {
		b = pgwire.CStr(append(b, f.t), f.v)
	}
	return pgwire.Frame('E', append(b, 0))
}

func rowDescription(cols []minisql.Column) []byte {
	b := pgwire.I16(nil, len(cols))
	for _, c := range cols {
		b = pgwire.CStr(b, c.Name)
		b = pgwire.I16(pgwire.I32(b, 0), 0)
		b = pgwire.I16(pgwire.I32(b, c.Type), -1)
		b = pgwire.I16(pgwire.I32(b, -1), 0)
	}
	return pgwire.Frame('T', b)
}

func (s *pgServer) begin(c net.Conn) *answer {
	return &answer{c: c, limit: -1}
}

func (s *pgServer) describe(sql string, n int) ([]minisql.Column, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	db := s.db
	if db == nil {
		db = (c19Call{}).catalog("d")
	}
	res, err := db.Run(sql, make([]string, n))
	if err != nil {
		s.unsupported, s.sql = err, sql
		return nil, err
	}
	if res == nil || res.Tag != "" {
		return nil, nil
	}
	return res.Cols, nil
}

// answer runs a query; an error means that the connection is to be dropped.
func (s *pgServer) answer(out *answer, sql string, params []string, simple bool) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	var call c19Call
	fault := c19Fault{Kind: "none"}
	db := (c19Call{}).catalog("d")
	counted := s.call != nil
	if counted {
		call, db = *s.call, s.db
		if len(call.Faults) > 0 {
			i := s.attempts
			if i >= len(call.Faults) {
				i = len(call.Faults) - 1
			}
			fault = call.Faults[i]
		}
		out.chunk = call.Chunk
	}
	res, err := db.Run(sql, params)
	if err != nil {
		if _, ok := err.(*minisql.Unsupported); !ok {
			err = &minisql.Unsupported{What: err.Error()}
		}
		s.unsupported, s.sql = err, sql
		out.refused = true
		return out.write(errorFields("ERROR", "42601", err.Error()))
	}
	if res == nil {
		return out.write(pgwire.Frame('I', nil))
	}
	if res.Tag != "" {
		return out.write(pgwire.Frame('C', pgwire.CStr(nil, res.Tag)))
	}
	if counted {
		s.attempts++
	}
	var msgs [][]byte
	if simple {
		msgs = append(msgs, rowDescription(res.Cols))
	}
	for i, r := range res.Rows {
		if call.Notices > 0 && i == call.Notices {
			msgs = append(msgs, append([]byte{'N'}, errorFields("NOTICE", "00000", "by the way")[1:]...))
		}
		b := pgwire.I16(nil, len(r))
		for _, v := range r {
			if v == nil {
				b = pgwire.I32(b, -1)
				continue
			}
			var x string
			switch v := v.(type) {
			case bool:
				x = map[bool]string{true: "t", false: "f"}[v]
			default:
				x = fmt.Sprint(v)
			}
			b = append(pgwire.I32(b, len(x)), x...)
		}
		msgs = append(msgs, pgwire.Frame('D', b))
	}
	done := pgwire.Frame('C', pgwire.CStr(nil, fmt.Sprintf("SELECT %d", len(res.Rows))))
	total := len(done)
	for _, m := range msgs {
		total += len(m)
	}
	switch fault.Kind {
	case "error", "fatal":
		after := fault.After
		if fault.Of > 0 {
			after = len(msgs) * fault.After / fault.Of
		}
		if after > len(msgs) {
			after = len(msgs)
		}
		sev := "ERROR"
		if fault.Kind == "fatal" {
			sev = "FATAL"
		}
		s.broken++
		out.refused = true
		if err := out.write(append(bytes.Join(msgs[:after], nil), errorFields(sev, "57014", "canceling statement due to user request")...)); err != nil {
			return err
		}
		if fault.Kind == "fatal" {
			return errCut
		}
		return nil
	case "cut", "reset":
		out.limit = fault.After
		if fault.Of > 0 {
			out.limit = total * fault.After / fault.Of
		}
		out.reset = fault.Kind == "reset"
		if out.limit < total {
			s.broken++
		}
		// Otherwise it breaks in what follows.
	default:
		if counted {
			s.sound++
		}
	}
	return out.write(append(bytes.Join(msgs, nil), done...))
}

func (s *pgServer) set(k *c19Call) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.call, s.db = k, k.catalog("d")
	s.attempts, s.sound, s.broken, s.unsupported = 0, 0, 0, nil
}

func runC19(c *core.Ctx, cs c19Case) error {
	s, err := newPGServer()
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(s.stop)
	dsn := fmt.Sprintf("postgres://u:p@%s/d?sslmode=disable", s.ln.Addr())
	var insp *pgmeta.Inspector
	a := runAsync("Inspect", func() (err error) { insp, err = pgmeta.Inspect(dsn); return err })
	if err := await("the return of Inspect", a.returned); err != nil {
		return err
	}
	if a.err != nil {
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.unsupported != nil {
			c.Label("SQL not interpretable")
			return nil
		}
		return violf("the inspector cannot connect to a working database: %v", a.err)
	}
	c.Cleanup(func() { _ = insp.Close() })
	hurt := false // an earlier call may have left broken connections behind
	for i := range cs.Calls {
		k := cs.Calls[i]
		s.set(&k)
		var got map[oid.Oid]pgmeta.Table
		a := runAsync("OIDTableMapping", func() (err error) { got, err = insp.OIDTableMapping(); return err })
		if err := await("the return of OIDTableMapping", a.returned); err != nil {
			return err
		}
		s.mu.Lock()
		attempts, sound, broken, unsupported, sql := s.attempts, s.sound, s.broken, s.unsupported, s.sql
		s.mu.Unlock()
		if unsupported != nil {
			c.Label("SQL not interpretable")
			_ = sql
			return nil
		}
		want := k.want()
		if a.err == nil {
			if attempts > 0 && broken == attempts {
				return violf("call %d: every answer of the database broke off or was an error (%v), but the inspector reports no error and %s", i, k.Faults, showTables(got))
			}
			if d := diffTables(got, want); d != "" {
				return violf("call %d: the mapping is wrong: %s\ncatalog: %s", i, d, showCatalog(k))
			}
			c.Label("mapping compared")
			c.LabelIf(attempts > 1, "mapping after a retry")
		} else {
			if sound == attempts && attempts > 0 && !hurt && len(k.Faults) == 0 {
				return violf("call %d: the database answered without any error, but the inspector reports %v", i, a.err)
			}
			if len(got) > 0 {
				c.Label("error with a partial mapping beside it")
			}
			c.Label("error reported")
		}
		for _, f := range k.Faults {
			if f.Kind != "none" {
				hurt = hurt || f.Kind != "error"
				c.Label("fault " + f.Kind)
			}
		}
		if len(k.Rels) > 0 {
			c.NonTrivial()
		}
	}
	return nil
}

func showTables(m map[oid.Oid]pgmeta.Table) string {
	var s []string
	for o, t := range m {
		s = append(s, fmt.Sprintf("%d=%q.%q", o, t.Schema, t.Name))
	}
	sort.Strings(s)
	if len(s) > 20 {
		s = append(s[:20], "...")
	}
	return fmt.Sprintf("%d tables {%s}", len(m), strings.Join(s, " "))
}

func showCatalog(k c19Call) string {
	var s []string
	for _, r := range k.rels() {
		s = append(s, fmt.Sprintf("%d=%q.%q(%s)", r.OID, string(k.Schemas[r.Schema]), string(r.Name), r.Kind))
		if len(s) > 20 {
			break
		}
	}
	return strings.Join(s, " ")
}

func diffTables(got, want map[oid.Oid]pgmeta.Table) string {
	var d []string
	for o, t := range want {
		if g, ok := got[o]; !ok {
			d = append(d, fmt.Sprintf("%d=%q.%q is missing", o, t.Schema, t.Name))
		} else if g != t {
			d = append(d, fmt.Sprintf("%d is %q.%q instead of %q.%q", o, g.Schema, g.Name, t.Schema, t.Name))
		}
	}
	for o, t := range got {
		if _, ok := want[o]; !ok {
			d = append(d, fmt.Sprintf("%d=%q.%q does not belong there", o, t.Schema, t.Name))
		}
	}
	sort.Strings(d)
	if len(d) > 6 {
		d = append(d[:6], "...")
	}
	return strings.Join(d, ", ")
}

func init() {
	core.Register(&core.Prop{
		ID:   "C19",
		Rule: "a case is 1 to 3 calls of the inspector against an in-process PostgreSQL server that evaluates the inspector's own SQL over a generated catalog (schema names close to the excluded ones, all kinds of relations, large ids) and answers in full, with an error after any row, or breaking off after any byte; non-trivial = a call with at least one relation in the catalog",
		Subs: []core.Sub{
			&core.Check[c19Case]{Name: "catalogs and broken answers", Quick: 16000, Thorough: 800000, Gen: genC19, Run: runC19},
		},
	})
}
