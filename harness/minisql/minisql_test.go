package minisql

import "testing"

func db() *DB {
	ns := &Table{Cols: []Column{{"oid", OID}, {"nspname", Name}}, Rows: [][]Value{{int64(1), "public"}, {int64(2), "pg_catalog"}, {int64(3), "pgfoo"}, {int64(4), "information_schema"}, {int64(5), "PG_x"}}}
	cl := &Table{Cols: []Column{{"oid", OID}, {"relname", Name}, {"relnamespace", OID}, {"relkind", Char}}}
	for i, k := range []string{"r", "v", "i", "m", "p"} {
		for n := 1; n <= 5; n++ {
			cl.Rows = append(cl.Rows, []Value{int64(100 + 10*i + n), "t", int64(n), k})
		}
	}
	return &DB{Name: "d", Tables: map[string]*Table{"pg_class": cl, "pg_namespace": ns}}
}

func count(t *testing.T, where string, want int) {
	t.Helper()
	r, err := db().Run("SELECT c.oid AS oid, c.relname AS table, n.nspname AS schema FROM pg_class c JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace WHERE "+where, []string{"pg\\_%"})
	if err != nil {
		t.Fatalf("%s: %v", where, err)
	}
	if len(r.Rows) != want {
		t.Errorf("%s: %d rows instead of %d", where, len(r.Rows), want)
	}
}

func TestWhere(t *testing.T) {
	count(t, "true", 25)
	count(t, "n.nspname LIKE 'pg\\_%'", 5)
	count(t, "n.nspname LIKE $1", 5)
	count(t, "n.nspname NOT LIKE 'pg%'", 15)
	count(t, "n.nspname LIKE 'pg_%'", 10)
	count(t, "n.nspname LIKE 'pg!_%' ESCAPE '!'", 5)
	count(t, "n.nspname NOT IN ('information_schema') AND n.nspname NOT LIKE 'pg\\_%' AND c.relkind IN ('r','p','f','m','v');", 12)
	count(t, "NOT (n.nspname = 'information_schema' OR n.nspname ~ '^pg_') AND c.relkind = ANY (ARRAY['r','p'])", 6)
	count(t, "n.nspname !~ '^(pg_|information_schema$)' and relkind = any('{r,p,v}'::\"char\"[])", 9)
	count(t, "left(n.nspname, 3) <> 'pg_'", 20)
	count(t, "n.nspname ILIKE 'pg\\_%'", 10)
	count(t, "n.nspname !~~ 'pg%' OR c.oid = 103", 16)
	count(t, "starts_with(n.nspname::text, 'pg_') IS NOT TRUE and substr(nspname,1,1)='p'", 10)
	count(t, "c.oid BETWEEN 101 AND 103 ORDER BY n.nspname DESC, 2 LIMIT 2", 2)
}

func TestStatements(t *testing.T) {
	for q, want := range map[string]int{
		"SELECT oid FROM pg_class WHERE EXISTS (SELECT 1)":                                                                                             25,
		"SELECT oid FROM pg_class WHERE relnamespace IN (SELECT oid FROM pg_namespace WHERE nspname LIKE 'pg%')":                                       10,
		"SELECT c.oid FROM pg_class c WHERE NOT EXISTS (SELECT 1 FROM pg_namespace n WHERE n.oid = c.relnamespace AND n.nspname ~ '^pg_')":             20,
		"SELECT c.oid, (SELECT nspname FROM pg_namespace n WHERE n.oid = c.relnamespace) AS s FROM pg_class c ORDER BY s, oid":                         25,
		"WITH n AS (SELECT oid, nspname FROM pg_namespace WHERE nspname <> 'pgfoo') SELECT * FROM pg_class c JOIN n ON n.oid = c.relnamespace":         20,
		"SELECT x.oid FROM (SELECT * FROM pg_class WHERE relkind = 'r') x LEFT JOIN pg_namespace n ON n.oid = x.relnamespace AND n.nspname = 'public'": 5,
		"SELECT x.oid FROM pg_class x LEFT JOIN pg_namespace n ON n.oid = x.relnamespace AND n.nspname = 'public' WHERE n.oid IS NULL":                 20,
		"SELECT relkind FROM pg_class UNION SELECT nspname FROM pg_namespace ORDER BY relkind":                                                         10,
		"SELECT oid FROM pg_class WHERE relkind = 'r' UNION ALL SELECT oid FROM pg_class WHERE relkind = 'v' LIMIT 7":                                  7,
		"SELECT oid FROM pg_class WHERE CASE relkind WHEN 'r' THEN true WHEN 'v' THEN true ELSE false END":                                             10,
		"SELECT oid FROM pg_class WHERE relnamespace NOT IN (1, 2) AND relkind IS DISTINCT FROM 'r'":                                                   12,
		"SELECT oid FROM pg_class WHERE relnamespace::regnamespace::text = '\"PG_x\"'":                                                                 5,
		"SELECT oid FROM pg_class WHERE relnamespace <> 'public'::regnamespace":                                                                        20,
		"SELECT relkind FROM pg_class EXCEPT SELECT 'r' FROM pg_namespace":                                                                             4,
		"(SELECT oid FROM pg_class ORDER BY 1 LIMIT 3) UNION ALL (SELECT oid FROM pg_namespace)":                                                       8,
		"SELECT t.k FROM pg_class AS t (o, n, s, k) WHERE t.s = ANY (SELECT oid FROM pg_namespace WHERE nspname = 'public')":                           5,
		"BEGIN READ ONLY": 0,
	} {
		r, err := db().Run(q, nil)
		if err != nil {
			t.Errorf("%s: %v", q, err)
		} else if len(r.Rows) != want {
			t.Errorf("%s: %d rows instead of %d", q, len(r.Rows), want)
		}
	}
}

func TestUnsupported(t *testing.T) {
	for _, q := range []string{"SELECT 1 FROM pg_tables", "DELETE FROM pg_class", "SELECT c.oid::regclass FROM pg_class c", "SELECT count(*) FROM pg_class", "SELECT relkind, count(*) FROM pg_class GROUP BY relkind", "SELECT oid FROM pg_class ORDER BY nothing"} {
		if _, err := db().Run(q, nil); err == nil {
			t.Errorf("%s was evaluated", q)
		}
	}
}
