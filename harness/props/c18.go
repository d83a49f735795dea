package props

import (
	"fmt"
	"os/exec"
	"os/user"
	"sort"
	"strings"
	"sync"

	"github.com/hired/gevulot/pkg/pg"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
)

// C18: database URLs are understood the way PostgreSQL clients understand them.

// c18Part is a component of a URL: what it means and how it is written.
type c18Part struct {
	Means   pgwire.S `json:"means"`
	Written string   `json:"written"`
}

type c18Case struct {
	Scheme   string       `json:"scheme"`
	UserInfo bool         `json:"userinfo,omitempty"`
	User     c18Part      `json:"user"`
	Password *c18Part     `json:"password,omitempty"`
	Host     c18Part      `json:"host"`
	Port     *string      `json:"port,omitempty"` // "" = a colon without a port
	Path     bool         `json:"path,omitempty"`
	DB       c18Part      `json:"db"`
	Query    bool         `json:"query,omitempty"`
	Params   [][2]c18Part `json:"params,omitempty"`
	Trailing bool         `json:"trailing,omitempty"` // an & after the last parameter
}

var (
	c18Bits  = rapid.Uint64()
	c18Runes = []string{"a", "b", "z", "A", "Q", "0", "9", "-", ".", "_", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", ":", "@", "/", "?", "#", "[", "]",
		"%", " ", "\"", "<", ">", "\\", "^", "`", "{", "|", "}", "\t", "\n", "\x01", "\x7f", "é", "日", "\xff"}
)

const (
	c18Unreserved = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
	c18InUser     = "!$&'()*+,;="
	c18InPassword = "!$&'()*+,;=:"
	c18InPath     = "!$&'()*+,;=:@/"
	c18InQuery    = "!$'()*+,;:@/?"
)

// genPart generates a component; raw lists the reserved characters that may be written as they are.
func genPart(t *rapid.T, label string, min, max int, raw string) c18Part {
	n := rapid.IntRange(min, max).Draw(t, label)
	plain := rapid.IntRange(0, 2).Draw(t, label+" plain") == 0
	var p c18Part
	var w strings.Builder
	for i := 0; i < n; i++ {
		bits := c18Bits.Draw(t, label+" char")
		r := c18Runes[int(bits&0xffff)%len(c18Runes)]
		if plain {
			r = string(c18Unreserved[int(bits&0xffff)%36])
		}
		p.Means += pgwire.S(r)
		for j := 0; j < len(r); j++ {
			b := r[j]
			bits >>= 8
			free := strings.IndexByte(c18Unreserved, b) >= 0 && (plain || bits>>8&3 != 0) || strings.IndexByte(raw, b) >= 0 && bits>>8&1 == 0
			switch {
			case b < 0x80 && free:
				w.WriteByte(b)
			case bits>>16&1 == 0:
				fmt.Fprintf(&w, "%%%02X", b)
			default:
				fmt.Fprintf(&w, "%%%02x", b)
			}
		}
	}
	p.Written = w.String()
	return p
}

func genC18(t *rapid.T, env *core.Env) c18Case {
	cs := c18Case{Scheme: rapid.SampledFrom([]string{"postgres", "postgresql"}).Draw(t, "scheme")}
	if rapid.IntRange(0, 3).Draw(t, "userinfo") != 0 {
		cs.UserInfo = true
		cs.User = genPart(t, "user", 0, 10, c18InUser)
		if rapid.Bool().Draw(t, "haspassword") {
			p := genPart(t, "password", 0, 12, c18InPassword)
			cs.Password = &p
		}
	}
	same := func(s string) c18Part { return c18Part{Means: pgwire.S(s), Written: s} }
	switch rapid.IntRange(0, 7).Draw(t, "host") {
	case 0:
		cs.Host = same("")
	case 1:
		cs.Host = same(rapid.SampledFrom([]string{"127.0.0.1", "10.1.2.3", "255.255.255.255"}).Draw(t, "ipv4"))
	case 2, 3:
		h := rapid.SampledFrom([]string{"::1", "fe80::1", "2001:db8::8:800:200c:417a", "::ffff:1.2.3.4", "::"}).Draw(t, "ipv6")
		cs.Host = c18Part{Means: pgwire.S(h), Written: "[" + h + "]"}
		if rapid.IntRange(0, 3).Draw(t, "zone") == 0 {
			cs.Host = c18Part{Means: pgwire.S(h + "%eth0"), Written: "[" + h + "%25eth0]"}
		}
	case 4:
		if rapid.IntRange(0, 3).Draw(t, "rare") == 0 {
			cs.Host = rapid.SampledFrom([]c18Part{{"/var/run/postgresql", "%2Fvar%2Frun%2Fpostgresql"}, {"example.com", "ex%61mple.com"}}).Draw(t, "pcthost")
			break
		}
		cs.Host = rapid.SampledFrom([]c18Part{{"bücher.example", "b%C3%BCcher.example"}, {"日本", "%e6%97%a5%E6%9C%AC"}}).Draw(t, "idn")
	default:
		cs.Host = same(rapid.SampledFrom([]string{"localhost", "db.example.com", "a", "my-db_1", "x--y.z", "DB.Example.COM", "db~1", "a$b!c"}).Draw(t, "name"))
	}
	switch rapid.IntRange(0, 4).Draw(t, "port") {
	case 0, 1:
		p := fmt.Sprint(rapid.SampledFrom([]int{1, 80, 5432, 5433, 6543, 65535}).Draw(t, "portno"))
		cs.Port = &p
	case 2:
		p := ""
		cs.Port = &p
	}
	if rapid.IntRange(0, 4).Draw(t, "path") != 0 {
		cs.Path = true
		cs.DB = genPart(t, "db", 0, 12, c18InPath)
	}
	if rapid.Bool().Draw(t, "query") {
		cs.Query = true
		for i, n := 0, rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5}).Draw(t, "nparams"); i < n; i++ {
			var k c18Part
			switch rapid.IntRange(0, 2).Draw(t, "key") {
			case 0:
				s := rapid.SampledFrom([]string{"user", "password", "host", "port", "dbname"}).Draw(t, "override")
				k = same(s)
				if rapid.IntRange(0, 4).Draw(t, "enckey") == 0 {
					k.Written = fmt.Sprintf("%%%02x%s", s[0], s[1:])
				}
			case 1:
				k = same(rapid.SampledFrom([]string{"sslmode", "application_name", "connect_timeout", "options", "sslrootcert"}).Draw(t, "extra"))
			default:
				k = genPart(t, "key", 1, 6, "")
				if strings.Contains(" user password host port dbname database ", " "+string(k.Means)+" ") {
					k = same("fallback_application_name")
				}
			}
			min := 0
			if strings.Contains(" user password host port dbname ", " "+string(k.Means)+" ") {
				min = 1
			}
			cs.Params = append(cs.Params, [2]c18Part{k, genPart(t, "value", min, 12, c18InQuery)})
		}
		cs.Trailing = rapid.IntRange(0, 9).Draw(t, "trailing") == 0
	}
	return cs
}

func (cs c18Case) url() string {
	u := cs.Scheme + "://"
	if cs.UserInfo {
		u += cs.User.Written
		if cs.Password != nil {
			u += ":" + cs.Password.Written
		}
		u += "@"
	}
	u += cs.Host.Written
	if cs.Port != nil {
		u += ":" + *cs.Port
	}
	if cs.Path {
		u += "/" + cs.DB.Written
	}
	if cs.Query {
		u += "?"
		for i, p := range cs.Params {
			if i > 0 {
				u += "&"
			}
			u += p[0].Written + "=" + p[1].Written
		}
		if cs.Trailing && len(cs.Params) > 0 {
			u += "&" // libpq does not mind
		}
	}
	return u
}

var (
	osUserOnce sync.Once
	osUserName string
)

// osUser is the name of the operating-system user, as PostgreSQL clients determine it.
func osUser() string {
	osUserOnce.Do(func() {
		if out, err := exec.Command("id", "-un").Output(); err == nil {
			osUserName = strings.TrimSpace(string(out))
		} else if u, err := user.Current(); err == nil {
			osUserName = u.Username
		}
	})
	return osUserName
}

func (cs c18Case) want() map[string]string {
	m := map[string]string{"host": "localhost", "port": "5432", "user": osUser()}
	set := func(k string, v pgwire.S) {
		if v != "" {
			m[k] = string(v)
		}
	}
	if cs.UserInfo {
		set("user", cs.User.Means)
		if cs.Password != nil {
			set("password", cs.Password.Means)
		}
	}
	set("host", cs.Host.Means)
	if cs.Port != nil {
		set("port", pgwire.S(*cs.Port))
	}
	if cs.Path {
		set("database", cs.DB.Means)
	}
	for _, p := range cs.Params {
		k := string(p[0].Means)
		if k == "dbname" {
			k = "database"
		}
		m[k] = string(p[1].Means)
	}
	if m["database"] == "" {
		m["database"] = m["user"]
	}
	return m
}

func parseURL(u string) (m map[string]string, err error, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint(r)
		}
	}()
	p, err := pg.ParseDatabaseURI(u)
	return p, err, ""
}

func show(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%q=%q", k, m[k]))
	}
	return strings.Join(s, " ")
}

func runC18(c *core.Ctx, cs c18Case) error {
	u := cs.url()
	got, err, crash := parseURL(u)
	if crash != "" {
		return violf("%s: crash: %s", u, crash)
	}
	want := cs.want()
	if err != nil {
		if strings.Contains(cs.Host.Written, "%") && cs.Host.Means[0] != ':' && isASCII(string(cs.Host.Means)) && strings.Contains(err.Error(), "invalid URL escape") {
			return &core.Violation{Key: "percent-encoded-host", Msg: fmt.Sprintf("the URL %s, whose host is written with percent-encoding, is rejected: %v", u, err)}
		}
		return violf("the URL %s is rejected: %v", u, err)
	}
	norm := func(m map[string]string) map[string]string {
		n := map[string]string{}
		for k, v := range m {
			if v != "" && !(k == "dbname" && v == m["database"]) {
				n[k] = v
			}
		}
		return n
	}
	if show(norm(got)) != show(norm(want)) {
		return violf("the URL %s means %s but was understood as %s", u, show(norm(want)), show(norm(got)))
	}
	if strings.ContainsAny(u, "%[?") {
		c.NonTrivial()
	}
	c.LabelIf(strings.Contains(u, "%"), "percent-encoding")
	c.LabelIf(strings.Contains(u, "["), "IPv6")
	c.LabelIf(len(cs.Params) > 0, "parameters")
	c.LabelIf(!cs.UserInfo || cs.User.Means == "", "default user")
	c.LabelIf(!cs.Path || cs.DB.Means == "", "default database")
	return nil
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// What is not a PostgreSQL URL.

type c18Bad struct {
	URL pgwire.S `json:"url"`
	Why string   `json:"why"`
}

func genC18Bad(t *rapid.T, env *core.Env) c18Bad {
	cs := genC18(t, env)
	if strings.Contains(cs.Host.Written, "%") {
		cs.Host = c18Part{"localhost", "localhost"}
	}
	rest := strings.TrimPrefix(cs.url(), cs.Scheme)
	why := rapid.SampledFrom([]string{"scheme", "scheme", "no scheme", "escape", "bracket", "port", "control", "keywords", "no value", "random"}).Draw(t, "why")
	var u string
	switch why {
	case "scheme":
		u = rapid.SampledFrom([]string{"http", "mysql", "postgre", "postgress", "postgresqls", "pg", "xpostgres", "postgres+ssl", "pgsql", "jdbc:postgresql", "jdbc:postgres", "postgres-ql", "file", "tcp", "postgis"}).Draw(t, "scheme") + rest
	case "no scheme":
		u = rapid.SampledFrom([]string{rest, strings.TrimPrefix(rest, ":"), "/" + strings.TrimPrefix(rest, "://"), "//x/postgres"}).Draw(t, "rest")
	case "escape":
		bad := rapid.SampledFrom([]string{"%zz", "%", "%2", "%g0", "%%"}).Draw(t, "bad")
		where := rapid.IntRange(0, 4).Draw(t, "where")
		switch where {
		case 0:
			cs.UserInfo, cs.User = true, c18Part{"x", bad}
		case 1:
			cs.UserInfo, cs.Password = true, &c18Part{"x", bad}
		case 2:
			cs.Path, cs.DB = true, c18Part{"x", "db" + bad}
		case 3:
			cs.Query, cs.Params = true, append(cs.Params, [2]c18Part{{"k", "application_name"}, {"v", bad}})
		case 4:
			cs.Query, cs.Params = true, append(cs.Params, [2]c18Part{{"k", "k" + bad}, {"v", "v"}})
		}
		u = cs.url()
	case "bracket":
		cs.Host = c18Part{"", rapid.SampledFrom([]string{"[::1", "[", "[::1]x", "[::1]]"}).Draw(t, "host")}
		u = cs.url()
	case "port":
		p := rapid.SampledFrom([]string{"abc", "-1", "5432x", "1 2", "0x10"}).Draw(t, "port")
		cs.Port = &p
		if cs.Host.Written == "" {
			cs.Host = c18Part{"localhost", "localhost"}
		}
		u = cs.url()
	case "control":
		cs.Path, cs.DB = true, c18Part{"x", "d" + rapid.SampledFrom([]string{"\n", "\x00", "\x1f", "\x7f", "\r"}).Draw(t, "ctl") + "b"}
		u = cs.url()
	case "keywords":
		u = rapid.SampledFrom([]string{"", " ", "host=localhost dbname=x", "localhost", "localhost:5432", "/db", "user@host/db", "127.0.0.1:5432/db", "dbname"}).Draw(t, "kw")
	case "no value":
		// libpq: missing key/value separator "=" in URI query parameter
		cs.Query = true
		u = cs.url()
		if len(cs.Params) > 0 && !cs.Trailing {
			u += "&"
		}
		u += rapid.SampledFrom([]string{"x", "sslmode", "connect_timeout", "application%5fname", "%3d"}).Draw(t, "key")
	case "random":
		u = pgwire.Str(t, "random", 20)
		if strings.HasPrefix(strings.ToLower(u), "postgres") {
			u = "x" + u
		}
	}
	return c18Bad{URL: pgwire.S(u), Why: why}
}

func runC18Bad(c *core.Ctx, cs c18Bad) error {
	c.Label(cs.Why)
	c.NonTrivial()
	m, err, crash := parseURL(string(cs.URL))
	if crash != "" {
		return violf("%q: crash: %s", string(cs.URL), crash)
	}
	if err == nil {
		return violf("%q, which is no PostgreSQL URL (%s), was understood as %s", string(cs.URL), cs.Why, show(m))
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C18",
		Rule: "valid: a URL put together from components whose meaning is known (any characters, percent-encoded at random; IPv6; omitted parts; query parameters that add or override), compared with all derived settings; non-trivial = percent-encoding, brackets or a query. Invalid: other schemes, missing schemes, broken escapes, brackets, ports, control characters, no URLs at all; every case counts",
		Subs: []core.Sub{
			&core.Check[c18Case]{Name: "valid URLs", Quick: 150000, Thorough: 8000000, Gen: genC18, Run: runC18},
			&core.Check[c18Bad]{Name: "no database URLs", Quick: 80000, Thorough: 4000000, Gen: genC18Bad, Run: runC18Bad},
		},
	})
}
