package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/BurntSushi/toml"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/sim"
)

// C12: edits to the configuration file take effect; bad edits are ignored.

// Texts contain placeholders: {L0}.. listen addresses, {D0}.. database URLs.
const (
	c12Listens = 4
	c12DBs     = 3
)

type c12Op struct {
	Op     string `json:"op"` // rewrite, overwrite, append, truncate, touch, session
	Kind   string `json:"kind,omitempty"`
	Text   string `json:"text,omitempty"`
	Chunks []int  `json:"chunks,omitempty"`
	GapUs  int    `json:"gap_us,omitempty"`
	At     int    `json:"at,omitempty"`
	Settle bool   `json:"settle,omitempty"` // wait for the effect before going on
}

type c12Case struct {
	Path  string  `json:"path"`
	Start string  `json:"start"`
	Ops   []c12Op `json:"ops"`
}

func c12Valid(t *rapid.T) string {
	l := fmt.Sprintf("{L%d}", rapid.IntRange(0, c12Listens-1).Draw(t, "listen"))
	if rapid.IntRange(0, 7).Draw(t, "unbindable") == 0 {
		l = rapid.SampledFrom([]string{"{BUSY}", "nonsense", "127.0.0.1:99999", "192.0.2.1:5000", "127.0.0.1"}).Draw(t, "bad address")
	}
	d := fmt.Sprintf("{D%d}", rapid.IntRange(0, c12DBs-1).Draw(t, "db"))
	listen := fmt.Sprintf(rapid.SampledFrom([]string{"listen = \"%s\"", "listen = \"%s\"", "listen='%s'", "\tlisten\t=\t\"%s\"   # where", "\"listen\" = \"%s\"", "listen = \"\"\"%s\"\"\""}).Draw(t, "style"), l)
	url := fmt.Sprintf(rapid.SampledFrom([]string{"database-url = \"%s\"", "database-url = \"%s\"", "database-url='%s' # which", "\"database-url\" = \"%s\""}).Draw(t, "style"), d)
	lines := []string{listen, url}
	if rapid.Bool().Draw(t, "swap") {
		lines[0], lines[1] = lines[1], lines[0]
	}
	extras := []string{"", "# listen = \"127.0.0.1:1\"", "unknown = 5", "other = [\"listen\", \"x\"]", "# " + strings.Repeat("padding ", 40), "   ", "date = 2020-01-01T00:00:00Z", "text = \"listen = 7\""}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "extras"); i < n; i++ {
		e := rapid.SampledFrom(extras).Draw(t, "extra")
		if e == "unknown = 5" || strings.HasPrefix(e, "other") || strings.HasPrefix(e, "date") || strings.HasPrefix(e, "text") {
			e = fmt.Sprintf("k%d-%s", i, e)
		}
		at := rapid.IntRange(0, len(lines)).Draw(t, "at")
		lines = append(lines[:at:at], append([]string{e}, lines[at:]...)...)
	}
	if rapid.IntRange(0, 4).Draw(t, "table") == 0 {
		lines = append(lines, "[other]", "listen = \"127.0.0.1:2\"", "database-url = 'x'")
	}
	if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
		lines = append([]string{strings.Repeat("# "+strings.Repeat("x", 70)+"\n", rapid.SampledFrom([]int{20, 200, 3000}).Draw(t, "how big"))}, lines...)
	}
	eol := "\n"
	if rapid.IntRange(0, 5).Draw(t, "crlf") == 0 {
		eol = "\r\n"
	}
	s := strings.Join(lines, eol)
	if rapid.IntRange(0, 3).Draw(t, "noeol") != 0 {
		s += eol
	}
	return s
}

func c12Bad(t *rapid.T) (text, kind string) {
	kind = rapid.SampledFrom([]string{"empty", "blank", "comment", "no listen", "empty listen", "number", "list", "in a table", "duplicate", "unterminated", "garbage", "binary", "cut", "json"}).Draw(t, "bad")
	d := fmt.Sprintf("{D%d}", rapid.IntRange(0, c12DBs-1).Draw(t, "db"))
	l := fmt.Sprintf("{L%d}", rapid.IntRange(0, c12Listens-1).Draw(t, "listen"))
	url := "database-url = \"" + d + "\"\n"
	switch kind {
	case "empty":
		return "", kind
	case "blank":
		return "\n  \n\n", kind
	case "comment":
		return "# listen = \"" + l + "\"\n", kind
	case "no listen":
		return url, kind
	case "empty listen":
		return "listen = \"\"\n" + url, kind
	case "number":
		return "listen = 5432\n" + url, kind
	case "list":
		return "listen = [\"" + l + "\"]\n" + url, kind
	case "in a table":
		return url + "[server]\nlisten = \"" + l + "\"\n", kind
	case "duplicate":
		return "listen = \"" + l + "\"\n" + url + "listen = \"" + l + "\"\n", kind
	case "unterminated":
		return url + "listen = \"" + l + "\n", kind
	case "garbage":
		return rapid.SampledFrom([]string{"listen {L0}\n", "<<<<<<< HEAD\nlisten = \"{L1}\"\n=======\n", "listen = \"{L0}\"\n]]]\n", "listen: {L1}\n", "= \"{L0}\"\n", "listen = {L0}\n", "listen = \"{L2}\" \"{L1}\"\n"}).Draw(t, "garbage"), kind
	case "binary":
		return "listen = \"{L0}\"\n\x00\x01\x02\xff\xfe\n", kind
	case "cut":
		v := "database-url = \"" + d + "\"\nlisten = \"" + l
		return v, kind
	case "json":
		return "{\"listen\": \"" + l + "\", \"database-url\": \"" + d + "\"}\n", kind
	}
	panic(kind)
}

func genC12(t *rapid.T, env *core.Env) c12Case {
	cs := c12Case{
		Path:  rapid.SampledFrom([]string{"absolute", "relative", "default", "symlink", "dir symlink", "spaces", "dotted"}).Draw(t, "path"),
		Start: "listen = \"{L0}\"\ndatabase-url = \"{D0}\"\n",
	}
	n := rapid.IntRange(1, 14).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := c12Op{Op: rapid.SampledFrom([]string{"rewrite", "rewrite", "rewrite", "rewrite", "overwrite", "overwrite", "append", "truncate", "touch", "session", "session"}).Draw(t, "op")}
		switch o.Op {
		case "rewrite", "overwrite":
			if rapid.IntRange(0, 2).Draw(t, "valid") != 0 {
				o.Text, o.Kind = c12Valid(t), "valid"
			} else {
				o.Text, o.Kind = c12Bad(t)
			}
			if rapid.Bool().Draw(t, "chunked") {
				o.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 5, 10, 20, 30, 50, 200, 4096}), 1, 3).Draw(t, "chunks")
				o.GapUs = rapid.SampledFrom([]int{0, 0, 50, 500, 3000, 20000}).Draw(t, "gap")
			}
		case "append":
			o.Text = rapid.SampledFrom([]string{"\n# a comment\n", "\nlisten = \"{L1}\"\n", "garbage", "\n[section]\nlisten = \"{L2}\"\n", "\n", "\n\n\nmore = 1\n", "\ndatabase-url = \"{D1}\"\n"}).Draw(t, "append")
		case "touch":
			o.At = rapid.SampledFrom([]int{0, 0, 1, 24 * 365, -24 * 365 * 20}).Draw(t, "hours")
		case "truncate":
			o.At = rapid.SampledFrom([]int{0, 0, 1, 10, 25, 40, 60, 1000000}).Draw(t, "at")
		}
		o.Settle = rapid.IntRange(0, 2).Draw(t, "settle") != 0
		cs.Ops = append(cs.Ops, o)
	}
	return cs
}

// running is the program with a configuration file of its own.
type running struct {
	p       *sim.Proc
	path    string
	dbs     []*sim.DB
	names   []string
	listens []string
	rep     *strings.Replacer
	known   map[string]bool // listen addresses that cannot be bound
	witness []*witness
}

// c12World prepares everything but the program.
func c12World(c *core.Ctx, pathKind, start string) (r *running, args []string, dir string, err error) {
	r = &running{known: map[string]bool{"nonsense": true, "127.0.0.1:99999": true, "192.0.2.1:5000": true, "127.0.0.1": true}}
	if dir, err = scratchDir(c); err != nil {
		return nil, nil, "", err
	}
	var pairs []string
	for i := 0; i < c12Listens; i++ {
		h := ownHost(c)
		p, err := freePort(h)
		if err != nil {
			return nil, nil, "", inconcf("%v", err)
		}
		r.listens = append(r.listens, fmt.Sprintf("%s:%d", h, p))
		pairs = append(pairs, fmt.Sprintf("{L%d}", i), r.listens[i])
	}
	busy, err := sim.Listen(ownHost(c), 0, 0)
	if err != nil {
		return nil, nil, "", inconcf("%v", err)
	}
	c.Cleanup(func() { _ = busy.Close() })
	pairs = append(pairs, "{BUSY}", busy.Addr().String())
	r.known[busy.Addr().String()] = true
	for i := 0; i < 2; i++ {
		d, err := sim.NewDB(ownHost(c))
		if err != nil {
			return nil, nil, "", inconcf("%v", err)
		}
		c.Cleanup(d.Stop)
		r.dbs = append(r.dbs, d)
	}
	// Databases 0 and 1: two servers; 2: another database of the first server.
	r.dbs = append(r.dbs, r.dbs[0])
	r.names = []string{"app", "app", "two"}
	for i, d := range r.dbs {
		pairs = append(pairs, fmt.Sprintf("{D%d}", i), d.URL(r.names[i]))
	}
	r.rep = strings.NewReplacer(pairs...)
	real := filepath.Join(dir, "my.toml")
	arg := real
	switch pathKind {
	case "relative":
		arg = "my.toml"
	case "dotted":
		arg = "./sub/../my.toml"
		_ = os.Mkdir(filepath.Join(dir, "sub"), 0o755)
	case "default":
		real = filepath.Join(dir, "gevulot.toml")
		arg = ""
	case "symlink":
		arg = filepath.Join(dir, "link.toml")
		_ = os.Symlink("my.toml", arg)
	case "dir symlink":
		_ = os.Mkdir(filepath.Join(dir, "etc"), 0o755)
		_ = os.Symlink("etc", filepath.Join(dir, "conf"))
		real = filepath.Join(dir, "etc", "my.toml")
		arg = "conf/my.toml"
	case "spaces":
		_ = os.Mkdir(filepath.Join(dir, "a b"), 0o755)
		real = filepath.Join(dir, "a b", "ümläut config.toml")
		arg = real
	}
	r.path = real
	if err := os.WriteFile(real, []byte(r.rep.Replace(start)), 0o644); err != nil {
		return nil, nil, "", inconcf("%v", err)
	}
	if arg != "" {
		args = []string{"--config", arg}
	}
	return r, args, dir, nil
}

// c12Config is what a text means.
type c12Config struct {
	Listen      string
	DatabaseURL string `toml:"database-url"`
}

func c12Decode(text []byte) (cfg c12Config, ok bool) {
	if _, err := toml.Decode(string(text), &cfg); err != nil {
		return cfg, false
	}
	return cfg, cfg.Listen != ""
}

// c12State is what the configuration in force may be.
type c12State struct {
	listens map[string]bool // where the program may listen
	urls    map[string]bool
}

// edited works out the possible states after the file went through the given contents in quick succession: contents
// overtaken by others may or may not have been noticed, the last ones are.
func (r *running) edited(s c12State, contents [][]byte) c12State {
	if len(contents) == 0 {
		return s
	}
	copyOf := func(m map[string]bool) map[string]bool {
		n := map[string]bool{}
		for k := range m {
			n[k] = true
		}
		return n
	}
	n := c12State{copyOf(s.listens), copyOf(s.urls)}
	for i, b := range contents {
		cfg, ok := c12Decode(b)
		if !ok {
			continue
		}
		if i == len(contents)-1 {
			n.urls = map[string]bool{cfg.DatabaseURL: true}
			if !r.known[cfg.Listen] {
				n.listens = map[string]bool{cfg.Listen: true}
			}
			continue
		}
		n.urls[cfg.DatabaseURL] = true
		if !r.known[cfg.Listen] {
			n.listens[cfg.Listen] = true
		}
	}
	return n
}

func keysOf(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// listensAt returns the single address at which the program listens.
func (r *running) listensAt(allowed map[string]bool) (at string, ok bool) {
	l := r.p.Listening()
	if len(l) != 1 {
		return "", false
	}
	for a := range l {
		at = a
	}
	return at, allowed[at]
}

// verify checks that the program has arrived in one of the possible states, and narrows them down to what is observed.
func (r *running) verify(c *core.Ctx, s c12State, when string) (c12State, error) {
	var at string
	for i := 0; i < 2; i++ { // the second time after a pause: the first may have seen something on its way elsewhere
		if err := awaitProc(r.p, fmt.Sprintf("%s: listening at %s and nowhere else", when, keysOf(s.listens)), func() (ok bool) {
			at, ok = r.listensAt(s.listens)
			return ok
		}); err != nil {
			if core.IsViolation(err) {
				err = violf("%v\nlistening at: %s\nfile: %s", err, keysOf(r.p.Listening()), r.contents())
			}
			return s, err
		}
		if i == 0 {
			r.p.AwaitRest(25*time.Millisecond, 20*time.Second)
		}
	}
	if len(s.listens) > 1 {
		// Not known in advance: wait until the dust settles.
		r.p.AwaitRest(300*time.Millisecond, 20*time.Second)
		var ok bool
		if at, ok = r.listensAt(s.listens); !ok {
			return s, violf("%s: the program listens at %s instead of %s", when, keysOf(r.p.Listening()), keysOf(s.listens))
		}
	}
	s.listens = map[string]bool{at: true}
	// Which database do new sessions get? (Half-written contents may name strange ones.)
	real := map[string]bool{}
	for i := range r.dbs {
		real[r.dbs[i].URL(r.names[i])] = true
	}
	known := true
	for u := range s.urls {
		known = known && real[u]
	}
	if known {
		var got string
		for try := 0; ; try++ {
			quiet := 40 * time.Millisecond
			if try > 0 {
				quiet = time.Duration(try) * 1500 * time.Millisecond
			}
			r.p.AwaitRest(quiet, 60*time.Second)
			var err error
			if got, err = r.route(c, at); err != nil {
				return s, err
			}
			if s.urls[got] {
				break
			}
			if try == 3 {
				return s, violf("%s: new sessions get %q, but the configuration in force is %s\nfile: %s\nstdout: %s", when, got, keysOf(s.urls), r.contents(), tailText(r.p.Stdout()))
			}
		}
		s.urls = map[string]bool{got: true}
	}
	for _, w := range r.witness {
		w.talk(1)
		if err := w.check(when); err != nil {
			return s, err
		}
	}
	if done, _ := r.p.Exited(); done {
		return s, violf("%s: the program ended: %s", when, died(r.p))
	}
	return s, nil
}

func (r *running) contents() string {
	b, _ := os.ReadFile(r.path)
	if len(b) > 700 {
		return fmt.Sprintf("%q... (%d bytes)", b[:700], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// route finds out which database a new session gets by asking for each of them.
func (r *running) route(c *core.Ctx, at string) (string, error) {
	var got []string
	for _, name := range []string{"app", "two"} {
		pkt := startup(name)
		cl, err := dial(at, 0, false)
		if err != nil {
			return "", err
		}
		cl.Send(pkt)
		where := -1
		var dc *sim.DBConn
		err = awaitProc(r.p, "the outcome of a start-up request", func() bool {
			for i := 0; i < 2; i++ {
				if dc = r.dbs[i].Find(pkt); dc != nil {
					where = i
					return true
				}
			}
			return cl.Ended()
		})
		if err != nil {
			cl.Stop()
			return "", err
		}
		if where >= 0 {
			got = append(got, r.dbs[where].URL(name))
			if len(r.witness) < 8 {
				c.Cleanup(cl.Stop)
				c.Cleanup(dc.Stop)
				r.witness = append(r.witness, &witness{s: &sim.Session{Client: cl, DB: dc, Packet: pkt}})
				continue
			}
		}
		cl.Stop()
	}
	if len(got) > 1 {
		return "", violf("sessions for both databases %v were let through at once", got)
	}
	return strings.Join(got, " "), nil
}

func chunked(b []byte, sizes []int) [][]byte {
	if len(sizes) == 0 {
		return [][]byte{b}
	}
	var out [][]byte
	for i := 0; len(b) > 0; i++ {
		n := sizes[i%len(sizes)]
		if i > 60 || n > len(b) {
			n = len(b)
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

func runC12(c *core.Ctx, cs c12Case) error {
	r, args, dir, err := c12World(c, cs.Path, cs.Start)
	if err != nil {
		return err
	}
	cur, err := os.ReadFile(r.path)
	if err != nil {
		return inconcf("%v", err)
	}
	if r.p, err = runProgram(c, args, dir, baseEnv(dir)); err != nil {
		return err
	}
	cfg, ok := c12Decode(cur)
	if !ok {
		return inconcf("bad start configuration %q", cur)
	}
	state := c12State{map[string]bool{cfg.Listen: true}, map[string]bool{cfg.DatabaseURL: true}}
	if state, err = r.verify(c, state, "after the start"); err != nil {
		return err
	}
	c.Label("path:" + cs.Path)
	var pending [][]byte // contents since the last time everything had settled
	valid, bad := 0, 0
	settle := func(when string) error {
		state = r.edited(state, pending)
		pending = nil
		state, err = r.verify(c, state, when)
		return err
	}
	note := func(b []byte) {
		cur = append([]byte(nil), b...)
		pending = append(pending, cur)
	}
	gap := func(us int) {
		if us > 0 {
			time.Sleep(time.Duration(us) * time.Microsecond)
		}
	}
	for i, o := range cs.Ops {
		text := []byte(r.rep.Replace(o.Text))
		when := fmt.Sprintf("after edit %d (%s %s)", i, o.Op, o.Kind)
		fail := func(err error) error { return inconcf("%s: %v", when, err) }
		switch o.Op {
		case "rewrite":
			f, err := os.OpenFile(r.path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
			if err != nil {
				return fail(err)
			}
			note(nil)
			var soFar []byte
			for _, ch := range chunked(text, o.Chunks) {
				gap(o.GapUs)
				if _, err := f.Write(ch); err != nil {
					return fail(err)
				}
				soFar = append(soFar, ch...)
				note(soFar)
			}
			f.Close()
		case "overwrite":
			f, err := os.OpenFile(r.path, os.O_RDWR, 0o644)
			if err != nil {
				return fail(err)
			}
			off := 0
			for _, ch := range chunked(text, o.Chunks) {
				if _, err := f.WriteAt(ch, int64(off)); err != nil {
					return fail(err)
				}
				now := append([]byte(nil), cur...)
				for len(now) < off+len(ch) {
					now = append(now, 0)
				}
				copy(now[off:], ch)
				off += len(ch)
				note(now)
				gap(o.GapUs)
			}
			if err := f.Truncate(int64(len(text))); err != nil {
				return fail(err)
			}
			note(text)
			f.Close()
		case "append":
			f, err := os.OpenFile(r.path, os.O_WRONLY|os.O_APPEND, 0o644)
			if err != nil {
				return fail(err)
			}
			if _, err := f.Write(text); err != nil {
				return fail(err)
			}
			note(append(append([]byte(nil), cur...), text...))
			f.Close()
		case "truncate":
			n := o.At
			if n > len(cur) {
				n = len(cur)
			}
			if err := os.Truncate(r.path, int64(n)); err != nil {
				return fail(err)
			}
			note(cur[:n])
		case "touch":
			now := time.Now().Add(time.Duration(o.At) * time.Hour)
			_ = os.Chmod(r.path, 0o600)
			_ = os.Chtimes(r.path, now, now)
			_ = os.Chmod(r.path, 0o644)
		case "session":
			if err := settle(fmt.Sprintf("before edit %d", i)); err != nil {
				return err
			}
			continue
		}
		if _, ok := c12Decode(cur); ok {
			valid++
		} else {
			bad++
			c.Label("bad contents")
		}
		c.LabelIf(o.Kind != "", "contents:"+o.Kind)
		if o.Settle {
			if err := settle(when); err != nil {
				return err
			}
		}
	}
	if err := settle("after all edits"); err != nil {
		return err
	}
	c.LabelIf(len(r.witness) >= 8, "many witnesses")
	if valid > 0 {
		c.NonTrivial()
	}
	return nil
}

// Edits while the program is starting: a single write changes nothing but the addresses.

type c12Early struct {
	AfterUs []int `json:"after_us"`
	Listen  []int `json:"listen"`
	DB      []int `json:"db"`
}

func genC12Early(t *rapid.T, env *core.Env) c12Early {
	var cs c12Early
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
		cs.AfterUs = append(cs.AfterUs, rapid.SampledFrom([]int{0, 200, 500, 800, 1000, 1200, 1500, 1800, 2000, 2300, 2600, 3000, 4000, 6000, 10000}).Draw(t, "after")+rapid.IntRange(0, 200).Draw(t, "us"))
		cs.Listen = append(cs.Listen, rapid.IntRange(0, c12Listens-1).Draw(t, "listen"))
		cs.DB = append(cs.DB, rapid.IntRange(0, c12DBs-1).Draw(t, "db"))
	}
	return cs
}

// fixed makes the same length of every configuration.
func (r *running) fixed(listen, db int) []byte {
	s := r.rep.Replace(fmt.Sprintf("listen = \"{L%d}\"\ndatabase-url = \"{D%d}\"\n", listen, db))
	return []byte(s + strings.Repeat("#", 300-len(s)) + "\n")
}

func runC12Early(c *core.Ctx, cs c12Early) error {
	r, args, dir, err := c12World(c, "absolute", "")
	if err != nil {
		return err
	}
	if err := os.WriteFile(r.path, r.fixed(0, 0), 0o644); err != nil {
		return inconcf("%v", err)
	}
	f, err := os.OpenFile(r.path, os.O_RDWR, 0o644)
	if err != nil {
		return inconcf("%v", err)
	}
	defer f.Close()
	if r.p, err = runProgram(c, args, dir, baseEnv(dir)); err != nil {
		return err
	}
	last := r.fixed(0, 0)
	for i := range cs.AfterUs {
		time.Sleep(time.Duration(cs.AfterUs[i]) * time.Microsecond)
		last = r.fixed(cs.Listen[i], cs.DB[i])
		if _, err := f.WriteAt(last, 0); err != nil {
			return inconcf("%v", err)
		}
	}
	cfg, _ := c12Decode(last)
	c.NonTrivial()
	_, err = r.verify(c, c12State{map[string]bool{cfg.Listen: true}, map[string]bool{cfg.DatabaseURL: true}}, "after an edit during the start")
	return err
}

// A flood of events, more than the kernel queues.

type c12Flood struct {
	Rounds int `json:"rounds"`
	Events int `json:"events"`
	Listen int `json:"listen"`
	DB     int `json:"db"`
	// Stopped: the program gets no processor time during the flood, so that the last edit's own event is lost too
	// when the kernel's queue (16384 events) overflows.
	Stopped bool `json:"stopped,omitempty"`
	// Meta: the flood consists of changes of the file's mode and name (to and fro), not of its contents.
	Meta bool `json:"meta,omitempty"`
}

func genC12Flood(t *rapid.T, env *core.Env) c12Flood {
	return c12Flood{
		Rounds: rapid.IntRange(1, 2).Draw(t, "rounds"),
		Events: rapid.SampledFrom([]int{2000, 15000, 30000}).Draw(t, "events"),
		Listen: rapid.IntRange(1, c12Listens-1).Draw(t, "listen"),
		DB:     rapid.IntRange(1, c12DBs-1).Draw(t, "db"),

		Stopped: rapid.Bool().Draw(t, "stopped"),
		Meta:    rapid.Bool().Draw(t, "meta"),
	}
}

func runC12Flood(c *core.Ctx, cs c12Flood) error {
	r, args, dir, err := c12World(c, "absolute", "")
	if err != nil {
		return err
	}
	if err := os.WriteFile(r.path, r.fixed(0, 0), 0o644); err != nil {
		return inconcf("%v", err)
	}
	if r.p, err = runProgram(c, args, dir, baseEnv(dir)); err != nil {
		return err
	}
	st := func(l, d int) c12State {
		cfg, _ := c12Decode(r.fixed(l, d))
		return c12State{map[string]bool{cfg.Listen: true}, map[string]bool{cfg.DatabaseURL: true}}
	}
	if _, err := r.verify(c, st(0, 0), "after the start"); err != nil {
		return err
	}
	f, err := os.OpenFile(r.path, os.O_RDWR, 0o644)
	if err != nil {
		return inconcf("%v", err)
	}
	defer f.Close()
	same := r.fixed(0, 0)
	for round := 0; round < cs.Rounds; round++ {
		if cs.Stopped {
			_ = syscall.Kill(r.p.Pid, syscall.SIGSTOP)
		}
		for i := 0; i < cs.Events/2; i++ {
			// Different events in turn, as equal ones are merged.
			_ = f.Chmod(0o600 + os.FileMode(i%2)*0o44)
			if cs.Meta {
				_ = os.Rename(r.path, r.path+".away")
				_ = os.Rename(r.path+".away", r.path)
			} else {
				_, _ = f.WriteAt(same[:1], 0)
			}
		}
		l, d := cs.Listen, cs.DB
		if round == 1 {
			l, d = 0, 0
		}
		same = r.fixed(l, d)
		if _, err := f.WriteAt(same, 0); err != nil {
			return inconcf("%v", err)
		}
		if cs.Stopped {
			_ = syscall.Kill(r.p.Pid, syscall.SIGCONT)
		}
		if _, err := r.verify(c, st(l, d), fmt.Sprintf("after a flood of %d changes", cs.Events)); err != nil {
			return err
		}
	}
	c.NonTrivial()
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C12",
		Rule: "a case is a run of the real program with a history of edits in place of its configuration file (rewrites, overwrites, appends, truncations, in chunks with pauses; valid contents in several styles and fourteen kinds of invalid ones), edits during the start, or a flood of change events; non-trivial = at least one valid edit was made and the listening address, the database of new sessions and the sessions under way were compared with the model at the end. Patience: five programs for more than a minute without edits, with bad contents, with half of the contents, with an address that is taken, and with edits all the time; every case counts",
		Subs: []core.Sub{
			&core.Check[c12Case]{Name: "histories of edits", Quick: 480, Thorough: 20000, Gen: genC12, Run: runC12},
			&core.Check[c12Early]{Name: "edits during the start", Quick: 320, Thorough: 12000, Gen: genC12Early, Run: runC12Early},
			&core.Check[c12Flood]{Name: "floods of events", Quick: 24, Thorough: 300, Gen: genC12Flood, Run: runC12Flood},
			&core.Check[patienceFile]{Name: "patience", Quick: 1, Thorough: 6, Aside: true, Gen: genPatienceFile, Run: runC12Patience},
		},
	})
}
