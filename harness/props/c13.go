package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/sim"
)

// C13: the command line decides what runs and the exit status says how it went.

type c13Arg struct {
	Kind string `json:"kind"` // config, verbose, help, version, unknown, stray
	Form int    `json:"form"`
	Text string `json:"text,omitempty"`
}

type c13Case struct {
	Args   []c13Arg `json:"args"`
	File   string   `json:"file"`              // what the named (or default) file is like
	Where  string   `json:"where"`             // how its path is written
	Name   string   `json:"name,omitempty"`    // the path if it is an odd one
	Merge  bool     `json:"merge,omitempty"`   // -v and -c in one argument
	Decoy  bool     `json:"decoy,omitempty"`   // other configuration files lie around
	Dashes bool     `json:"dashes,omitempty"`  // a trailing --
	Home   bool     `json:"home,omitempty"`    // run in the home directory
	Mode   int      `json:"mode,omitempty"`    // permissions of the file
	NoUser bool     `json:"no_user,omitempty"` // minimal environment
}

var c13Files = []string{"valid", "valid", "valid", "valid", "valid", "valid rich", "missing", "directory", "dangling", "loop", "under a file", "empty", "unparsable", "no listen", "wrong type", "binary", "duplicate"}

// Names that mean something else to a shell, a URL, a template or a flag parser than to the operating system.
var c13Names = []string{
	"a$HOME.toml", "$HOME/my.toml", "${HOME}", "$PATH", "$nothing.toml", "$$", "$1.toml", "~/my.toml", "~", "~root.toml", "%41.toml", "%s%d.toml",
	"my%20config.toml", "*.toml", "[a].toml", "{a,b}.toml", "?.toml", " my.toml", "my.toml ", " ", "back\\slash.toml", "tab\t.toml", "line\nbreak.toml",
	"my", "my.TOML", "my.json", "my.conf", "My.Toml", ".hidden", "...", "a..toml", "sub/../sub//my.toml", "sub/./my.toml", "file:my.toml", "http:/my.toml",
	"my.toml#top", "my.toml?x=1", "a=b", "a,b.toml", "#my.toml", "'my.toml'", "\"my.toml\"", "`id`.toml", "$(id).toml", "{{.}}.toml", "config", "gevulot.toml",
	"true", "1", "Ünïcödé.toml", "配置.toml", "é.toml", "e\u0301.toml", ";my.toml", "a&b|c>d.toml",
	strings.Repeat("n", 250) + ".toml", strings.Repeat("deep/", 60) + "my.toml",
}

func genC13(t *rapid.T, env *core.Env) c13Case {
	cs := c13Case{
		File:   rapid.SampledFrom(c13Files).Draw(t, "file"),
		Where:  rapid.SampledFrom([]string{"absolute", "relative", "dotted", "subdirectory", "odd name", "odd", "odd", "odd", "odd"}).Draw(t, "where"),
		Decoy:  rapid.Bool().Draw(t, "decoy"),
		Dashes: rapid.IntRange(0, 9).Draw(t, "dashes") == 0,
		Home:   rapid.Bool().Draw(t, "home"),
		NoUser: rapid.IntRange(0, 4).Draw(t, "nouser") == 0,
		Mode:   rapid.SampledFrom([]int{0o644, 0o600, 0o444, 0o755}).Draw(t, "mode"),
	}
	if cs.Where == "odd" {
		cs.Name = rapid.SampledFrom(c13Names).Draw(t, "name")
	}
	if rapid.IntRange(0, 3).Draw(t, "config") != 0 {
		cs.Args = append(cs.Args, c13Arg{Kind: "config", Form: rapid.IntRange(0, 3).Draw(t, "form")})
	}
	if rapid.Bool().Draw(t, "verbose") {
		cs.Args = append(cs.Args, c13Arg{Kind: "verbose", Form: rapid.IntRange(0, 1).Draw(t, "form")})
		cs.Merge = rapid.IntRange(0, 3).Draw(t, "merge") == 0
	}
	switch rapid.SampledFrom([]string{"run", "run", "run", "help", "version", "unknown", "stray"}).Draw(t, "what") {
	case "help":
		cs.Args = append(cs.Args, c13Arg{Kind: "help"})
	case "version":
		cs.Args = append(cs.Args, c13Arg{Kind: "version"})
	case "unknown":
		cs.Args = append(cs.Args, c13Arg{Kind: "unknown", Text: rapid.SampledFrom([]string{"--nope", "--conf", "--configuration=x", "--listen=127.0.0.1:1", "-x", "-p", "--Verbose", "--verbos", "--versions", "--helpme", "-vx", "--database-url=postgres://h/d", "--port", "-V", "-C", "--no-such-flag=1", "--daemon"}).Draw(t, "unknown")})
	case "stray":
		cs.Args = append(cs.Args, c13Arg{Kind: "stray", Text: rapid.SampledFrom([]string{"stray", "start", "help", "version", "serve", "gevulot.toml", "my.toml", "0", "true", "x y", "verbose", "config=my.toml"}).Draw(t, "stray")})
	}
	if len(cs.Args) > 1 {
		cs.Args = rapid.Permutation(cs.Args).Draw(t, "order")
	}
	return cs
}

func runC13(c *core.Ctx, cs c13Case) error {
	root, err := scratchDir(c)
	if err != nil {
		return err
	}
	home, dir := filepath.Join(root, "home"), filepath.Join(root, "work")
	if cs.Home {
		dir = home
	}
	for _, d := range []string{home, dir, filepath.Join(dir, "sub")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return inconcf("%v", err)
		}
	}
	db, err := sim.NewDB(ownHost(c))
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(db.Stop)
	address := func() (string, error) {
		h := ownHost(c)
		p, err := freePort(h)
		return fmt.Sprintf("%s:%d", h, p), err
	}
	listen, err := address()
	if err != nil {
		return inconcf("%v", err)
	}
	decoy, err := address()
	if err != nil {
		return inconcf("%v", err)
	}
	var has = map[string]*c13Arg{}
	for i := range cs.Args {
		has[cs.Args[i].Kind] = &cs.Args[i]
	}
	// The file.
	arg := filepath.Join(dir, "my.toml")
	switch cs.Where {
	case "relative":
		arg = "my.toml"
	case "dotted":
		arg = "./sub/../my.toml"
	case "subdirectory":
		arg = "sub/my.toml"
	case "odd name":
		arg = "odd = näme's \"config\""
	case "odd":
		arg = cs.Name
		if i := strings.LastIndexByte(arg, '/'); i >= 0 {
			if err := os.MkdirAll(filepath.Join(dir, arg[:i]), 0o755); err != nil {
				return inconcf("%v", err)
			}
		}
	}
	if has["config"] == nil {
		arg = "gevulot.toml"
	}
	real := arg
	if !filepath.IsAbs(real) {
		real = filepath.Join(dir, arg)
	}
	config := func(listen string) string {
		return fmt.Sprintf("listen = \"%s\"\ndatabase-url = \"%s\"\n", listen, db.URL("app"))
	}
	text, ok := "", false
	kind := cs.File
	switch kind {
	case "valid":
		text, ok = config(listen), true
	case "valid rich":
		text, ok = "# listen = \"127.0.0.1:1\"\n\nmore = [1, 2]\n"+config(listen)+"\n[table]\nlisten = \"127.0.0.1:2\"\n", true
	case "empty":
	case "unparsable":
		text = config(listen) + "]\n"
	case "no listen":
		text = fmt.Sprintf("database-url = \"%s\"\n", db.URL("app"))
	case "wrong type":
		text = fmt.Sprintf("listen = [\"%s\"]\n", listen)
	case "binary":
		text = "\x7fELF\x02\x01\x01\x00\x00\x00"
	case "duplicate":
		text = config(listen) + config(listen)
	}
	switch kind {
	case "missing":
	case "directory":
		err = os.Mkdir(real, 0o755)
	case "dangling":
		err = os.Symlink("nowhere.toml", real)
	case "loop":
		err = os.Symlink(filepath.Base(real), real)
	case "under a file":
		if has["config"] == nil {
			kind = "missing"
			break
		}
		err = os.WriteFile(real, []byte(config(listen)), 0o644)
		arg += "/my.toml"
	default:
		err = os.WriteFile(real, []byte(text), os.FileMode(cs.Mode))
	}
	if err != nil {
		return inconcf("%v", err)
	}
	if cs.Decoy {
		for _, f := range []string{filepath.Join(home, "gevulot.toml"), filepath.Join(home, ".gevulot.toml"), filepath.Join(dir, "gevulot.toml"), filepath.Join(dir, "config.toml"), filepath.Join(dir, "sub", "gevulot.toml"), filepath.Join(dir, "nope")} {
			if _, err := os.Lstat(f); err != nil && f != real {
				_ = os.WriteFile(f, []byte(config(decoy)), 0o644)
			}
		}
		if has["config"] == nil && kind == "missing" {
			_ = os.Remove(filepath.Join(dir, "gevulot.toml"))
		}
	}
	// The command line.
	var args []string
	merge := cs.Merge && has["config"] != nil && has["verbose"] != nil
	for _, a := range cs.Args {
		switch a.Kind {
		case "config":
			form := a.Form
			if merge {
				form = 4 + form%2
			}
			switch form {
			case 0:
				args = append(args, "--config", arg)
			case 1:
				args = append(args, "--config="+arg)
			case 2:
				args = append(args, "-c", arg)
			case 3:
				args = append(args, "-c"+arg)
			case 4:
				args = append(args, "-vc", arg)
			case 5:
				args = append(args, "-vc"+arg)
			}
		case "verbose":
			if !merge {
				args = append(args, []string{"--verbose", "-v"}[a.Form])
			}
		case "help":
			args = append(args, "--help")
		case "version":
			args = append(args, "--version")
		default:
			args = append(args, a.Text)
		}
	}
	if cs.Dashes {
		args = append(args, "--")
	}
	env := baseEnv(home)
	if cs.NoUser {
		env = []string{"HOME=" + home}
	}
	p, err := runProgram(c, args, dir, env)
	if err != nil {
		return err
	}
	desc := fmt.Sprintf("gevulot %q (file: %s)", args, kind)
	what := "run"
	for _, k := range []string{"help", "version", "unknown", "stray"} {
		if has[k] != nil {
			what = k
		}
	}
	if what == "run" && !ok {
		what = "bad file"
	}
	c.Label("asked:" + what)
	c.Label("file:" + kind)
	c.NonTrivial()
	if what != "run" {
		served := false
		if err := awaitProc(p, "the end of "+desc, func() bool {
			done, _ := p.Exited()
			if !done {
				l := p.Listening()
				served = served || len(l) > 0
			}
			return done
		}); err != nil {
			return err
		}
		_, code := p.Exited()
		out := p.Stdout() + p.Stderr()
		if served || db.Count() > 0 {
			return violf("%s starts a server: %s", desc, died(p))
		}
		switch what {
		case "help":
			if code != 0 {
				return violf("%s: %s", desc, died(p))
			}
			for _, w := range []string{"usage", "gevulot", "--help", "--version", "--config", "--verbose"} {
				if !strings.Contains(strings.ToLower(out), w) {
					return violf("%s does not print %q: %s", desc, w, died(p))
				}
			}
		case "version":
			if code != 0 || !strings.Contains(out, "gevulot version") {
				return violf("%s does not print the version and exit 0: %s", desc, died(p))
			}
		default:
			if code != 1 {
				return violf("%s: the exit status is not 1: %s", desc, died(p))
			}
			if strings.TrimSpace(p.Stderr()) == "" {
				return violf("%s: nothing on standard error: %s", desc, died(p))
			}
		}
		return nil
	}
	if err := awaitProc(p, desc+" listening at "+listen, func() bool {
		l := p.Listening()
		return len(l) == 1 && l[listen]
	}); err != nil {
		return err
	}
	p.AwaitRest(20*time.Millisecond, 20*time.Second)
	if l := p.Listening(); len(l) != 1 || !l[listen] {
		return violf("%s listens at %s instead of %s: %s", desc, keysOf(l), listen, died(p))
	}
	pkt := startup("app")
	cl, err := dial(listen, 0, false)
	if err != nil {
		return err
	}
	c.Cleanup(cl.Stop)
	cl.Send(pkt)
	if err := awaitProc(p, desc+": delivery of a start-up request", func() bool { return db.Find(pkt) != nil || cl.Ended() }); err != nil {
		return err
	}
	dc := db.Find(pkt)
	if dc == nil {
		return violf("%s turned a client away: %q", desc, cl.Received())
	}
	c.Cleanup(dc.Stop)
	w := &witness{s: &sim.Session{Client: cl, DB: dc, Packet: pkt}}
	w.talk(2)
	if err := w.check("of " + desc); err != nil {
		return err
	}
	if done, _ := p.Exited(); done {
		return violf("%s ended: %s", desc, died(p))
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C13",
		Rule: "a case is a run of the real program with a generated command line (every spelling and order of the accepted flags, help, version, unknown flags, stray arguments), a configuration file in one of sixteen states, decoy files around it, and generated working and home directories; non-trivial = the run was compared with the expected exit status and output, or with the expected listening address, database and a working session",
		Subs: []core.Sub{
			&core.Check[c13Case]{Name: "command lines", Quick: 6000, Thorough: 120000, Gen: genC13, Run: runC13},
		},
	})
}
