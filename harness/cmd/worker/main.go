// The worker runs one shard of one property's checks, or one case of it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"

	"gevulotverif/core"
	_ "gevulotverif/props"
)

type config struct {
	Prop      string          `json:"prop"`
	Tier      string          `json:"tier"`
	Seed      uint64          `json:"seed"`
	Shard     int             `json:"shard"`
	Shards    int             `json:"shards"`
	Scale     float64         `json:"scale"`
	Sites     []core.SiteInfo `json:"sites"`
	Scratch   string          `json:"scratch"`
	Gevulot   string          `json:"gevulot"`
	Journal   string          `json:"journal"`
	Out       string          `json:"out"`
	Found     string          `json:"found"` // where to write violations as they are found
	Known     []string        `json:"known"`
	MemLimit  int64           `json:"mem_limit"`
	Sub       string          `json:"sub"`  // one case: its sub-check
	Case      string          `json:"case"` // one case: file with the case
	Isolate   bool            `json:"isolate"`
	SkipUntil int             `json:"skip_until"`
	Aside     bool            `json:"aside"` // run the sub-checks that are to run aside, and no others
}

type output struct {
	Subs  []*core.SubResult `json:"subs"`
	Error string            `json:"error,omitempty"`
}

func fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "WORKER-ERROR: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	testing.Init()
	core.SetRapid = func(name, value string) {
		if err := flag.Set(name, value); err != nil {
			fail("%v", err)
		}
	}
	if len(os.Args) < 2 {
		fail("usage: worker CONFIG")
	}
	if os.Args[1] == "--rule" && len(os.Args) > 2 {
		if p := core.Props[os.Args[2]]; p != nil {
			fmt.Println(p.Rule)
		}
		return
	}
	file := os.Args[1]
	os.Args = os.Args[:1]
	flag.Parse()
	raw, err := os.ReadFile(file)
	if err != nil {
		fail("%v", err)
	}
	var cfg config
	if err := json.Unmarshal(raw, &cfg); err != nil {
		fail("%v", err)
	}
	if cfg.MemLimit > 0 {
		limitMemory(cfg.MemLimit)
	}
	debug.SetGCPercent(200)
	for _, k := range cfg.Known {
		core.KnownKeys[k] = true
	}
	p := core.Props[cfg.Prop]
	if p == nil {
		fail("unknown property %s", cfg.Prop)
	}
	env := &core.Env{Tier: cfg.Tier, Seed: cfg.Seed, Shard: cfg.Shard, Shards: cfg.Shards, Sites: cfg.Sites, Scratch: cfg.Scratch, Gevulot: cfg.Gevulot, Journal: cfg.Journal, Scale: cfg.Scale, SkipUntil: cfg.SkipUntil}

	if cfg.Found != "" {
		env.OnFound = func(f *core.Found) {
			if b, err := json.Marshal(f); err == nil && os.WriteFile(cfg.Found+".tmp", b, 0o644) == nil {
				_ = os.Rename(cfg.Found+".tmp", cfg.Found)
			}
		}
	}

	out := &output{}
	emit := func(code int) {
		b, err := json.Marshal(out)
		if err != nil {
			fail("%v", err)
		}
		if err := os.WriteFile(cfg.Out, b, 0o644); err != nil {
			fail("%v", err)
		}
		os.Exit(code)
	}

	if cfg.Case != "" {
		cs, err := os.ReadFile(cfg.Case)
		if err != nil {
			fail("%v", err)
		}
		for _, s := range p.Subs {
			if s.SubName() != cfg.Sub {
				continue
			}
			res := &core.SubResult{Name: cfg.Sub, Evaluations: 1}
			out.Subs = append(out.Subs, res)
			if err := s.RunJSON(env, cs); err != nil {
				v, ok := err.(*core.Violation)
				if !ok {
					out.Error = err.Error()
					emit(2)
				}
				res.Violation = &core.Found{Sub: cfg.Sub, Case: cs, Message: v.Msg, Key: v.Key}
			}
			emit(0)
		}
		fail("unknown sub-check %s", cfg.Sub)
	}

	if cfg.Isolate {
		env.Isolate = isolator(file, cfg)
	}
	for _, s := range p.Subs {
		if cfg.Sub != "" && s.SubName() != cfg.Sub || s.IsAside() != cfg.Aside {
			continue
		}
		res, err := s.Explore(env)
		if res != nil {
			out.Subs = append(out.Subs, res)
		}
		if err != nil {
			out.Error = err.Error()
			emit(2)
		}
		if res.Violation != nil {
			break
		}
	}
	emit(0)
}

// isolator runs single cases in processes of their own: used to shrink cases that bring the process down.
func isolator(file string, cfg config) func(sub string, caseJSON []byte) error {
	return func(sub string, caseJSON []byte) error {
		one := cfg
		one.Isolate = false
		one.Sub = sub
		one.Case = filepath.Join(cfg.Scratch, "iso-case.json")
		one.Out = filepath.Join(cfg.Scratch, "iso-out.json")
		one.Journal, one.Found = "", ""
		_ = os.Remove(one.Out)
		if err := os.WriteFile(one.Case, caseJSON, 0o644); err != nil {
			return err
		}
		b, _ := json.Marshal(one)
		cf := filepath.Join(cfg.Scratch, "iso-config.json")
		if err := os.WriteFile(cf, b, 0o644); err != nil {
			return err
		}
		exe, _ := os.Executable()
		var log strings.Builder
		cmd := exec.Command(exe, cf)
		cmd.Stderr = &log
		_ = cmd.Run()
		raw, err := os.ReadFile(one.Out)
		if err != nil {
			return core.Violationf("%s", log.String())
		}
		var o output
		_ = json.Unmarshal(raw, &o)
		for _, s := range o.Subs {
			if s.Violation != nil {
				return core.Violationf("%s", s.Violation.Message)
			}
		}
		return nil
	}
}
