// Package core runs generated cases, counts them and reports what failed.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/yield"
)

// Violation is a property violation found by a case.
type Violation struct {
	Msg string
	// Key identifies the violation for the known-findings list ("" = not listable).
	Key string
}

func (v *Violation) Error() string { return v.Msg }

// Violationf makes a violation.
func Violationf(format string, a ...interface{}) error {
	return &Violation{Msg: fmt.Sprintf(format, a...)}
}

// Inconclusive aborts the run: the check could not decide (exit status 2).
type Inconclusive struct{ Msg string }

func (v *Inconclusive) Error() string { return "inconclusive: " + v.Msg }

// Inconclusivef makes an inconclusive outcome.
func Inconclusivef(format string, a ...interface{}) error {
	return &Inconclusive{Msg: fmt.Sprintf(format, a...)}
}

// Ctx is handed to every case run.
type Ctx struct {
	labels     map[string]bool
	nontrivial bool
	Tier       string
	Sites      []SiteInfo
	Scratch    string // directory for files of this worker
	Gevulot    string // path of the built program
	Shard      int
	cleanups   []func()
}

// Label classifies the case.
func (c *Ctx) Label(s string) { c.labels[s] = true }

// Labelf classifies the case.
func (c *Ctx) Labelf(format string, a ...interface{}) { c.labels[fmt.Sprintf(format, a...)] = true }

// LabelIf classifies the case if cond.
func (c *Ctx) LabelIf(cond bool, s string) {
	if cond {
		c.labels[s] = true
	}
}

// NonTrivial marks the case as non-trivial by the rule of the property.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Cleanup registers f to run when the case is over.
func (c *Ctx) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

// HoldGC puts off garbage collection (of up to a gigabyte) until the case is over: the collector closes connections that
// are not in use any more, and would hide that nobody else does.
func (c *Ctx) HoldGC() {
	percent := debug.SetGCPercent(-1)
	limit := debug.SetMemoryLimit(1 << 30)
	c.Cleanup(func() {
		debug.SetMemoryLimit(limit)
		debug.SetGCPercent(percent)
	})
}

// cleanup runs the registered functions. A broken program may never let them finish.
func (c *Ctx) cleanup(verdict error) error {
	fs := c.cleanups
	if len(fs) == 0 {
		return nil
	}
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		for i := len(fs) - 1; i >= 0; i-- {
			fs[i]()
		}
	}()
	limit := 100 * time.Second
	if verdict != nil {
		limit = 3 * time.Second
	}
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case r := <-done:
		if r != nil && verdict == nil {
			panic(fmt.Sprintf("harness panic in clean-up: %v", r))
		}
		return nil
	case <-t.C:
		return Inconclusivef("the clean-up after a case did not finish")
	}
}

// SiteInfo describes a yield point.
type SiteInfo struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
	Sync bool   `json:"sync"` // the statement contains a synchronisation operation
}

// Env is the environment of a worker.
type Env struct {
	Tier    string
	Seed    uint64
	Shard   int
	Shards  int
	Sites   []SiteInfo
	Scratch string
	Gevulot string
	Journal string
	Scale   float64
	// Isolate runs one case in a process of its own and returns what it found (set only in crash-shrinking mode).
	Isolate func(sub string, caseJSON []byte) error
	// OnFound is told about every violation as it is found (each smaller than the one before).
	OnFound func(*Found)
	// SkipUntil: cases before this ordinal are not run (they are known to pass) in crash-shrinking mode.
	SkipUntil int
}

// Found is a violation with the case that shows it.
type Found struct {
	Sub     string          `json:"sub"`
	Case    json.RawMessage `json:"case"`
	Message string          `json:"message"`
	Key     string          `json:"key,omitempty"`
	Shrunk  bool            `json:"shrunk"`
	Where   []string        `json:"delayed_at,omitempty"`
}

// SubResult is what one sub-check did.
type SubResult struct {
	Name        string            `json:"name"`
	Evaluations int               `json:"evaluations"`
	Hashes      []uint64          `json:"hashes"` // of distinct non-trivial cases
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Violation   *Found            `json:"violation,omitempty"`
	Known       map[string]int    `json:"known,omitempty"`
	Seconds     float64           `json:"seconds"`
}

// Sub is one sub-check: a generator of cases and the oracle.
type Sub interface {
	SubName() string
	IsAside() bool
	Explore(env *Env) (*SubResult, error)
	RunJSON(env *Env, caseJSON []byte) error
}

// Check is a generated check over cases of type C.
type Check[C any] struct {
	Name     string
	Quick    int // cases (over all shards)
	Thorough int
	MinPer   int  // at least this many per shard
	Aside    bool // run in a process of its own next to the shards: for cases that mostly wait
	Gen      func(t *rapid.T, env *Env) C
	Run      func(c *Ctx, cs C) error
	// Delays extracts the delays of a case (optional)
	Delays func(cs C) []yield.Delay
}

// SubName implements Sub.
func (k *Check[C]) SubName() string { return k.Name }

// IsAside implements Sub.
func (k *Check[C]) IsAside() bool { return k.Aside }

type tb struct {
	mu     sync.Mutex
	name   string
	failed bool
	log    []string
}

type tbStop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) add(s string) {
	t.mu.Lock()
	if len(t.log) < 50 {
		t.log = append(t.log, s)
	}
	t.mu.Unlock()
}
func (t *tb) Logf(f string, a ...any)   { t.add(fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.add(fmt.Sprintln(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.add(fmt.Sprintf(f, a...)); panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { t.add(fmt.Sprintln(a...)); panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.add(fmt.Sprintf(f, a...)); t.failed = true }
func (t *tb) Error(a ...any)            { t.add(fmt.Sprintln(a...)); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		_, _ = h.Write([]byte(p))
		_, _ = h.Write([]byte{0})
	}
	return h.Sum64()
}

// KnownKeys are violations listed in the known-findings file: they are counted, not reported.
var KnownKeys = map[string]bool{}

// SetRapid is provided by the worker: it sets a rapid flag.
var SetRapid func(name, value string)

const harnessMarker = "gevulotverif/props"

// runOne executes one case, turning panics of the code under test into violations.
func (k *Check[C]) runOne(env *Env, cs C) (ctx *Ctx, err error) {
	ctx = &Ctx{labels: map[string]bool{}, Tier: env.Tier, Sites: env.Sites, Scratch: env.Scratch, Gevulot: env.Gevulot, Shard: env.Shard}
	defer func() {
		if e := ctx.cleanup(err); e != nil && err == nil {
			err = e
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if BlamesTarget(st) {
				err = Violationf("the code under test panicked: %v\n%s", r, trimStack(st))
				return
			}
			panic(fmt.Sprintf("harness panic: %v\n%s", r, st))
		}
	}()
	if k.Delays != nil {
		ds := k.Delays(cs)
		yield.Set(ds)
		defer yield.Clear()
		defer func() {
			if n := yield.Hits(ds); n > 0 {
				ctx.Label("delayed:yes")
			} else if len(ds) > 0 {
				ctx.Label("delayed:not reached")
			} else {
				ctx.Label("delayed:none asked")
			}
		}()
	}
	err = k.Run(ctx, cs)
	return ctx, err
}

// BlamesTarget tells whether the innermost frames below a panic belong to the code under test: the first
// non-runtime frame that is either harness or target code decides... unless the target called into a library.
func BlamesTarget(stack string) bool {
	// The stack lists innermost frames first, after the panic machinery.
	i := strings.LastIndex(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "github.com/hired/gevulot") {
			return true
		}
		if strings.HasPrefix(line, harnessMarker) || strings.HasPrefix(line, "gevulotverif/") {
			return false
		}
	}
	return false
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Explore implements Sub.
func (k *Check[C]) Explore(env *Env) (res *SubResult, err error) {
	start := time.Now()
	res = &SubResult{Name: k.Name, Labels: map[string]int{}, Known: map[string]int{}}
	total := k.Quick
	if env.Tier == "thorough" {
		total = k.Thorough
		if total == 0 {
			total = k.Quick * 10
		}
	}
	total = int(float64(total) * env.Scale)
	n := (total + env.Shards - 1) / env.Shards
	if n < k.MinPer {
		n = k.MinPer
	}
	if n < 1 {
		n = 1
	}
	seed := hash64(fmt.Sprint(env.Seed), k.Name, fmt.Sprint(env.Shard)) >> 1
	if seed == 0 {
		seed = 1
	}
	SetRapid("rapid.checks", fmt.Sprint(n))
	SetRapid("rapid.seed", fmt.Sprint(seed))
	SetRapid("rapid.nofailfile", "true")
	SetRapid("rapid.shrinktime", "40s")

	seen := map[uint64]bool{}
	var failing *Found
	var bail error
	ordinal := 0
	t := &tb{name: k.Name}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if bail != nil {
				return
			}
			cs := k.Gen(rt, env)
			ordinal++
			js, jerr := json.Marshal(cs)
			if jerr != nil {
				bail = fmt.Errorf("case does not marshal: %v", jerr)
				return
			}
			if env.Isolate != nil {
				if failing == nil && (ordinal < env.SkipUntil || ordinal > env.SkipUntil+2) {
					return
				}
				if e := env.Isolate(k.Name, js); e != nil {
					if _, ok := e.(*Violation); ok {
						failing = &Found{Sub: k.Name, Case: js, Message: e.Error()}
						if env.OnFound != nil {
							env.OnFound(failing)
						}
						rt.Fatalf("violation")
					}
				}
				return
			}
			if env.Journal != "" {
				j, _ := json.Marshal(map[string]interface{}{"sub": k.Name, "case": json.RawMessage(js), "ordinal": ordinal, "shard": env.Shard, "shards": env.Shards, "seed": env.Seed})
				if werr := os.WriteFile(env.Journal, j, 0o644); werr != nil {
					bail = werr
					return
				}
			}
			ctx, rerr := k.runOne(env, cs)
			if rerr != nil {
				if _, ok := rerr.(*Artifact); ok {
					if failing == nil {
						res.Labels["discarded: the kernel held up a connection"]++
					}
					return
				}
				if inc, ok := rerr.(*Inconclusive); ok {
					bail = inc
					return
				}
				v, ok := rerr.(*Violation)
				if !ok {
					bail = fmt.Errorf("%s: %v (case %s)", k.Name, rerr, clip(js))
					return
				}
				if v.Key != "" && KnownKeys[v.Key] {
					res.Known[v.Key]++
				} else {
					f := &Found{Sub: k.Name, Case: js, Message: v.Msg, Key: v.Key}
					if k.Delays != nil {
						for _, d := range k.Delays(cs) {
							if d.Site < len(env.Sites) {
								f.Where = append(f.Where, fmt.Sprintf("%s (%s) %dus x%d", env.Sites[d.Site].Pos, env.Sites[d.Site].Func, d.Us, d.N))
							}
						}
					}
					if failing != nil {
						f.Shrunk = true
					}
					failing = f
					if env.OnFound != nil {
						env.OnFound(failing)
					}
					GiveUpAfter, QuietFor = 15*time.Second, 3*time.Second // what follows only looks for a smaller case
					rt.Fatalf("violation")
				}
			}
			if failing != nil {
				return // shrinking
			}
			res.Evaluations++
			for l := range ctx.labels {
				res.Labels[l]++
			}
			if ctx.nontrivial {
				h := hash64(string(js))
				if !seen[h] {
					seen[h] = true
					if len(res.Samples) < 2 && len(js) < 1500 {
						res.Samples = append(res.Samples, js)
					}
				}
			}
		})
	}()
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	res.Violation = failing
	res.Seconds = time.Since(start).Seconds()
	if bail != nil && failing == nil {
		return res, bail
	}
	if failing == nil && t.failed {
		return res, fmt.Errorf("%s: the property library failed: %s", k.Name, strings.Join(t.log, "; "))
	}
	return res, nil
}

func clip(b []byte) string {
	if len(b) > 600 {
		return string(b[:600]) + "..."
	}
	return string(b)
}

// RunJSON implements Sub.
func (k *Check[C]) RunJSON(env *Env, caseJSON []byte) error {
	var cs C
	if err := json.Unmarshal(caseJSON, &cs); err != nil {
		return fmt.Errorf("bad case: %v", err)
	}
	_, err := k.runOne(env, cs)
	return err
}

// Prop is one property with its sub-checks.
type Prop struct {
	ID   string
	Rule string
	Subs []Sub
}

// Props is the registry.
var Props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { Props[p.ID] = p }

// GenDelays draws delays at yield points.
func GenDelays(t *rapid.T, env *Env, max int) []yield.Delay {
	n := rapid.IntRange(0, max).Draw(t, "ndelays")
	if len(env.Sites) == 0 {
		return nil
	}
	var ds []yield.Delay
	for i := 0; i < n; i++ {
		ds = append(ds, yield.Delay{
			Site: rapid.IntRange(0, len(env.Sites)-1).Draw(t, "site"),
			Us:   rapid.SampledFrom([]int{300, 1000, 3000, 8000, 20000}).Draw(t, "us"),
			N:    rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "times"),
		})
	}
	return ds
}

// GenDelaysIn is GenDelays over the yield points of the given files only.
func GenDelaysIn(t *rapid.T, env *Env, max int, files ...string) []yield.Delay {
	n := rapid.IntRange(0, max).Draw(t, "ndelays")
	var sites []int
	for _, s := range env.Sites {
		for _, f := range files {
			if strings.Contains(s.Pos, f) {
				sites = append(sites, s.ID)
				break
			}
		}
	}
	if len(sites) == 0 {
		return GenDelays(t, env, max)
	}
	var ds []yield.Delay
	for i := 0; i < n; i++ {
		ds = append(ds, yield.Delay{
			Site: sites[rapid.IntRange(0, len(sites)-1).Draw(t, "site")],
			Us:   rapid.SampledFrom([]int{100, 300, 1000, 3000, 8000}).Draw(t, "us"),
			N:    rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "times"),
		})
	}
	return ds
}

// IsViolation tells whether the error is a violation.
func IsViolation(err error) bool {
	_, ok := err.(*Violation)
	return ok
}
