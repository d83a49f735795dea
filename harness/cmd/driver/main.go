// The driver builds the worker against the code under test, runs the shards of one property's checks, and reports.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type plan struct {
	race       bool
	instrument bool
	binary     bool
	memLimit   int64
	shards     int
	minutes    int
}

// How each property's checks are built and run.
func planFor(id string) plan {
	p := plan{race: true, instrument: true, shards: 8}
	switch id {
	case "C14", "C16", "C17", "C18", "C19":
		p = plan{shards: 8}
	case "C15":
		p = plan{shards: 8, memLimit: 6 << 30}
	case "C12", "C13":
		p = plan{shards: 8, binary: true}
	case "C21":
		p.binary = true
	}
	return p
}

type subResult struct {
	Name        string            `json:"name"`
	Evaluations int               `json:"evaluations"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Violation   *found            `json:"violation,omitempty"`
	Known       map[string]int    `json:"known,omitempty"`
	Seconds     float64           `json:"seconds"`
}

type found struct {
	Sub     string          `json:"sub"`
	Case    json.RawMessage `json:"case"`
	Message string          `json:"message"`
	Key     string          `json:"key,omitempty"`
	Shrunk  bool            `json:"shrunk"`
	Where   []string        `json:"delayed_at,omitempty"`
}

type output struct {
	Subs  []*subResult `json:"subs"`
	Error string       `json:"error"`
}

type run struct {
	id      string
	tier    string
	seed    uint64
	scale   float64
	repo    string
	verif   string
	work    string
	worker  string
	gevulot string
	sites   []Site
	known   []finding
	p       plan
	start   time.Time
}

type finding struct{ prop, key, what string }

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", a...)
	os.Exit(2)
}

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		die("usage: driver PROPERTY [--replay FILE]")
	}
	r := &run{id: os.Args[1], tier: getenv("VERIF_TIER", "quick"), repo: getenv("VERIF_REPO", "/repo"), verif: getenv("VERIF_DIR", "/verif"), work: os.Getenv("VERIF_WORK"), start: time.Now()}
	if r.work == "" {
		die("VERIF_WORK is not set (use run.sh)")
	}
	if r.tier != "thorough" {
		r.tier = "quick"
	}
	n, err := strconv.ParseInt(getenv("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		n = 1
	}
	r.seed = uint64(n)
	r.scale, err = strconv.ParseFloat(getenv("VERIF_SCALE", "1"), 64)
	if err != nil || r.scale <= 0 {
		r.scale = 1
	}
	r.p = planFor(r.id)
	r.loadKnown()
	r.build()
	if len(os.Args) >= 4 && os.Args[2] == "--replay" {
		r.replay(os.Args[3])
		return
	}
	r.explore()
}

func (r *run) goCmd(dir string, args ...string) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		die("go %s: %v\n%s", strings.Join(args, " "), err, out.String())
	}
}

func (r *run) build() {
	harness := filepath.Join(r.verif, "harness")
	// A copy of the module files, so that the build never rewrites the committed ones, pointing at the code under test.
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(harness, f))
		if err != nil {
			die("%v", err)
		}
		if f == "go.mod" {
			b = bytes.Replace(b, []byte("=> /repo"), []byte("=> "+r.repo), 1)
		}
		if err := os.WriteFile(filepath.Join(r.work, f), b, 0o644); err != nil {
			die("%v", err)
		}
	}
	args := []string{"build", "-modfile=" + filepath.Join(r.work, "go.mod")}
	if r.p.race {
		args = append(args, "-race")
	}
	if r.p.instrument {
		dir := filepath.Join(r.work, "instrumented")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		overlay, sites, err := instrument(r.repo, []string{"pkg/server"}, dir)
		if err != nil {
			die("instrumenting: %v", err)
		}
		r.sites = sites
		args = append(args, "-overlay="+overlay)
	}
	r.worker = filepath.Join(r.work, "worker")
	r.goCmd(harness, append(args, "-o", r.worker, "./cmd/worker")...)
	if r.p.binary {
		// Built from the repository's own module, with a copy of its module files.
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(r.repo, f))
			if err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(filepath.Join(r.work, "repo."+strings.TrimPrefix(f, "")), b, 0o644); err != nil {
				die("%v", err)
			}
		}
		r.gevulot = filepath.Join(r.work, "gevulot")
		r.goCmd(r.repo, "build", "-modfile="+filepath.Join(r.work, "repo.go.mod"), "-o", r.gevulot, ".")
	}
}

func (r *run) loadKnown() {
	b, err := os.ReadFile(filepath.Join(r.verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			r.known = append(r.known, finding{m[1], m[2], m[3]})
		}
	}
}

func (r *run) knownKeys() (ks []string) {
	for _, k := range r.known {
		if k.prop == r.id {
			ks = append(ks, k.key)
		}
	}
	return ks
}

type shardRun struct {
	shard   int
	dir     string
	out     *output
	stderr  string
	state   string // how the process ended
	timeout bool
	stopped bool   // ended because another shard had found a violation
	found   *found // the last violation it wrote down
	extra   map[string]interface{}
}

func (r *run) config(shard int, dir string, extra map[string]interface{}) map[string]interface{} {
	c := map[string]interface{}{
		"prop": r.id, "tier": r.tier, "seed": r.seed, "shard": shard, "shards": r.p.shards, "scale": r.scale, "sites": r.sites,
		"scratch": dir, "gevulot": r.gevulot, "journal": filepath.Join(dir, "journal.json"), "out": filepath.Join(dir, "out.json"), "found": filepath.Join(dir, "found.json"),
		"known": r.knownKeys(), "mem_limit": r.p.memLimit,
	}
	for k, v := range extra {
		c[k] = v
	}
	return c
}

func (r *run) runShard(shard int, name string, limit time.Duration, stop <-chan struct{}, extra map[string]interface{}) *shardRun {
	s := &shardRun{shard: shard, extra: extra, dir: filepath.Join(r.work, name)}
	if err := os.MkdirAll(s.dir, 0o755); err != nil {
		die("%v", err)
	}
	b, _ := json.Marshal(r.config(shard, s.dir, extra))
	cf := filepath.Join(s.dir, "config.json")
	if err := os.WriteFile(cf, b, 0o644); err != nil {
		die("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.worker, cf)
	errf, err := os.Create(filepath.Join(s.dir, "stderr"))
	if err != nil {
		die("%v", err)
	}
	cmd.Stdout, cmd.Stderr = errf, errf
	procs := []string{"4", "2", "8", "4", "2", "4", "8", "3"}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all", "GOMAXPROCS="+procs[shard%len(procs)])
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	ended := make(chan struct{})
	go func() {
		select {
		case <-stop:
			s.stopped = true
			cancel()
		case <-ended:
		}
	}()
	err = cmd.Run()
	close(ended)
	errf.Close()
	s.state = "exit status 0"
	if err != nil {
		s.state = err.Error()
	}
	s.timeout = ctx.Err() != nil
	if b, err := os.ReadFile(filepath.Join(s.dir, "found.json")); err == nil {
		s.found = &found{}
		if json.Unmarshal(b, s.found) != nil {
			s.found = nil
		}
	}
	raw, _ := os.ReadFile(filepath.Join(s.dir, "stderr"))
	if len(raw) > 400<<10 {
		raw = append(raw[:200<<10:200<<10], raw[len(raw)-(200<<10):]...)
	}
	s.stderr = string(raw)
	if o, err := os.ReadFile(filepath.Join(s.dir, "out.json")); err == nil && !s.timeout {
		s.out = &output{}
		if json.Unmarshal(o, s.out) != nil {
			s.out = nil
		}
	}
	return s
}

const target = "github.com/hired/gevulot/"

// classify decides whether the death of a worker shows misbehaviour of the code under test.
func classify(log string) (violation string, ok bool) {
	if i := strings.Index(log, "WARNING: DATA RACE"); i >= 0 {
		rep := log[i:]
		if j := strings.Index(rep[10:], "=================="); j >= 0 {
			rep = rep[:j+10]
		}
		// Both accesses must be in the code under test: the first frame of each access that is not in the
		// standard library must not belong to the harness.
		secs := strings.Split(rep, "\n\n")
		blame := 0
		for _, s := range secs {
			if !strings.Contains(s, "rite at 0x") && !strings.Contains(s, "ead at 0x") {
				continue
			}
			for _, l := range strings.Split(s, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, target) {
					blame++
					break
				}
				if strings.HasPrefix(l, "gevulotverif/") && !strings.HasPrefix(l, "gevulotverif/yield") {
					break
				}
			}
		}
		if blame > 0 {
			return "data race in the code under test\n" + clip(rep, 5000), true
		}
		return "data race in the harness\n" + clip(rep, 5000), false
	}
	for _, mark := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds"} {
		i := strings.Index(log, mark)
		if i < 0 || (i > 0 && log[i-1] != '\n') {
			if i = strings.Index(log, "\n"+mark); i < 0 {
				continue
			}
			i++
		}
		rep := log[i:]
		if strings.Contains(rep[:min(len(rep), 400)], "harness panic") {
			return clip(rep, 4000), false
		}
		// The goroutine that died comes first.
		body := rep
		if j := strings.Index(body, "\ngoroutine "); j >= 0 {
			body = body[j+1:]
		}
		if j := strings.Index(body, "\n\n"); j >= 0 {
			body = body[:j]
		}
		for _, l := range strings.Split(body, "\n") {
			if strings.HasPrefix(l, target) || strings.HasPrefix(l, "created by "+target) {
				return "the process died in the code under test\n" + clip(rep, 4000), true
			}
			if strings.HasPrefix(l, "gevulotverif/") && !strings.HasPrefix(l, "gevulotverif/yield") {
				break
			}
		}
		if strings.Contains(rep, "out of memory") && strings.Contains(rep, target) {
			return "the process ran out of memory\n" + clip(rep, 4000), true
		}
		return clip(rep, 4000), false
	}
	return "", false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *run) limit() time.Duration {
	if r.tier == "thorough" {
		return 4 * time.Hour
	}
	return 780 * time.Second
}

type journal struct {
	Sub     string          `json:"sub"`
	Case    json.RawMessage `json:"case"`
	Ordinal int             `json:"ordinal"`
}

func (r *run) explore() {
	shards := make([]*shardRun, r.p.shards+1) // the last one is for what runs aside
	var wg sync.WaitGroup
	stop, stopAside := make(chan struct{}), make(chan struct{})
	var crash atomic.Bool
	limit := r.limit() - time.Since(r.start)
	for i := range shards {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var extra map[string]interface{}
			stop := stop
			if i == r.p.shards {
				extra = map[string]interface{}{"aside": true, "shards": 1}
				stop = stopAside
			}
			shards[i] = r.runShard(i, fmt.Sprintf("shard%d", i), limit, stop, extra)
			if s := shards[i]; s.out == nil && !s.timeout {
				if _, ok := classify(s.stderr); ok {
					crash.Store(true)
				}
			}
		}(i)
	}
	go func() {
		// Once a violation is known, the search goes on only for as long as it may take to find a smaller case.
		grace := 75 * time.Second
		if r.tier == "thorough" {
			grace = 5 * time.Minute
		}
		for {
			seen, aside := crash.Load(), false
			for i := range shards {
				if _, err := os.Stat(filepath.Join(r.work, fmt.Sprintf("shard%d", i), "found.json")); err == nil {
					seen, aside = true, i == r.p.shards
				}
			}
			if seen {
				if !aside {
					close(stopAside)
				} else {
					grace = 3 * time.Second // its cases take too long to look for a smaller one
				}
				break
			}
			time.Sleep(200 * time.Millisecond)
		}
		time.Sleep(grace)
		if grace == 3*time.Second {
			close(stopAside)
		}
		close(stop)
	}()
	wg.Wait()

	var viol *found
	var problems []string
	better := func(f *found) {
		if viol == nil || len(f.Case) < len(viol.Case) {
			viol = f
		}
	}
	var crashed *shardRun
	var crashMsg string
	for _, s := range shards {
		switch {
		case s.out != nil && s.out.Error == "":
			for _, sub := range s.out.Subs {
				if sub.Violation != nil {
					better(sub.Violation)
				}
			}
		case s.out != nil:
			problems = append(problems, fmt.Sprintf("shard %d: %s", s.shard, s.out.Error))
		case s.found != nil:
			better(s.found)
		case s.stopped:
		case s.timeout:
			problems = append(problems, fmt.Sprintf("shard %d: did not finish in time", s.shard))
		default:
			if msg, ok := classify(s.stderr); ok {
				crashed, crashMsg = s, msg
			} else {
				problems = append(problems, fmt.Sprintf("shard %d: %s: %s %s", s.shard, s.state, msg, clip(s.stderr, 3000)))
			}
		}
	}
	if viol == nil && crashed != nil {
		viol = r.shrinkCrash(crashed, crashMsg)
	}
	r.writeEvidence(shards, viol, problems)
	for _, k := range r.known {
		if k.prop == r.id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k.what)
		}
	}
	if viol != nil {
		path := r.writeReplay(viol)
		fmt.Printf("%s: %s\ncase: %s\n", viol.Sub, clip(viol.Message, 3000), clip(string(viol.Case), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, path)
		os.Exit(1)
	}
	if len(problems) > 0 {
		die("no verdict:\n%s", strings.Join(problems, "\n"))
	}
	total := 0
	for _, s := range shards {
		for _, sub := range s.out.Subs {
			total += sub.Evaluations
		}
	}
	fmt.Printf("%s held on %d cases (%s, seed %d, %.0f s)\n", r.id, total, r.tier, r.seed, time.Since(r.start).Seconds())
}

// shrinkCrash reduces a case that brings the process down, running candidates in processes of their own.
func (r *run) shrinkCrash(s *shardRun, msg string) *found {
	var j journal
	raw, err := os.ReadFile(filepath.Join(s.dir, "journal.json"))
	if err != nil || json.Unmarshal(raw, &j) != nil {
		return &found{Sub: "?", Case: json.RawMessage(`{}`), Message: msg}
	}
	f := &found{Sub: j.Sub, Case: j.Case, Message: msg}
	left := r.limit() - time.Since(r.start)
	if left > 100*time.Second {
		left = 100 * time.Second
	}
	if left < 5*time.Second {
		return f
	}
	extra := map[string]interface{}{"isolate": true, "sub": j.Sub, "skip_until": j.Ordinal, "journal": ""}
	for k, v := range s.extra {
		extra[k] = v
	}
	iso := r.runShard(s.shard, "shrink", left, nil, extra)
	if iso.out != nil {
		for _, sub := range iso.out.Subs {
			if sub.Violation != nil {
				iso.found = sub.Violation
			}
		}
	}
	if v := iso.found; v != nil && len(v.Case) <= len(f.Case) {
		m := v.Message
		if c, ok := classify(m); ok {
			m = c
		} else if strings.Contains(m, "goroutine ") && !strings.HasPrefix(m, "hang:") {
			return f
		}
		f = &found{Sub: j.Sub, Case: v.Case, Message: m, Shrunk: true}
	}
	return f
}

func (r *run) writeReplay(v *found) string {
	h := fnv.New64a()
	h.Write(v.Case)
	dir := filepath.Join(r.verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", r.id, h.Sum64()))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": r.id, "sub": v.Sub, "case": v.Case, "message": v.Message, "shrunk": v.Shrunk, "delayed_at": v.Where, "seed": r.seed, "tier": r.tier,
		"replay": fmt.Sprintf("cd /verif && ./run.sh %s --replay %s", r.id, path),
	}, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
	return path
}

func (r *run) replay(path string) {
	raw, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rep struct {
		Sub  string          `json:"sub"`
		Case json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(raw, &rep); err != nil {
		die("%v", err)
	}
	cf := filepath.Join(r.work, "case.json")
	if err := os.WriteFile(cf, rep.Case, 0o644); err != nil {
		die("%v", err)
	}
	for i := 0; i < 20; i++ {
		s := r.runShard(i%8, fmt.Sprintf("replay%d", i), 5*time.Minute, nil, map[string]interface{}{"sub": rep.Sub, "case": cf})
		msg := ""
		if s.out != nil && s.out.Error == "" {
			for _, sub := range s.out.Subs {
				if sub.Violation != nil {
					msg = sub.Violation.Message
				}
			}
		} else if s.out != nil {
			die("%s", s.out.Error)
		} else if m, ok := classify(s.stderr); ok {
			msg = m
		} else {
			die("%s: %s %s", s.state, m, s.stderr)
		}
		if msg != "" {
			fmt.Printf("attempt %d: %s\n", i+1, msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, path)
			os.Exit(1)
		}
	}
	fmt.Printf("the case passed 20 times\n")
}

func (r *run) writeEvidence(shards []*shardRun, viol *found, problems []string) {
	type agg struct {
		Evaluations int            `json:"evaluations"`
		Distinct    int            `json:"distinct_nontrivial"`
		Labels      map[string]int `json:"labels"`
		hashes      map[uint64]bool
	}
	subs := map[string]*agg{}
	var samples []map[string]interface{}
	perSub := map[string]int{}
	known := map[string]int{}
	eval := 0
	for _, s := range shards {
		if s.out == nil {
			continue
		}
		for _, sub := range s.out.Subs {
			a := subs[sub.Name]
			if a == nil {
				a = &agg{Labels: map[string]int{}, hashes: map[uint64]bool{}}
				subs[sub.Name] = a
			}
			a.Evaluations += sub.Evaluations
			eval += sub.Evaluations
			for _, h := range sub.Hashes {
				a.hashes[h] = true
			}
			for l, n := range sub.Labels {
				a.Labels[l] += n
			}
			for k, n := range sub.Known {
				known[k] += n
			}
			for _, c := range sub.Samples {
				if perSub[sub.Name] < 3 {
					perSub[sub.Name]++
					samples = append(samples, map[string]interface{}{"check": sub.Name, "case": c})
				}
			}
		}
	}
	distinct := 0
	for _, a := range subs {
		a.Distinct = len(a.hashes)
		distinct += a.Distinct
		if len(a.Labels) > 80 {
			type kv struct {
				k string
				n int
			}
			var l []kv
			for k, n := range a.Labels {
				l = append(l, kv{k, n})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
			a.Labels = map[string]int{}
			for _, e := range l[:80] {
				a.Labels[e.k] = e.n
			}
		}
	}
	if samples == nil {
		samples = []map[string]interface{}{}
	}
	rule := r.ruleOf()
	cov := map[string]interface{}{
		"evaluations": eval, "distinct_nontrivial": distinct, "rule": rule, "samples": samples, "per_check": subs, "shards": r.p.shards,
		"yield_points_available": len(r.sites), "race_detector": r.p.race,
	}
	if len(known) > 0 {
		cov["known_findings_hit"] = known
	}
	if len(problems) > 0 {
		cov["problems"] = clip(strings.Join(problems, "\n"), 2000)
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": int64(r.seed), "level": "exploration", "coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": nv,
		"assumptions": []string{"the loopback network and the Go runtime behave as documented", "the harness's own description of the PostgreSQL wire format and start-up rules is right"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(r.verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func (r *run) ruleOf() string {
	out, err := exec.Command(r.worker, "--rule", r.id).Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}
