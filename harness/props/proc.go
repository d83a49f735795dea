package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"gevulotverif/core"
	"gevulotverif/sim"
)

// scratchDir makes a directory of its own for a case.
func scratchDir(c *core.Ctx) (string, error) {
	dir := filepath.Join(c.Scratch, fmt.Sprintf("case%d", nextID()))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", inconcf("%v", err)
	}
	c.Cleanup(func() { _ = os.RemoveAll(dir) })
	return dir, nil
}

// baseEnv is the environment the program is run with.
func baseEnv(dir string, more ...string) []string {
	return append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "USER=tester", "LANG=C", "GOTRACEBACK=all"}, more...)
}

// runProgram starts the program under test.
func runProgram(c *core.Ctx, args []string, dir string, env []string) (*sim.Proc, error) {
	out, err := scratchDir(c)
	if err != nil {
		return nil, err
	}
	p, err := sim.StartProc(c.Gevulot, args, dir, out, env)
	if err != nil {
		return nil, inconcf("cannot start the program: %v", err)
	}
	c.Cleanup(p.Kill)
	return p, nil
}

// died describes a program that has ended.
func died(p *sim.Proc) string {
	_, code := p.Exited()
	return fmt.Sprintf("exit status %d\nstdout: %s\nstderr: %s", code, tailText(p.Stdout()), tailText(p.Stderr()))
}

func tailText(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 1500 {
		s = "..." + s[len(s)-1500:]
	}
	return s
}

// awaitProc waits until cond holds; when the program (which should be running) has come to rest before that, or has
// been busy for very long, it never will.
func awaitProc(p *sim.Proc, what string, cond func() bool) error {
	start := time.Now()
	last, since := "", start
	naps := 0
	for {
		if cond() {
			return nil
		}
		if done, _ := p.Exited(); done {
			if cond() {
				return nil
			}
			return violf("%s does not happen: the program ended: %s", what, died(p))
		}
		now := time.Now()
		sig, asleep := p.Activity()
		if !asleep || sig != last {
			last, since = sig, now
		} else if now.Sub(since) > 4*time.Second {
			if cond() {
				return nil
			}
			return violf("%s does not happen although the program is at rest\nstdout: %s\nstderr: %s", what, tailText(p.Stdout()), tailText(p.Stderr()))
		}
		if now.Sub(start) > 100*time.Second {
			if naps < 1000 {
				return inconcf("%s did not happen, but the machine is too busy", what)
			}
			return violf("%s did not happen within %v\nstdout: %s\nstderr: %s", what, now.Sub(start), tailText(p.Stdout()), tailText(p.Stderr()))
		}
		if now.Sub(start) < 300*time.Millisecond {
			time.Sleep(2 * time.Millisecond)
		} else {
			time.Sleep(20 * time.Millisecond)
		}
		naps++
	}
}
