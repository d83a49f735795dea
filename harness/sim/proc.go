package sim

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Proc is the program under test running as a process of its own.
type Proc struct {
	Cmd *exec.Cmd
	Pid int
	dir string

	mu     sync.Mutex
	exited bool
	code   int
}

// StartProc runs the program in directory dir; its output goes to files in out.
func StartProc(bin string, args []string, dir, out string, env []string) (*Proc, error) {
	p := &Proc{Cmd: exec.Command(bin, args...), dir: out}
	p.Cmd.Dir = dir
	p.Cmd.Env = env
	p.Cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	so, err := os.Create(filepath.Join(out, "stdout"))
	if err != nil {
		return nil, err
	}
	defer so.Close()
	se, err := os.Create(filepath.Join(out, "stderr"))
	if err != nil {
		return nil, err
	}
	defer se.Close()
	p.Cmd.Stdout, p.Cmd.Stderr = so, se
	if err := startProc(p.Cmd); err != nil {
		return nil, err
	}
	p.Pid = p.Cmd.Process.Pid
	go func() {
		_ = p.Cmd.Wait()
		p.mu.Lock()
		p.exited, p.code = true, p.Cmd.ProcessState.ExitCode()
		p.mu.Unlock()
	}()
	return p, nil
}

var starter = make(chan func())
var starterOnce sync.Once

// startProc starts processes from one thread that never ends: the parent-death signal follows the thread.
func startProc(cmd *exec.Cmd) error {
	starterOnce.Do(func() {
		go func() {
			runtime.LockOSThread()
			for f := range starter {
				f()
			}
		}()
	})
	done := make(chan error, 1)
	starter <- func() { done <- cmd.Start() }
	return <-done
}

// Exited tells whether the process ended, and with which status.
func (p *Proc) Exited() (bool, int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.exited, p.code
}

// Stdout is the standard output so far.
func (p *Proc) Stdout() string { b, _ := os.ReadFile(filepath.Join(p.dir, "stdout")); return string(b) }

// Stderr is the standard error so far.
func (p *Proc) Stderr() string { b, _ := os.ReadFile(filepath.Join(p.dir, "stderr")); return string(b) }

// Kill ends the process.
func (p *Proc) Kill() {
	_ = p.Cmd.Process.Kill()
	for i := 0; i < 5000; i++ {
		if done, _ := p.Exited(); done {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

// Listening lists the TCP addresses at which the process listens.
func (p *Proc) Listening() map[string]bool {
	return listening(sockets(fmt.Sprintf("/proc/%d/fd", p.Pid)))
}

// Backlog is the number of connections the process has not accepted yet.
func (p *Proc) Backlog() int { return backlog(sockets(fmt.Sprintf("/proc/%d/fd", p.Pid))) }

// Activity summarises what the process has done so far; asleep means none of its threads can run.
func (p *Proc) Activity() (sig string, asleep bool) {
	tasks, err := filepath.Glob(fmt.Sprintf("/proc/%d/task/*", p.Pid))
	if err != nil || len(tasks) == 0 {
		return "gone", true
	}
	asleep = true
	var b strings.Builder
	for _, t := range tasks {
		st, err := os.ReadFile(t + "/stat")
		if err != nil {
			return "", false
		}
		s := string(st)
		f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
		if len(f) < 13 {
			return "", false
		}
		if f[0] != "S" && f[0] != "Z" && f[0] != "X" {
			asleep = false
		}
		status, _ := os.ReadFile(t + "/status")
		switches := 0
		for _, l := range strings.Split(string(status), "\n") {
			if strings.Contains(l, "ctxt_switches") {
				n, _ := strconv.Atoi(strings.TrimSpace(l[strings.IndexByte(l, ':')+1:]))
				switches += n
			}
		}
		fmt.Fprintf(&b, "%s %s %s %s %d;", filepath.Base(t), f[0], f[11], f[12], switches)
	}
	return b.String(), asleep
}

// AwaitRest waits until the process has done nothing for the given time (false: it did not come to rest within max).
func (p *Proc) AwaitRest(quiet, max time.Duration) bool {
	start := time.Now()
	last, since := "", time.Now()
	for time.Since(start) < max {
		sig, asleep := p.Activity()
		if !asleep || sig != last {
			last, since = sig, time.Now()
		} else if time.Since(since) >= quiet {
			return true
		}
		time.Sleep(quiet/10 + time.Millisecond)
	}
	return false
}
