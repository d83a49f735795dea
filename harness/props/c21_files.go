package props

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
)

// C21: more clients than the program may have files open.

type c21Files struct {
	Limit  int         `json:"limit"` // files the program may have open
	Rounds []c21FRound `json:"rounds"`
}

type c21FRound struct {
	N    int    `json:"n"`
	Kind string `json:"kind"` // silent, started, ssl, mixed
	Hold int    `json:"hold_ms"`
	End  string `json:"end"` // how they leave
}

func genC21Files(t *rapid.T, env *core.Env) c21Files {
	cs := c21Files{Limit: rapid.IntRange(24, 90).Draw(t, "limit")}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "rounds"); i < n; i++ {
		cs.Rounds = append(cs.Rounds, c21FRound{
			N:    rapid.IntRange(10, 140).Draw(t, "n"),
			Kind: rapid.SampledFrom([]string{"silent", "started", "started", "ssl", "mixed"}).Draw(t, "kind"),
			Hold: rapid.SampledFrom([]int{0, 5, 50, 200}).Draw(t, "hold"),
			End:  rapid.SampledFrom([]string{"fin", "reset", "backwards"}).Draw(t, "end"),
		})
	}
	return cs
}

func runC21Files(c *core.Ctx, cs c21Files) error {
	dir, err := scratchDir(c)
	if err != nil {
		return err
	}
	db, err := sim.NewDB(ownHost(c))
	if err != nil {
		return inconcf("%v", err)
	}
	c.Cleanup(db.Stop)
	host := ownHost(c)
	port, err := freePort(host)
	if err != nil {
		return inconcf("%v", err)
	}
	addr := fmt.Sprintf("%s:%d", host, port)
	cfg := filepath.Join(dir, "gevulot.toml")
	if err := os.WriteFile(cfg, []byte(fmt.Sprintf("listen = %q\ndatabase-url = %q\n", addr, db.URL("app"))), 0o644); err != nil {
		return inconcf("%v", err)
	}
	p, err := sim.StartProc("/bin/sh", []string{"-c", fmt.Sprintf("ulimit -n %d && exec \"$0\" --config \"$1\"", cs.Limit), c.Gevulot, cfg}, dir, dir, baseEnv(dir))
	if err != nil {
		return inconcf("cannot start the program: %v", err)
	}
	c.Cleanup(p.Kill)
	if err := awaitProc(p, "listening", func() bool { return p.Listening()[addr] }); err != nil {
		return err
	}
	enter := func(when string) (*witness, error) {
		pkt := startup("app")
		cl, err := dial(addr, 0, false)
		if err != nil {
			return nil, err
		}
		c.Cleanup(cl.Stop)
		cl.Send(pkt)
		var dc *sim.DBConn
		if err := awaitProc(p, when+": the start of a session", func() bool { dc = db.Find(pkt); return dc != nil || cl.Ended() }); err != nil {
			return nil, err
		}
		if dc == nil {
			if done, _ := p.Exited(); done {
				return nil, violf("%s: the program ended: %s", when, died(p))
			}
			return nil, violf("%s: a new client is not served (%v)", when, cl.EndErr())
		}
		c.Cleanup(dc.Stop)
		return &witness{s: &sim.Session{Client: cl, DB: dc, Packet: pkt}}, nil
	}
	var witnesses []*witness
	check := func(when string) error {
		if done, _ := p.Exited(); done {
			return violf("%s: the program ended: %s", when, died(p))
		}
		for _, w := range witnesses {
			w.talk(1)
			if err := w.check(when); err != nil {
				return err
			}
		}
		return nil
	}
	w, err := enter("at first")
	if err != nil {
		return err
	}
	witnesses = append(witnesses, w)
	if err := check("at first"); err != nil {
		return err
	}
	for _, r := range cs.Rounds {
		var crowd []*sim.Peer
		for j := 0; j < r.N; j++ {
			cl, err := dial(addr, 0, false)
			if err != nil {
				return err
			}
			c.Cleanup(cl.Stop)
			crowd = append(crowd, cl)
			switch {
			case r.Kind == "started" || r.Kind == "mixed" && j%2 == 0:
				cl.Send(startup("app"))
			case r.Kind == "ssl":
				cl.Send(pgwire.SSLReq())
			}
		}
		time.Sleep(time.Duration(r.Hold) * time.Millisecond)
		if err := check(fmt.Sprintf("next to %d clients with %d files", r.N, cs.Limit)); err != nil {
			return err
		}
		for j := range crowd {
			cl := crowd[j]
			if r.End == "backwards" {
				cl = crowd[len(crowd)-1-j]
			}
			if r.End == "reset" {
				cl.Abort()
			} else {
				cl.CloseAfter()
			}
		}
		// The program gets its files back once it has noticed that they are gone, also those it could not accept at first.
		over := func() bool {
			if p.Backlog() > 0 {
				return false
			}
			fds, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.Pid))
			return err == nil && len(fds) <= 12+2*len(witnesses)
		}
		if err := awaitProc(p, "the end of the sessions of all clients that left", func() bool {
			if !over() {
				return false
			}
			time.Sleep(2 * time.Millisecond)
			return over()
		}); err != nil {
			return err
		}
		if len(witnesses) < 4 {
			w, err := enter(fmt.Sprintf("after %d clients with %d files have left", r.N, cs.Limit))
			if err != nil {
				return err
			}
			witnesses = append(witnesses, w)
		}
		if err := check(fmt.Sprintf("after %d clients with %d files have left", r.N, cs.Limit)); err != nil {
			return err
		}
		c.LabelIf(r.N > cs.Limit, "more clients than files")
		c.Label("clients:" + r.Kind)
	}
	c.NonTrivial()
	return nil
}
