package props

import (
	"fmt"
	"os"
	"time"

	"pgregory.net/rapid"

	"gevulotverif/core"
)

// C12: long periods without edits, with bad contents, half-written, and with edits all the time.

type patienceFile struct {
	Seconds int                `json:"seconds"`
	Files   []patienceFileCase `json:"files"`
}

type patienceFileCase struct {
	Kind  string `json:"kind"`
	Bad   string `json:"bad,omitempty"`
	Every int    `json:"every_ms,omitempty"`
	Cut   int    `json:"cut,omitempty"`
}

func genPatienceFile(t *rapid.T, env *core.Env) patienceFile {
	cs := patienceFile{Seconds: patienceSeconds(t, env)}
	for _, k := range []string{"quiet", "bad", "half-written", "busy", "edited"} {
		f := patienceFileCase{Kind: k}
		switch k {
		case "bad":
			f.Bad, _ = c12Bad(t)
			f.Every = rapid.SampledFrom([]int{0, 500, 3000, 9000}).Draw(t, "every")
		case "half-written":
			f.Cut = rapid.IntRange(0, 8).Draw(t, "cut")
		case "edited":
			f.Every = rapid.SampledFrom([]int{400, 1000, 2500, 7000}).Draw(t, "every")
		}
		cs.Files = append(cs.Files, f)
	}
	return cs
}

func runC12Patience(c *core.Ctx, cs patienceFile) error {
	type one struct {
		patienceFileCase
		r     *running
		state c12State
		n     int
		last  time.Time
	}
	var all []*one
	start := time.Now()
	for _, k := range cs.Files {
		o := &one{patienceFileCase: k}
		var args []string
		var dir string
		var err error
		if o.r, args, dir, err = c12World(c, "absolute", "listen = \"{L0}\"\ndatabase-url = \"{D0}\"\n"); err != nil {
			return err
		}
		if o.r.p, err = runProgram(c, args, dir, baseEnv(dir)); err != nil {
			return err
		}
		o.state = c12State{map[string]bool{o.r.listens[0]: true}, map[string]bool{o.r.rep.Replace("{D0}"): true}}
		if o.state, err = o.r.verify(c, o.state, k.Kind+": after the start"); err != nil {
			return err
		}
		all = append(all, o)
		c.Label(k.Kind)
	}
	// write rewrites the file and verifies the effect.
	write := func(o *one, text string) error {
		b := []byte(o.r.rep.Replace(text))
		if err := os.WriteFile(o.r.path, b, 0o644); err != nil {
			return inconcf("%v", err)
		}
		var err error
		o.state = o.r.edited(o.state, [][]byte{nil, b})
		o.state, err = o.r.verify(c, o.state, fmt.Sprintf("%s: after an edit", o.Kind))
		return after(err, o.Kind, start)
	}
	valid := func(o *one) string {
		o.n++
		return fmt.Sprintf("listen = \"{L%d}\"\ndatabase-url = \"{D%d}\"\n", o.n%c12Listens, o.n%c12DBs)
	}
	for _, o := range all {
		var err error
		switch o.Kind {
		case "bad":
			err = write(o, o.Bad)
		case "busy":
			err = write(o, "listen = \"{BUSY}\"\ndatabase-url = \"{D1}\"\n")
		case "half-written":
			err = write(o, "listen = \"{L1}\"\ndatabase-url = \"{D1}\""[:o.Cut])
		}
		if err != nil {
			return err
		}
	}
	if err := holdOut(cs.Seconds, func() error {
		for _, o := range all {
			if done, _ := o.r.p.Exited(); done {
				return violf("%s, after %.0f s: the program ended: %s", o.Kind, time.Since(start).Seconds(), died(o.r.p))
			}
			for _, w := range o.r.witness {
				if w.s.Client.Ended() || w.s.DB.Ended() {
					return violf("%s, after %.0f s: a session ended although nobody hung up", o.Kind, time.Since(start).Seconds())
				}
			}
			if o.Every == 0 || time.Since(o.last) < time.Duration(o.Every)*time.Millisecond {
				continue
			}
			o.last = time.Now()
			switch o.Kind {
			case "bad": // written again
				if err := os.WriteFile(o.r.path, []byte(o.r.rep.Replace(o.Bad)), 0o644); err != nil {
					return inconcf("%v", err)
				}
			case "edited":
				if err := write(o, valid(o)); err != nil {
					return err
				}
			}
		}
		return nil
	}); err != nil {
		return err
	}
	for _, o := range all {
		if o.Kind == "half-written" {
			// The rest of it.
			f, err := os.OpenFile(o.r.path, os.O_WRONLY|os.O_APPEND, 0o644)
			if err != nil {
				return inconcf("%v", err)
			}
			rest := o.r.rep.Replace("listen = \"{L1}\"\ndatabase-url = \"{D1}\"\n"[o.Cut:])
			_, err = f.WriteString(rest)
			f.Close()
			if err != nil {
				return inconcf("%v", err)
			}
			b, err := os.ReadFile(o.r.path)
			if err != nil {
				return inconcf("%v", err)
			}
			o.state = o.r.edited(o.state, [][]byte{b})
			if o.state, err = o.r.verify(c, o.state, "half-written: after the rest was written"); err != nil {
				return after(err, o.Kind, start)
			}
		}
		for i := 0; i < 2; i++ {
			if err := write(o, valid(o)); err != nil {
				return err
			}
		}
	}
	c.NonTrivial()
	return nil
}
