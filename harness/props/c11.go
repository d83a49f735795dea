package props

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hired/gevulot/pkg/server"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/yield"
)

// C11: access to the configuration never deadlocks and never goes back in time.

type c11Op struct {
	Op    string `json:"op"` // get, sub, unsub, close
	AtUs  int    `json:"at_us"`
	Ch    int    `json:"ch,omitempty"`
	Check int    `json:"check,omitempty"` // 0 none, otherwise an index into c10Checks plus 1
}

type c11Case struct {
	Updates   int           `json:"updates"`
	GapUs     int           `json:"gap_us"`
	EndSource bool          `json:"end_source,omitempty"` // the source ends after the updates
	Readers   []int         `json:"readers"`              // per channel: how many configurations are read, -1 = all
	Caps      []int         `json:"caps"`
	Ops       []c11Op       `json:"ops"`
	Delays    []yield.Delay `json:"delays,omitempty"`
}

func genC11(t *rapid.T, env *core.Env) c11Case {
	cs := c11Case{
		Updates:   rapid.SampledFrom([]int{0, 1, 2, 3, 8, 20}).Draw(t, "updates"),
		GapUs:     rapid.SampledFrom([]int{0, 0, 100, 500}).Draw(t, "gap"),
		EndSource: rapid.IntRange(0, 5).Draw(t, "endsource") == 0,
	}
	for i := 0; i < 3; i++ {
		cs.Readers = append(cs.Readers, rapid.SampledFrom([]int{-1, -1, 0, 0, 1, 2}).Draw(t, "reader"))
		cs.Caps = append(cs.Caps, rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "cap"))
	}
	for i, n := 0, rapid.IntRange(1, 14).Draw(t, "ops"); i < n; i++ {
		o := c11Op{
			Op:   rapid.SampledFrom([]string{"get", "get", "get", "get", "sub", "sub", "sub", "unsub", "unsub", "close?"}).Draw(t, "op"),
			AtUs: rapid.SampledFrom([]int{0, 0, 0, 50, 200, 500, 1000, 2500}).Draw(t, "at"),
		}
		switch o.Op {
		case "sub", "unsub":
			o.Ch = rapid.IntRange(0, 2).Draw(t, "ch")
			if rapid.IntRange(0, 3).Draw(t, "filter") == 0 {
				o.Check = rapid.IntRange(1, len(c10Checks)).Draw(t, "check")
			}
		case "close?":
			o.Op = "get"
			if rapid.Bool().Draw(t, "really") {
				o.Op = "close"
			}
		}
		cs.Ops = append(cs.Ops, o)
	}
	cs.Delays = core.GenDelaysIn(t, env, 4, "config_distributor.go", "event.go")
	return cs
}

func runC11(c *core.Ctx, cs c11Case) error {
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	c.Cleanup(dist.Close)
	cfgs := make([]*server.Config, cs.Updates)
	index := map[*server.Config]int64{}
	for i := range cfgs {
		cfgs[i] = &server.Config{Listen: fmt.Sprintf("l%d", i%3), DatabaseURL: fmt.Sprintf("db%d", i%2)}
		index[cfgs[i]] = int64(i)
	}
	var mu sync.Mutex
	var problem string
	report := func(format string, a ...interface{}) {
		mu.Lock()
		if problem == "" {
			problem = fmt.Sprintf(format, a...)
		}
		mu.Unlock()
	}
	newest := int64(-1) // the newest configuration anybody has seen
	saw := func(i int64) {
		for {
			n := atomic.LoadInt64(&newest)
			if i <= n || atomic.CompareAndSwapInt64(&newest, n, i) {
				return
			}
		}
	}
	var closing, closed int32 // a close has begun / has returned
	stop := make(chan struct{})
	var once sync.Once
	c.Cleanup(func() { once.Do(func() { close(stop) }) })

	// Readers of the subscribed channels.
	chs := make([]chan *server.Config, len(cs.Readers))
	for i := range chs {
		chs[i] = make(chan *server.Config, cs.Caps[i])
		i := i
		go func() {
			for n := 0; cs.Readers[i] < 0 || n < cs.Readers[i]; n++ {
				select {
				case v := <-chs[i]:
					if k, ok := index[v]; ok {
						saw(k)
					} else {
						report("something that never was a configuration was delivered")
					}
				case <-stop:
					return
				}
			}
		}()
	}
	feeder := runAsync("feeding updates", func() error {
		for _, cfg := range cfgs {
			select {
			case src <- cfg:
			case <-stop:
				return nil
			}
			if cs.GapUs > 0 {
				time.Sleep(time.Duration(cs.GapUs) * time.Microsecond)
			}
		}
		if cs.EndSource {
			atomic.StoreInt32(&closing, 1)
			close(src)
		}
		return nil
	})
	get := func() error {
		was := atomic.LoadInt32(&closed)
		floor := atomic.LoadInt64(&newest)
		v, err := dist.Get()
		if err != nil {
			if !errors.Is(err, server.ErrConfigDistributorClosed) {
				report("Get failed with %v", err)
			} else if atomic.LoadInt32(&closing) == 0 {
				report("Get returned %v although nobody has closed the distributor", err)
			}
			return nil
		}
		k, ok := index[v]
		if !ok {
			report("Get returned %v, which never was a configuration", v)
			return nil
		}
		if was == 1 {
			report("Get returned configuration %d after the distributor was closed", k)
		}
		if k < floor {
			report("Get returned configuration %d although configuration %d had already been seen before the call", k, floor)
		}
		saw(k)
		return nil
	}
	sub := func(o c11Op) error {
		was := atomic.LoadInt32(&closed)
		var checks []server.ConfigChangedCheckFn
		if o.Check > 0 {
			checks = append(checks, c10Checks[o.Check-1])
		}
		err := dist.Subscribe(chs[o.Ch], checks...)
		switch {
		case err == nil && was == 1:
			report("Subscribe succeeded after the distributor was closed")
		case err != nil && !errors.Is(err, server.ErrConfigDistributorClosed):
			report("Subscribe failed with %v", err)
		case err != nil && atomic.LoadInt32(&closing) == 0:
			report("Subscribe returned %v although nobody has closed the distributor", err)
		}
		return nil
	}
	shut := func() error {
		atomic.StoreInt32(&closing, 1)
		dist.Close()
		return nil
	}
	var now, later []*asyncCall
	stuck := false
	for _, o := range cs.Ops {
		o := o
		pause := func() {
			if o.AtUs > 0 {
				time.Sleep(time.Duration(o.AtUs) * time.Microsecond)
			}
		}
		switch o.Op {
		case "get":
			a := runAsync("Get", func() error { pause(); return get() })
			if cs.Updates > 0 {
				now = append(now, a)
			} else {
				later = append(later, a)
			}
		case "sub":
			a := runAsync("Subscribe", func() error { pause(); return sub(o) })
			if cs.Readers[o.Ch] < 0 {
				now = append(now, a)
			} else {
				later = append(later, a)
				stuck = true
			}
		case "unsub":
			now = append(now, runAsync("Unsubscribe", func() error { pause(); dist.Unsubscribe(chs[o.Ch]); return nil }))
		case "close":
			now = append(now, runAsync("Close", func() error {
				pause()
				_ = shut()
				atomic.StoreInt32(&closed, 1)
				return nil
			}))
		}
	}
	for _, a := range now {
		if err := await("the return of "+a.what, a.returned); err != nil {
			return err
		}
	}
	blocked := 0
	for _, a := range later {
		if !a.returned() {
			blocked++
		}
	}
	c.LabelIf(blocked > 0, "calls still waiting when the distributor is closed")
	c.LabelIf(!feeder.returned(), "closed while an update is pending")
	last := runAsync("Close", shut)
	if err := await("the return of Close", last.returned); err != nil {
		return err
	}
	atomic.StoreInt32(&closed, 1)
	for _, a := range later {
		if err := await("the return of "+a.what+" after closing", a.returned); err != nil {
			return err
		}
	}
	for _, f := range []struct {
		what string
		f    func() error
	}{
		{"Get", get},
		{"Subscribe", func() error { return sub(c11Op{Ch: 0}) }},
		{"Unsubscribe", func() error { dist.Unsubscribe(chs[0]); return nil }},
		{"Close", shut},
	} {
		a := runAsync(f.what, f.f)
		if err := await("the return of "+f.what+" after closing", a.returned); err != nil {
			return err
		}
	}
	once.Do(func() { close(stop) })
	if err := await("the end of the source", feeder.returned); err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	if problem != "" {
		return violf("%s", problem)
	}
	if cs.Updates > 0 && len(cs.Ops) > 1 {
		c.NonTrivial()
	}
	c.LabelIf(stuck, "a subscriber that stops reading")
	c.LabelIf(atomic.LoadInt64(&newest) > 0, "several configurations seen")
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C11",
		Rule: "a case is a set of concurrent calls (Get, Subscribe on channels that are read forever, for a while or never, Unsubscribe, Close) at generated times around a stream of updates, with generated delays between the statements of the distributor; non-trivial = at least one update and two calls" + patienceRule,
		Subs: []core.Sub{
			&core.Check[c11Case]{Name: "concurrent calls", Quick: 12000, Thorough: 480000, Gen: genC11, Run: runC11, Delays: func(c c11Case) []yield.Delay { return c.Delays }},
			&core.Check[patienceConfig]{Name: "patience", Quick: 1, Thorough: 6, Aside: true, Gen: genPatienceConfig, Run: runC11Patience},
		},
	})
}
