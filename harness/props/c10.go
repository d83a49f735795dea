package props

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/hired/gevulot/pkg/server"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/yield"
)

// C10: subscribers see exactly the relevant updates, in order.

type c10Op struct {
	Op     string `json:"op"` // update, sub, unsub, get, close, sourceclose
	Ch     int    `json:"ch,omitempty"`
	Listen int    `json:"listen,omitempty"`
	DB     int    `json:"db,omitempty"`
	Checks []int  `json:"checks,omitempty"` // kinds of checks
	Same   bool   `json:"same,omitempty"`   // send the same configuration value (pointer) again
}

type c10Case struct {
	Ops    []c10Op       `json:"ops"`
	Cap    []int         `json:"cap"` // capacity of each channel: -1 = read continuously by a goroutine
	SrcCap int           `json:"src_cap,omitempty"`
	Delays []yield.Delay `json:"delays,omitempty"`
}

const c10Channels = 4

// checks a subscriber can have; both arguments matter.
var c10Checks = []server.ConfigChangedCheckFn{
	func(o, n *server.Config) bool { return o == nil || o.Listen != n.Listen },
	func(o, n *server.Config) bool { return o == nil || o.DatabaseURL != n.DatabaseURL },
	func(o, n *server.Config) bool { return n.Listen == "l1" },
	func(o, n *server.Config) bool { return o != nil && o.Listen == "l1" },
	func(o, n *server.Config) bool { return false },
	func(o, n *server.Config) bool { return true },
	func(o, n *server.Config) bool { return o != nil && o.Listen < n.Listen },
	func(o, n *server.Config) bool { return o == nil },
	func(o, n *server.Config) bool { return o != nil },
}

func genC10(t *rapid.T, env *core.Env) c10Case {
	var cs c10Case
	for i := 0; i < c10Channels; i++ {
		cs.Cap = append(cs.Cap, rapid.SampledFrom([]int{-1, -1, 1000, 0}).Draw(t, "cap"))
	}
	cs.SrcCap = rapid.SampledFrom([]int{0, 0, 1, 100}).Draw(t, "srccap")
	n := rapid.IntRange(1, 40).Draw(t, "n")
	for i := 0; i < n; i++ {
		o := c10Op{Op: rapid.SampledFrom([]string{"update", "update", "update", "update", "update", "update", "sub", "sub", "sub", "unsub", "get", "rare"}).Draw(t, "op")}
		switch o.Op {
		case "update":
			o.Listen = rapid.IntRange(0, 2).Draw(t, "listen")
			o.DB = rapid.IntRange(0, 1).Draw(t, "db")
			o.Same = rapid.IntRange(0, 7).Draw(t, "same") == 0
		case "sub":
			o.Ch = rapid.IntRange(0, c10Channels-1).Draw(t, "ch")
			for j, k := 0, rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(t, "nchecks"); j < k; j++ {
				o.Checks = append(o.Checks, rapid.IntRange(0, len(c10Checks)-1).Draw(t, "check"))
			}
		case "unsub":
			o.Ch = rapid.IntRange(0, c10Channels-1).Draw(t, "ch")
		case "rare":
			o.Op = rapid.SampledFrom([]string{"get", "update", "close", "sourceclose"}).Draw(t, "rareop")
		}
		cs.Ops = append(cs.Ops, o)
	}
	cs.Delays = core.GenDelaysIn(t, env, 3, "config_distributor.go", "event.go")
	return cs
}

// collector keeps what arrives on a channel.
type collector struct {
	ch   chan *server.Config
	mu   sync.Mutex
	got  []*server.Config
	stop chan struct{}
}

func newCollector(cap int, read bool) *collector {
	k := &collector{ch: make(chan *server.Config, cap), stop: make(chan struct{})}
	if read {
		go func() {
			for {
				select {
				case v := <-k.ch:
					k.mu.Lock()
					k.got = append(k.got, v)
					k.mu.Unlock()
				case <-k.stop:
					return
				}
			}
		}()
	}
	return k
}

func (k *collector) drain() {
	for {
		select {
		case v := <-k.ch:
			k.mu.Lock()
			k.got = append(k.got, v)
			k.mu.Unlock()
		default:
			return
		}
	}
}

func (k *collector) list() []*server.Config {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]*server.Config(nil), k.got...)
}

func runC10(c *core.Ctx, cs c10Case) error {
	src := make(chan *server.Config, cs.SrcCap)
	dist := server.NewConfigDistributor(src)
	type sub struct {
		*collector
		active bool
		checks []int
		want   []*server.Config
	}
	var subs []*sub
	for i := 0; i < c10Channels; i++ {
		cap := cs.Cap[i]
		if cap < 0 {
			cap = 0
		}
		k := newCollector(cap, cs.Cap[i] <= 0)
		c.Cleanup(func() { close(k.stop) })
		subs = append(subs, &sub{collector: k})
	}
	// A subscriber without checks of our own tells that an update was handed out.
	mark := newCollector(0, true)
	c.Cleanup(func() { close(mark.stop) })
	c.Cleanup(dist.Close) // before the readers stop
	marks := 0
	if err := dist.Subscribe(mark.ch); err != nil {
		return violf("Subscribe: %v", err)
	}
	var last *server.Config
	closed := false
	deliveries, filtered := 0, 0
	accepts := func(checks []int, o, n *server.Config) bool {
		for _, i := range checks {
			if c10Checks[i](o, n) {
				return true
			}
		}
		return len(checks) == 0
	}
	compare := func() error {
		for i, s := range subs {
			if err := await(fmt.Sprintf("delivery of %d configurations to subscriber %d", len(s.want), i), func() bool {
				if cs.Cap[i] > 0 {
					s.drain()
				}
				return len(s.list()) >= len(s.want)
			}); err != nil {
				return err
			}
			got := s.list()
			if len(got) > len(s.want) {
				return violf("subscriber %d got %d configurations instead of %d: %s instead of %s", i, len(got), len(s.want), names(got), names(s.want))
			}
			for j := range got {
				if got[j] != s.want[j] {
					return violf("subscriber %d got %s instead of %s", i, names(got), names(s.want))
				}
			}
		}
		return nil
	}
	n := 0
	sourceClosed := false
	for _, o := range cs.Ops {
		if closed {
			if o.Op == "update" || o.Op == "sourceclose" || o.Op == "close" {
				continue
			}
		}
		switch o.Op {
		case "update":
			n++
			cfg := &server.Config{Listen: fmt.Sprintf("l%d", o.Listen), DatabaseURL: fmt.Sprintf("db%d", o.DB)}
			if o.Same && last != nil {
				cfg = last
			}
			a := runAsync("update", func() error { src <- cfg; return nil })
			if err := await("an update to be taken", a.returned); err != nil {
				return err
			}
			marks++
			if err := await("an update to be handed to a subscriber", func() bool { return len(mark.list()) >= marks }); err != nil {
				return err
			}
			for _, s := range subs {
				if !s.active {
					continue
				}
				if accepts(s.checks, last, cfg) {
					s.want = append(s.want, cfg)
					deliveries++
				} else {
					filtered++
				}
			}
			last = cfg
			if err := compare(); err != nil {
				return err
			}
		case "sub":
			s := subs[o.Ch]
			var checks []server.ConfigChangedCheckFn
			for _, i := range o.Checks {
				checks = append(checks, c10Checks[i])
			}
			c.LabelIf(s.active, "subscribed again")
			a := runAsync("Subscribe", func() error { return dist.Subscribe(s.ch, checks...) })
			if err := await("return of Subscribe", a.returned); err != nil {
				return err
			}
			if closed {
				if a.err == nil {
					return violf("subscribing to a closed distributor succeeded")
				}
				continue
			}
			if a.err != nil {
				return violf("Subscribe: %v", a.err)
			}
			s.active, s.checks = true, o.Checks
			if last != nil && accepts(o.Checks, nil, last) {
				s.want = append(s.want, last)
				deliveries++
			}
		case "unsub":
			a := runAsync("Unsubscribe", func() error { dist.Unsubscribe(subs[o.Ch].ch); return nil })
			if err := await("return of Unsubscribe", a.returned); err != nil {
				return err
			}
			c.LabelIf(subs[o.Ch].active, "unsubscribed")
			subs[o.Ch].active = false
		case "get":
			if last == nil && !closed {
				continue
			}
			var g *server.Config
			a := runAsync("Get", func() (err error) { g, err = dist.Get(); return err })
			if err := await("return of Get", a.returned); err != nil {
				return err
			}
			if closed {
				if !errors.Is(a.err, server.ErrConfigDistributorClosed) {
					return violf("Get on a closed distributor returned %v, %v", g, a.err)
				}
			} else if a.err != nil || g != last {
				return violf("Get returned %v, %v instead of %v", g, a.err, last)
			}
		case "close":
			a := runAsync("Close", func() error { dist.Close(); return nil })
			if err := await("return of Close", a.returned); err != nil {
				return err
			}
			closed = true
			c.Label("closed")
		case "sourceclose":
			close(src)
			closed, sourceClosed = true, true
			if err := await("the distributor to close when its source ends", func() bool { _, err := dist.Get(); return err != nil }); err != nil {
				return err
			}
			c.Label("source ended")
		}
		if closed {
			for _, s := range subs {
				s.active = false
			}
		}
	}
	if !closed {
		// Whatever would be delivered too much has arrived once a later update has passed.
		cfg := &server.Config{Listen: "end", DatabaseURL: "end"}
		a := runAsync("update", func() error { src <- cfg; return nil })
		if err := await("an update to be taken", a.returned); err != nil {
			return err
		}
		for _, s := range subs {
			if s.active && accepts(s.checks, last, cfg) {
				s.want = append(s.want, cfg)
			}
		}
	} else if !sourceClosed {
		// A closed distributor must not hand out what its source still gets.
		select {
		case src <- &server.Config{Listen: "late", DatabaseURL: "late"}:
		case <-time.After(200 * time.Microsecond):
		}
	}
	core.Settle(2 * time.Millisecond)
	if err := compare(); err != nil {
		return err
	}
	if deliveries > 0 && n > 1 {
		c.NonTrivial()
	}
	c.LabelIf(filtered > 0, "updates filtered by checks")
	return nil
}

func names(cs []*server.Config) string {
	s := "["
	for _, c := range cs {
		if c == nil {
			s += " nil"
			continue
		}
		s += " " + c.Listen + "/" + c.DatabaseURL
	}
	return s + " ]"
}

// Concurrent mode: subscribers come and go while updates stream through; what each saw must be a contiguous run.

type c10Conc struct {
	Updates int           `json:"updates"`
	Subs    []c10Sub      `json:"subs"`
	GapUs   int           `json:"gap_us,omitempty"`
	Close   int           `json:"close,omitempty"` // close the distributor after this many us
	SrcCap  int           `json:"src_cap,omitempty"`
	Delays  []yield.Delay `json:"delays,omitempty"`
}

type c10Sub struct {
	Checks []int `json:"checks,omitempty"` // monotone ones only, see below
	Cycles []int `json:"cycles"`           // us subscribed / us unsubscribed, alternately
	SlowUs int   `json:"slow_us,omitempty"`
	Cap    int   `json:"cap,omitempty"`
	// Again: the same channel is subscribed over and over, one subscription replacing the one before (no checks, no
	// unsubscribing between, a channel that never is full).
	Again bool `json:"again,omitempty"`
}

func genC10Conc(t *rapid.T, env *core.Env) c10Conc {
	cs := c10Conc{Updates: rapid.IntRange(3, 60).Draw(t, "updates"), GapUs: rapid.SampledFrom([]int{0, 0, 50, 300}).Draw(t, "gap")}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "subs"); i < n; i++ {
		s := c10Sub{Cap: rapid.SampledFrom([]int{0, 1, 5, 100}).Draw(t, "cap"), SlowUs: rapid.SampledFrom([]int{0, 0, 30, 400}).Draw(t, "slow")}
		if rapid.IntRange(0, 2).Draw(t, "filtered") == 0 {
			s.Checks = []int{rapid.IntRange(0, 3).Draw(t, "check")}
		}
		for j, k := 0, rapid.IntRange(1, 5).Draw(t, "cycles"); j < k; j++ {
			s.Cycles = append(s.Cycles, rapid.SampledFrom([]int{0, 10, 100, 1000, 5000}).Draw(t, "us"))
		}
		if s.Again = rapid.IntRange(0, 2).Draw(t, "again") == 0; s.Again {
			s.Checks = nil
			for j, k := 0, rapid.IntRange(0, 20).Draw(t, "more"); j < k; j++ {
				s.Cycles = append(s.Cycles, rapid.SampledFrom([]int{0, 0, 10, 100, 1000}).Draw(t, "us2"))
			}
		}
		cs.Subs = append(cs.Subs, s)
	}
	if rapid.IntRange(0, 3).Draw(t, "doclose") == 0 {
		cs.Close = rapid.SampledFrom([]int{1, 100, 1000, 8000}).Draw(t, "closeus")
	}
	cs.SrcCap = rapid.SampledFrom([]int{0, 1, 10, 100}).Draw(t, "srccap")
	cs.Delays = core.GenDelaysIn(t, env, 4, "config_distributor.go", "event.go")
	return cs
}

func runC10Conc(c *core.Ctx, cs c10Conc) error {
	src := make(chan *server.Config, cs.SrcCap)
	dist := server.NewConfigDistributor(src)
	c.Cleanup(dist.Close)
	cfgs := make([]*server.Config, cs.Updates)
	index := map[*server.Config]int{}
	for i := range cfgs {
		cfgs[i] = &server.Config{Listen: fmt.Sprintf("l%d", i/2%3), DatabaseURL: fmt.Sprintf("db%d", i)}
		index[cfgs[i]] = i
	}
	checkFn := []server.ConfigChangedCheckFn{c10Checks[0], c10Checks[2], c10Checks[3], c10Checks[8]}
	want := func(s c10Sub, i int, first bool) bool {
		if len(s.Checks) == 0 {
			return true
		}
		var old *server.Config
		if i > 0 && !first {
			old = cfgs[i-1]
		}
		return checkFn[s.Checks[0]](old, cfgs[i])
	}
	stop := make(chan struct{})
	var stopOnce sync.Once
	c.Cleanup(func() { stopOnce.Do(func() { close(stop) }) })
	// The source.
	feeder := runAsync("feeding updates", func() error {
		for _, cfg := range cfgs {
			select {
			case src <- cfg:
			case <-stop:
				return nil
			}
			if cs.GapUs > 0 {
				time.Sleep(time.Duration(cs.GapUs) * time.Microsecond)
			}
		}
		return nil
	})
	var calls []*asyncCall
	var mu sync.Mutex
	var problem string
	report := func(format string, a ...interface{}) {
		mu.Lock()
		if problem == "" {
			problem = fmt.Sprintf(format, a...)
		}
		mu.Unlock()
	}
	runs := 0
	for si := range cs.Subs {
		s := cs.Subs[si]
		if s.Again {
			calls = append(calls, runAsync(fmt.Sprintf("subscriber %d", si), func() error {
				n, msg := c10Again(dist, s, cs.Updates, index)
				if msg != "" {
					report("subscriber %d: %s", si, msg)
				}
				mu.Lock()
				runs += n
				mu.Unlock()
				return nil
			}))
			continue
		}
		calls = append(calls, runAsync(fmt.Sprintf("subscriber %d", si), func() error {
			for k := 0; k < len(s.Cycles); k += 2 {
				ch := make(chan *server.Config, s.Cap)
				quit := make(chan struct{})
				var got []*server.Config
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case v := <-ch:
							got = append(got, v)
							if s.SlowUs > 0 {
								time.Sleep(time.Duration(s.SlowUs) * time.Microsecond)
							}
						case <-quit:
							for {
								select {
								case v := <-ch:
									got = append(got, v)
								default:
									return
								}
							}
						}
					}
				}()
				var checks []server.ConfigChangedCheckFn
				if len(s.Checks) > 0 {
					checks = append(checks, checkFn[s.Checks[0]])
				}
				err := dist.Subscribe(ch, checks...)
				time.Sleep(time.Duration(s.Cycles[k]) * time.Microsecond)
				dist.Unsubscribe(ch)
				// Nothing may come any more: what is buffered was sent before.
				close(quit)
				wg.Wait()
				time.Sleep(50 * time.Microsecond)
				select {
				case v := <-ch:
					report("subscriber %d got configuration %d after unsubscribing", si, index[v])
				default:
				}
				if err != nil {
					if !errors.Is(err, server.ErrConfigDistributorClosed) {
						report("Subscribe: %v", err)
					}
					if len(got) > 0 {
						report("a failed Subscribe delivered configurations")
					}
					return nil
				}
				mu.Lock()
				runs++
				mu.Unlock()
				// A contiguous run of the accepted updates, starting anywhere.
				var idx []int
				for _, v := range got {
					i, ok := index[v]
					if !ok {
						report("subscriber %d got something that never was a configuration", si)
						return nil
					}
					idx = append(idx, i)
				}
				for j := range idx {
					if j == 0 {
						if !want(s, idx[0], true) && !want(s, idx[0], false) {
							report("subscriber %d got configuration %d, which its check does not accept", si, idx[0])
						}
						continue
					}
					next := idx[j-1] + 1
					for next < len(cfgs) && !want(s, next, false) {
						next++
					}
					if idx[j] != next {
						report("subscriber %d (check %v) got configuration %d after %d; the next one for it is %d (it got %v)", si, s.Checks, idx[j], idx[j-1], next, idx)
						break
					}
				}
				if k+1 < len(s.Cycles) {
					time.Sleep(time.Duration(s.Cycles[k+1]) * time.Microsecond)
				}
			}
			return nil
		}))
	}
	if cs.Close > 0 {
		calls = append(calls, runAsync("Close", func() error {
			time.Sleep(time.Duration(cs.Close) * time.Microsecond)
			dist.Close()
			return nil
		}))
	}
	for _, a := range calls {
		if err := await("return of "+a.what, a.returned); err != nil {
			return err
		}
	}
	stopOnce.Do(func() { close(stop) })
	if err := await("the end of the source", feeder.returned); err != nil {
		return err
	}
	mu.Lock()
	defer mu.Unlock()
	if problem != "" {
		return violf("%s", problem)
	}
	if runs > 0 {
		c.NonTrivial()
	}
	return nil
}

// c10Again subscribes one channel again and again while updates stream. By the time a Subscribe returns, the
// configuration in force was delivered for the new subscription and none is delivered for the old one any more: from
// there on each update comes once, in order. What comes between the call and the return never goes back.
func c10Again(dist *server.ConfigDistributor, s c10Sub, updates int, index map[*server.Config]int) (runs int, problem string) {
	ch := make(chan *server.Config, updates*2+len(s.Cycles)+10)
	var all []int
	var stray bool
	drain := func() {
		for {
			select {
			case v := <-ch:
				i, ok := index[v]
				stray = stray || !ok
				all = append(all, i)
				continue
			default:
			}
			return
		}
	}
	checked := 0 // all[:checked] was judged
	contiguous := func(what string) {
		for ; checked < len(all); checked++ {
			if checked > 0 && all[checked] != all[checked-1]+1 && problem == "" {
				problem = fmt.Sprintf("got configuration %d after %d %s (it got %v)", all[checked], all[checked-1], what, all)
			}
			if checked == 0 && all[0] != 0 && runs > 0 && problem == "" {
				problem = fmt.Sprintf("got configuration %d first %s, although it was subscribed before there was any", all[0], what)
			}
		}
	}
	for _, us := range s.Cycles {
		drain()
		contiguous("within a subscription")
		if err := dist.Subscribe(ch); err != nil {
			if !errors.Is(err, server.ErrConfigDistributorClosed) {
				return runs, fmt.Sprintf("Subscribe: %v", err)
			}
			break
		}
		drain()
		for ; checked < len(all); checked++ {
			if checked > 0 && all[checked] < all[checked-1] && problem == "" {
				problem = fmt.Sprintf("got configuration %d after %d while it was subscribing again (it got %v)", all[checked], all[checked-1], all)
			}
		}
		runs++
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
	time.Sleep(50 * time.Microsecond)
	drain()
	contiguous("within a subscription")
	dist.Unsubscribe(ch)
	if stray {
		problem = "got something that never was a configuration"
	}
	return runs, problem
}

func init() {
	core.Register(&core.Prop{
		ID:   "C10",
		Rule: "sequential: a history of updates, subscriptions with generated checks, re-subscriptions, unsubscriptions and closings against a model; non-trivial = at least 2 updates and one delivery compared. Concurrent: subscribers coming and going while updates stream; non-trivial = at least one subscription whose sequence was checked for gaps, repetitions and order" + patienceRule,
		Subs: []core.Sub{
			&core.Check[c10Case]{Name: "subscription histories", Quick: 6000, Thorough: 240000, Gen: genC10, Run: runC10, Delays: func(c c10Case) []yield.Delay { return c.Delays }},
			&core.Check[c10Conc]{Name: "concurrent subscribers", Quick: 4000, Thorough: 160000, Gen: genC10Conc, Run: runC10Conc, Delays: func(c c10Conc) []yield.Delay { return c.Delays }},
			&core.Check[patienceSubscribers]{Name: "patience", Quick: 1, Thorough: 6, Aside: true, Gen: genC10Patience, Run: runC10Patience},
		},
	})
}
