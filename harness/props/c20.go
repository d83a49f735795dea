package props

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hired/gevulot/pkg/server"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/yield"
)

// C20: a one-time event fires exactly once for everyone.

type c20Case struct {
	Events  int           `json:"events"`
	Firers  []c20Firer    `json:"firers"`
	Polls   int           `json:"polls"`           // observers polling HasFired and Done
	Waiters int           `json:"waiters"`         // observers waiting for Done
	Fresh   bool          `json:"fresh,omitempty"` // nobody looks at the events before they are used concurrently
	Delays  []yield.Delay `json:"delays,omitempty"`
}

type c20Firer struct {
	Event int `json:"event"`
	AtUs  int `json:"at_us"`
	Spin  int `json:"spin"`
	Times int `json:"times"`
}

func genC20(t *rapid.T, env *core.Env) c20Case {
	cs := c20Case{Events: rapid.IntRange(1, 2).Draw(t, "events"), Polls: rapid.IntRange(0, 3).Draw(t, "polls"), Waiters: rapid.IntRange(0, 3).Draw(t, "waiters")}
	cs.Fresh = rapid.Bool().Draw(t, "fresh")
	for i, n := 0, rapid.IntRange(0, 8).Draw(t, "firers"); i < n; i++ {
		cs.Firers = append(cs.Firers, c20Firer{
			Event: rapid.IntRange(0, cs.Events-1).Draw(t, "event"),
			AtUs:  rapid.SampledFrom([]int{0, 0, 0, 20, 100}).Draw(t, "at"),
			Spin:  rapid.SampledFrom([]int{0, 0, 1, 10, 100}).Draw(t, "spin"),
			Times: rapid.IntRange(1, 3).Draw(t, "times"),
		})
	}
	cs.Delays = core.GenDelaysIn(t, env, 4, "event.go")
	return cs
}

func isClosed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func runC20(c *core.Ctx, cs c20Case) error {
	type event struct {
		*server.Event
		attempts, returned, won int32
	}
	var mu sync.Mutex
	var problem string
	report := func(format string, a ...interface{}) {
		mu.Lock()
		if problem == "" {
			problem = fmt.Sprintf(format, a...)
		}
		mu.Unlock()
	}
	evs := make([]*event, cs.Events)
	for i := range evs {
		evs[i] = &event{Event: server.NewEvent()}
		if !cs.Fresh && (evs[i].HasFired() || isClosed(evs[i].Done())) {
			return violf("a new event has fired already")
		}
	}
	start := make(chan struct{})
	stop := make(chan struct{})
	var calls, observers []*asyncCall
	for _, f := range cs.Firers {
		f := f
		calls = append(calls, runAsync("Fire", func() error {
			e := evs[f.Event]
			<-start
			if f.AtUs > 0 {
				time.Sleep(time.Duration(f.AtUs) * time.Microsecond)
			}
			for i := 0; i < f.Spin; i++ {
				runtime.Gosched()
			}
			for i := 0; i < f.Times; i++ {
				atomic.StoreInt32(&e.attempts, 1)
				won := e.Fire()
				// Everything must be visible as soon as the call has returned, to whoever looks.
				h, d := e.HasFired(), isClosed(e.Done())
				atomic.StoreInt32(&e.returned, 1)
				if won && atomic.AddInt32(&e.won, 1) > 1 {
					report("two attempts were told that they fired the event")
				}
				if !h || !d {
					report("an attempt to fire returned (%v) but the event is seen as fired: %v, its channel closed: %v", won, h, d)
				}
			}
			return nil
		}))
	}
	for i := 0; i < cs.Polls; i++ {
		i := i
		observers = append(observers, runAsync("observing", func() error {
			e := evs[i%len(evs)]
			fired, done := false, false
			if cs.Fresh {
				<-start
			}
			early := e.Done()
			<-start
			for n := 0; ; n++ {
				if n == 3000 {
					<-stop // a last look is enough
				}
				over := isClosed(stop)
				ret := atomic.LoadInt32(&e.returned) == 1
				h := e.HasFired()
				d := isClosed(e.Done())
				if d && !e.HasFired() {
					report("the completion channel is closed, but the event is not seen as fired")
				}
				w := isClosed(early)
				att := atomic.LoadInt32(&e.attempts) == 1
				switch {
				case (h || d || w) && !att:
					report("the event is seen as fired (%v, channel %v) before anybody tried to fire it", h, d)
				case ret && (!h || !d || !w):
					report("an attempt to fire has returned, but an observer sees the event as fired: %v, its channel closed: %v and %v", h, d, w)
				case fired && !h || done && !d:
					report("an event was seen as fired and later as not fired")
				}
				fired, done = h, d
				if over {
					return nil
				}
				runtime.Gosched()
			}
		}))
	}
	var waiters []*asyncCall
	for i := 0; i < cs.Waiters; i++ {
		e := evs[i%len(evs)]
		var ch <-chan struct{}
		if !cs.Fresh {
			ch = e.Done()
		}
		waiters = append(waiters, runAsync("waiting for an event", func() error {
			<-start
			if cs.Fresh {
				ch = e.Done()
			}
			select {
			case <-ch:
				if atomic.LoadInt32(&e.attempts) == 0 {
					report("a waiter was woken before anybody tried to fire the event")
				}
				if !e.HasFired() {
					report("a waiter woken by the completion channel does not see the event as fired")
				}
			case <-stop:
				if atomic.LoadInt32(&e.returned) == 1 && !isClosed(ch) {
					report("an event was fired but a channel obtained before was not closed")
				}
			}
			return nil
		}))
	}
	close(start)
	for _, a := range calls {
		if err := await("the return of Fire", a.returned); err != nil {
			return err
		}
	}
	for i, e := range evs {
		if atomic.LoadInt32(&e.attempts) == 0 {
			if e.HasFired() || isClosed(e.Done()) {
				return violf("event %d is seen as fired although nobody fired it", i)
			}
			continue
		}
		if n := atomic.LoadInt32(&e.won); n != 1 {
			return violf("%d attempts were told that they fired event %d, it must be exactly one", n, i)
		}
		if !e.HasFired() || !isClosed(e.Done()) {
			return violf("a fired event is seen as not fired")
		}
	}
	close(stop)
	for _, a := range append(observers, waiters...) {
		if err := await("the end of an observer", a.returned); err != nil {
			return err
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if problem != "" {
		return violf("%s", problem)
	}
	if len(cs.Firers) > 1 {
		c.NonTrivial()
	}
	c.LabelIf(len(cs.Firers) == 0, "never fired")
	return nil
}

// c20Race: many fresh events, each used by a few goroutines at the very same moment.
type c20Race struct {
	Rounds int      `json:"rounds"`
	Acts   []string `json:"acts"` // one goroutine each: letters f(ire), d(one), h(asFired), w(ait), y(ield)
}

// relax waits for a moment: at first without letting go of the processor.
func relax(k int) {
	if k < 100 {
		runtime.Gosched()
	} else {
		time.Sleep(20 * time.Microsecond)
	}
}

func genC20Race(t *rapid.T, env *core.Env) c20Race {
	cs := c20Race{Rounds: rapid.SampledFrom([]int{50, 200, 500}).Draw(t, "rounds")}
	for i, n := 0, rapid.IntRange(2, 5).Draw(t, "n"); i < n; i++ {
		cs.Acts = append(cs.Acts, string(rapid.SliceOfN(rapid.SampledFrom([]byte("ffdddhhwy")), 1, 4).Draw(t, "acts")))
	}
	return cs
}

func runC20Race(c *core.Ctx, cs c20Race) error {
	fires := strings.Count(strings.Join(cs.Acts, ""), "f")
	others := make([]bool, len(cs.Acts)) // somebody else fires
	for i, a := range cs.Acts {
		others[i] = strings.Count(a, "f") < fires
	}
	n := len(cs.Acts)
	var ev atomic.Value // of *server.Event
	var round, arrived int32
	problems := make([]string, n)
	chans := make([][]<-chan struct{}, n)
	wins := make([]int, n)
	var attempted int32
	for i := range cs.Acts {
		i := i
		runAsync("using events", func() error {
			for r := int32(1); r <= int32(cs.Rounds); r++ {
				for k := 0; atomic.LoadInt32(&round) != r; k++ {
					if atomic.LoadInt32(&round) < 0 {
						return nil
					}
					relax(k)
				}
				e := ev.Load().(*server.Event)
				chans[i], wins[i] = chans[i][:0], 0
				flagged, closed := false, false // as this goroutine has seen it
				look := func(h, d bool) {
					if (h || d) && atomic.LoadInt32(&attempted) == 0 {
						problems[i] = "an event is seen as fired before anybody fired it"
					}
					flagged, closed = flagged || h, closed || d
				}
				flag := func() {
					h := e.HasFired()
					if !h && (flagged || closed) {
						problems[i] = fmt.Sprintf("an event is not seen as fired after its flag was seen: %v, its channel closed: %v", flagged, closed)
					}
					look(h, false)
				}
				done := func(ch <-chan struct{}) bool {
					d := isClosed(ch)
					if !d && closed {
						problems[i] = "a completion channel is open after it was closed, or should have been"
					}
					look(false, d)
					return d
				}
				for _, a := range cs.Acts[i] {
					switch a {
					case 'f':
						atomic.StoreInt32(&attempted, 1)
						if e.Fire() {
							wins[i]++
						}
						closed = true // or should be
						flag()
						done(e.Done())
					case 'd':
						ch := e.Done()
						chans[i] = append(chans[i], ch)
						done(ch)
					case 'h':
						flag()
					case 'w':
						ch := e.Done()
						chans[i] = append(chans[i], ch)
						for n := 0; n < 200 && !done(ch) && others[i]; n++ {
							runtime.Gosched()
						}
						flag()
					case 'y':
						runtime.Gosched()
					}
				}
				atomic.AddInt32(&arrived, 1)
			}
			return nil
		})
	}
	defer atomic.StoreInt32(&round, -1)
	began := time.Now()
	for r := 1; r <= cs.Rounds && (r < 20 || time.Since(began) < 100*time.Millisecond); r++ {
		e := server.NewEvent()
		ev.Store(e)
		atomic.StoreInt32(&attempted, 0)
		atomic.StoreInt32(&arrived, 0)
		atomic.StoreInt32(&round, int32(r))
		all := func() bool { return atomic.LoadInt32(&arrived) == int32(n) }
		for k := 0; !all() && k < 1000; k++ {
			relax(k)
		}
		if !all() {
			if err := await("the end of Fire, Done and HasFired", all); err != nil {
				return err
			}
		}
		total := 0
		for i := range cs.Acts {
			if problems[i] != "" {
				return violf("round %d: %s", r, problems[i])
			}
			total += wins[i]
		}
		if fires > 0 && total != 1 {
			return violf("round %d: %d attempts were told that they fired the event, it must be exactly one", r, total)
		}
		if fires > 0 && (!e.HasFired() || !isClosed(e.Done())) {
			return violf("round %d: a fired event is seen as not fired", r)
		}
		for i := range chans {
			for _, ch := range chans[i] {
				if isClosed(ch) != (fires > 0) {
					return violf("round %d: a completion channel obtained earlier is closed: %v, although the event was fired: %v", r, isClosed(ch), fires > 0)
				}
			}
		}
		if fires == 0 {
			// the channels that were handed out belong to the event: they close with it
			if !e.Fire() {
				return violf("round %d: the first attempt to fire was told that it was not", r)
			}
			for i := range chans {
				for _, ch := range chans[i] {
					if !isClosed(ch) {
						return violf("round %d: the event was fired but a completion channel obtained before is not closed", r)
					}
				}
			}
		}
	}
	if fires > 0 && strings.ContainsAny(strings.Join(cs.Acts, ""), "dhw") {
		c.NonTrivial()
	}
	return nil
}

func init() {
	core.Register(&core.Prop{
		ID:   "C20",
		Rule: "a case is one or two events with 0 to 8 concurrent firers, pollers and waiters, with generated delays between the statements of the event; non-trivial = at least two firers",
		Subs: []core.Sub{
			&core.Check[c20Case]{Name: "concurrent firing", Quick: 20000, Thorough: 1000000, Gen: genC20, Run: runC20, Delays: func(c c20Case) []yield.Delay { return c.Delays }},
			&core.Check[c20Race]{Name: "races", Quick: 4000, Thorough: 200000, Gen: genC20Race, Run: runC20Race},
		},
	})
}
