// Package props holds the executable properties.
package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync/atomic"
	"syscall"
	"time"

	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
)

func init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.WarnLevel) // formatting bulk traffic is what would dominate the time; C01 logs like the program does
}

var await = core.Await

func violf(format string, a ...interface{}) error { return core.Violationf(format, a...) }

func inconcf(format string, a ...interface{}) error { return core.Inconclusivef(format, a...) }

var serial int64

func nextID() int { return int(atomic.AddInt64(&serial, 1)) }

// startup makes a start-up packet unique in this process.
func startup(db string) []byte {
	return pgwire.Startup(pgwire.Version3, []pgwire.KV{{K: "user", V: "u"}, {K: "database", V: db}, {K: "application_name", V: fmt.Sprintf("s%d", nextID())}})
}

// dial connects to the proxy; a refusal is a violation.
func dial(addr string, buf int, paused bool) (*sim.Peer, error) {
	var p *sim.Peer
	var err error
	for i := 0; i < 3; i++ {
		p, err = sim.DialOpt(addr, buf, paused)
		if err == nil {
			return p, nil
		}
		if errors.Is(err, syscall.ECONNREFUSED) {
			return nil, violf("the proxy does not accept connections at %s: %v", addr, err)
		}
		time.Sleep(200 * time.Millisecond)
	}
	return nil, inconcf("cannot connect to %s: %v", addr, err)
}

type estOpt struct {
	buf          int
	clientPaused bool
	dbPaused     bool
}

// establish starts a session through the proxy and waits until its start-up packet has reached the database.
func establish(c *core.Ctx, addr string, db *sim.DB, dbname string, o estOpt) (*sim.Session, error) {
	pkt := startup(dbname)
	cl, err := dial(addr, o.buf, o.clientPaused)
	if err != nil {
		return nil, err
	}
	c.Cleanup(cl.Stop)
	cl.Send(pkt)
	s := &sim.Session{Client: cl, Packet: pkt}
	err = await("delivery of the start-up request to the database", func() bool {
		s.DB = db.Find(pkt)
		return s.DB != nil || cl.Ended()
	})
	if err != nil {
		return nil, err
	}
	if s.DB == nil {
		return nil, violf("the proxy hung up on a start-up request for the configured database (received %q)", cl.Received())
	}
	c.Cleanup(s.DB.Stop)
	if o.dbPaused {
		s.DB.Pause()
	}
	return s, nil
}

// fromClient is what the database received after the start-up packet.
func fromClient(s *sim.Session) []byte {
	r := s.DB.Received()
	if len(r) < len(s.Packet) {
		return nil
	}
	return r[len(s.Packet):]
}

func prefixErr(what string, got, want []byte) error {
	n := len(got)
	if n > len(want) {
		n = len(want)
	}
	if bytes.Equal(got[:n], want[:n]) {
		if len(got) > len(want) {
			return violf("%s: %d bytes more than were sent: %s", what, len(got)-len(want), hexAround(got, len(want)))
		}
		return nil
	}
	i := 0
	for got[i] == want[i] {
		i++
	}
	return violf("%s: byte %d differs from what was sent\n got  %s\n want %s", what, i, hexAround(got, i), hexAround(want, i))
}

func hexAround(b []byte, i int) string {
	lo, hi := i-24, i+40
	if lo < 0 {
		lo = 0
	}
	if hi > len(b) {
		hi = len(b)
	}
	return fmt.Sprintf("[%d:%d] %q", lo, hi, b[lo:hi])
}

func wire(ms []pgwire.Msg) []byte {
	var b []byte
	for _, m := range ms {
		b = append(b, m.Wire()...)
	}
	return b
}

func genMsgs(t *rapid.T, side string, min, max int) []pgwire.Msg {
	n := rapid.IntRange(min, max).Draw(t, "n-"+side)
	ms := make([]pgwire.Msg, 0, n)
	for i := 0; i < n; i++ {
		ms = append(ms, pgwire.GenAny(t, side))
	}
	return ms
}

func genChunks(t *rapid.T) []int {
	switch rapid.IntRange(0, 4).Draw(t, "chunking") {
	case 0:
		return []int{1}
	case 1:
		return nil
	default:
		n := rapid.IntRange(1, 4).Draw(t, "nchunks")
		c := make([]int, n)
		for i := range c {
			c[i] = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 7, 9, 13, 64, 511, 512, 513, 4096}).Draw(t, "chunk")
		}
		return c
	}
}

// world is one fake database and a proxy in front of it.
type world struct {
	db *sim.DB
	px *sim.Proxy
}

func newWorld(c *core.Ctx, dbname string, buf int) (*world, error) {
	sim.ResetTwins()
	db, err := sim.NewDBOpt("", 0, buf)
	if err != nil {
		return nil, inconcf("%v", err)
	}
	c.Cleanup(db.Stop)
	px, err := sim.NewProxy(db.URL(dbname))
	if err != nil {
		return nil, inconcf("%v", err)
	}
	c.Cleanup(px.Shutdown)
	return &world{db, px}, nil
}

// alive checks that the session still relays, both ways.
func alive(s *sim.Session) error {
	up := pgwire.Frame('Q', pgwire.CStr(nil, fmt.Sprintf("alive %d", nextID())))
	down := pgwire.Frame('Z', []byte{'I'})
	wantUp := append(s.DB.Received(), up...)
	wantDown := append(s.Client.Received(), down...)
	s.Client.Send(up)
	s.DB.Send(down)
	if err := await("relaying on an established session", func() bool {
		return (s.DB.Len() >= int64(len(wantUp)) && s.Client.Len() >= int64(len(wantDown))) || s.DB.Ended() || s.Client.Ended()
	}); err != nil {
		return err
	}
	if !bytes.Equal(s.DB.Received(), wantUp) || !bytes.Equal(s.Client.Received(), wantDown) {
		return violf("an established session no longer relays: the database end received %s (hung up: %v), the client end %s (hung up: %v)",
			tail(s.DB.Received()), s.DB.Ended(), tail(s.Client.Received()), s.Client.Ended())
	}
	return nil
}

func tail(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("...%q (%d bytes)", b[len(b)-60:], len(b))
	}
	return fmt.Sprintf("%q", b)
}
