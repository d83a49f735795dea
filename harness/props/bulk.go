package props

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"gevulotverif/core"
	"gevulotverif/pgwire"
	"gevulotverif/sim"
)

// bulk is a long numbered stream of messages that is generated on the fly, sent, and verified as it arrives.
type bulk struct {
	typ  byte
	size int // body size
	n    int
	// sizes, if set, are the body sizes (cyclically) of messages whose types alternate between typ and 'd'
	sizes []int

	// receiving
	next int
	cur  []byte
	got  int64
	bad  string
}

func (b *bulk) msg(i int) []byte {
	size, typ := b.size, b.typ
	if len(b.sizes) > 0 {
		size = b.sizes[i%len(b.sizes)]
		if i%3 == 2 {
			typ = 'd'
		}
	}
	body := make([]byte, size)
	copy(body, fmt.Sprintf("%d|", i))
	if len(body) > 12 {
		fillPattern(body[12:], i+12)
	}
	return pgwire.Frame(typ, body)
}

// pattern is the cyclic sequence of all bytes.
var pattern = func() []byte {
	p := make([]byte, 1<<16+256)
	for i := range p {
		p[i] = byte(i)
	}
	return p
}()

// fillPattern fills b with the cyclic sequence of all bytes from the given one on (copied: this is much faster than
// computing when every access is checked for races).
func fillPattern(b []byte, from int) {
	for len(b) > 0 {
		n := copy(b, pattern[from&255:from&255+1<<16])
		b, from = b[n:], from+n
	}
}

func (b *bulk) frameLen() int { return b.size + 5 }
func (b *bulk) total() int64 {
	if len(b.sizes) == 0 {
		return int64(b.n) * int64(b.frameLen())
	}
	t := int64(0)
	for i := 0; i < b.n; i++ {
		t += int64(b.sizes[i%len(b.sizes)] + 5)
	}
	return t
}

// send queues all messages.
func (b *bulk) send(p *sim.Peer) {
	var out []byte
	for i := 0; i < b.n; i++ {
		if out = append(out, b.msg(i)...); len(out) >= 64<<10 {
			p.Send(out)
			out = nil
		}
	}
	p.Send(out)
}

// stream sends all messages, but never queues much more than has been sent.
func (b *bulk) stream(p *sim.Peer) {
	var out []byte
	for i := 0; i < b.n; i++ {
		if out = append(out, b.msg(i)...); len(out) >= 64<<10 || i == b.n-1 {
			p.Send(out)
			out = nil
			if !p.AwaitRoom(8 << 20) {
				return
			}
		}
	}
}

// verify is for Peer.Tap.
func (b *bulk) verify(in []byte) {
	for len(in) > 0 && b.bad == "" {
		if len(b.cur) == 0 {
			if b.next >= b.n {
				b.bad = fmt.Sprintf("%d bytes more than were sent", len(in))
				return
			}
			b.cur = b.msg(b.next)
			b.next++
		}
		n := len(in)
		if n > len(b.cur) {
			n = len(b.cur)
		}
		if string(in[:n]) != string(b.cur[:n]) {
			i := 0
			for in[i] == b.cur[i] {
				i++
			}
			b.bad = fmt.Sprintf("byte %d of the stream (message %d of %d) is %#x instead of %#x", b.got+int64(i), b.next-1, b.n, in[i], b.cur[i])
			return
		}
		in, b.cur = in[n:], b.cur[n:]
		b.got += int64(n)
	}
}

// receive attaches the verification to p; the returned function tells what is wrong so far.
func (b *bulk) receive(p *sim.Peer) (bad func() string) {
	p.Tap(b.verify)
	return func() (s string) {
		p.Peek(func([]byte) { s = b.bad })
		return s
	}
}

// standstill waits until p sends no more (true if something is left unsent).
func standstill(p *sim.Peer, max time.Duration) bool {
	start := time.Now()
	last, since := int64(-1), time.Now()
	for time.Since(start) < max {
		if p.Flushed() {
			return false
		}
		if s := p.Sent(); s != last {
			last, since = s, time.Now()
		} else if time.Since(since) > 250*time.Millisecond {
			core.Settle(2 * time.Second)
			if p.Sent() == last {
				return true
			}
		}
		time.Sleep(10 * time.Millisecond)
	}
	return !p.Flushed()
}

// kernelRoom is an upper bound of what the kernel can hold of one direction of a session: the sender's send buffer, the
// proxy's receive and send buffer and the receiver's receive buffer.
func kernelRoom() int64 {
	max := func(f string, def int64) int64 {
		b, err := os.ReadFile("/proc/sys/net/ipv4/" + f)
		if err != nil {
			return def
		}
		c := strings.Fields(string(b))
		if len(c) != 3 {
			return def
		}
		n, err := strconv.ParseInt(c[2], 10, 64)
		if err != nil {
			return def
		}
		return n
	}
	return max("tcp_rmem", 32<<20) + 2*max("tcp_wmem", 4<<20) + 2<<20
}
