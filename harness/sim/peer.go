// Package sim provides the scripted clients, databases and proxies the checks are made of.
package sim

import (
	"errors"
	"net"
	"os"
	"sync"
	"syscall"
	"time"

	"gevulotverif/core"
)

// Peer is one scripted end of a TCP connection. It collects what it receives and sends what it is told to.
type Peer struct {
	Conn *net.TCPConn

	mu      sync.Mutex
	cond    *sync.Cond
	recv    []byte
	nrecv   int64
	discard bool
	tap     func(b []byte)
	ended   bool
	endErr  error
	paused  bool
	queue   []op
	sent    int64 // bytes the kernel accepted
	queued  int64
	werr    error
	stopped bool
	wdone   bool
	waiting int // callers of AwaitRoom
}

type op struct {
	data  []byte
	kind  int // 0 data, 1 half-close, 2 close, 3 reset, 4 stop, 5 pause in us
	pause int
}

// NewPeer starts the reader and the writer of c.
func NewPeer(c *net.TCPConn, paused bool) *Peer {
	p := &Peer{Conn: c, paused: paused}
	p.cond = sync.NewCond(&p.mu)
	go p.reader()
	go p.writer()
	return p
}

// Dial connects to addr.
func Dial(addr string) (*Peer, error) { return DialOpt(addr, 0, false) }

// bufControl sets socket buffer sizes before the connection (or listener) exists, so that no larger window was ever
// advertised.
func bufControl(size int) func(network, address string, c syscall.RawConn) error {
	if size <= 0 {
		return nil
	}
	return func(network, address string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) {
			_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, size)
			_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_SNDBUF, size)
		})
	}
}

// DialOpt connects with socket buffers of the given size (0 = default), optionally not reading yet.
func DialOpt(addr string, bufsize int, paused bool) (*Peer, error) {
	c, err := dialTwin(addr, bufsize)
	if c == nil {
		d := net.Dialer{Timeout: 30 * time.Second, Control: bufControl(bufsize)}
		c, err = d.Dial("tcp", addr)
	}
	if err != nil {
		return nil, err
	}
	noteDial(c)
	return NewPeer(c.(*net.TCPConn), paused), nil
}

// Every second client has the port of the one before and an address of its own, as clients of different hosts may: what
// tells clients apart is neither alone.
var twins struct {
	mu    sync.Mutex
	dials int
	hosts uint32
	port  int
}

// ResetTwins makes the next client an ordinary one.
func ResetTwins() {
	twins.mu.Lock()
	twins.dials, twins.port = 0, 0
	twins.mu.Unlock()
}

func noteDial(c net.Conn) {
	twins.mu.Lock()
	defer twins.mu.Unlock()
	twins.dials++
	twins.port = c.LocalAddr().(*net.TCPAddr).Port
}

// dialTwin returns nil if this client is to be an ordinary one.
func dialTwin(addr string, bufsize int) (net.Conn, error) {
	host, _, err := net.SplitHostPort(addr)
	if ip := net.ParseIP(host).To4(); err != nil || ip == nil || ip[0] != 127 {
		return nil, nil
	}
	twins.mu.Lock()
	odd, port := twins.dials%2 == 1, twins.port
	twins.hosts++
	h := twins.hosts
	twins.mu.Unlock()
	if !odd {
		return nil, nil
	}
	size := bufControl(bufsize)
	d := net.Dialer{Timeout: 30 * time.Second, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, byte(64+os.Getpid()%128), byte(h>>8), byte(h)), Port: port}, Control: func(network, address string, c syscall.RawConn) error {
		if size != nil {
			if err := size(network, address, c); err != nil {
				return err
			}
		}
		return c.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1) })
	}}
	c, err := d.Dial("tcp", addr)
	if errors.Is(err, syscall.EADDRINUSE) || errors.Is(err, syscall.EADDRNOTAVAIL) || errors.Is(err, syscall.EACCES) {
		return nil, nil
	}
	if err != nil {
		return nil, nil // the ordinary way tells whether it is the proxy that refuses
	}
	return c, nil
}

func (p *Peer) reader() {
	buf := make([]byte, 32<<10)
	for {
		p.mu.Lock()
		for p.paused && !p.stopped {
			p.cond.Wait()
		}
		p.mu.Unlock()
		n, err := p.Conn.Read(buf)
		p.mu.Lock()
		p.nrecv += int64(n)
		core.Progress.Add(int64(n))
		if p.tap != nil {
			p.tap(buf[:n])
		}
		if !p.discard {
			p.recv = append(p.recv, buf[:n]...)
		}
		if err != nil {
			p.ended = true
			p.endErr = err
			p.cond.Broadcast()
			p.mu.Unlock()
			return
		}
		p.mu.Unlock()
	}
}

func (p *Peer) writer() {
	defer func() {
		p.mu.Lock()
		p.wdone = true
		p.cond.Broadcast()
		p.mu.Unlock()
	}()
	for {
		p.mu.Lock()
		for len(p.queue) == 0 && !p.stopped {
			p.cond.Wait()
		}
		if p.stopped {
			p.mu.Unlock()
			return
		}
		o := p.queue[0]
		p.queue = p.queue[1:]
		werr := p.werr
		p.mu.Unlock()
		switch o.kind {
		case 0:
			if werr != nil {
				continue
			}
			// Written in pieces so that progress is visible.
			b := o.data
			for len(b) > 0 {
				n := len(b)
				if n > 64<<10 {
					n = 64 << 10
				}
				k, err := p.Conn.Write(b[:n])
				p.mu.Lock()
				p.sent += int64(k)
				if err != nil {
					p.werr = err
				}
				if p.waiting > 0 {
					p.cond.Broadcast()
				}
				p.mu.Unlock()
				if err != nil {
					break
				}
				b = b[k:]
			}
		case 1:
			_ = p.Conn.CloseWrite()
		case 2:
			_ = p.Conn.Close()
			return
		case 3:
			_ = p.Conn.SetLinger(0)
			_ = p.Conn.Close()
			return
		case 5:
			time.Sleep(time.Duration(o.pause) * time.Microsecond)
		}
	}
}

func (p *Peer) enqueue(o op) {
	p.mu.Lock()
	p.queue = append(p.queue, o)
	p.queued += int64(len(o.data))
	p.cond.Broadcast()
	p.mu.Unlock()
}

// Send queues bytes for sending in one write.
func (p *Peer) Send(b []byte) {
	if len(b) > 0 {
		p.enqueue(op{data: b})
	}
}

// SendChunks queues bytes in writes of the given sizes (cyclically), pausing us microseconds between them.
func (p *Peer) SendChunks(b []byte, sizes []int, us int) {
	if len(sizes) == 0 {
		p.Send(b)
		return
	}
	n := 0
	for i := 0; len(b) > 0; i++ {
		k := sizes[i%len(sizes)]
		if n++; n > 400 {
			k = len(b)
		}
		if k <= 0 || k > len(b) {
			k = len(b)
		}
		p.Send(b[:k])
		b = b[k:]
		if us > 0 && n < 40 && len(b) > 0 {
			p.enqueue(op{kind: 5, pause: us})
		}
	}
}

// AwaitRoom waits until no more than limit bytes are queued; it returns false if sending is over.
func (p *Peer) AwaitRoom(limit int64) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.waiting++
	defer func() { p.waiting-- }()
	for p.queued-p.sent > limit && p.werr == nil && !p.stopped && !p.wdone {
		p.cond.Wait()
	}
	return p.werr == nil && !p.stopped && !p.wdone
}

// Wait queues a pause of the sender.
func (p *Peer) Wait(us int) { p.enqueue(op{kind: 5, pause: us}) }

// HalfClose sends FIN once everything queued is sent, and goes on reading.
func (p *Peer) HalfClose() { p.enqueue(op{kind: 1}) }

// CloseAfter closes once everything queued is sent.
func (p *Peer) CloseAfter() { p.enqueue(op{kind: 2}) }

// ResetAfter resets the connection once everything queued is sent.
func (p *Peer) ResetAfter() { p.enqueue(op{kind: 3}) }

// Stop closes the connection and ends the goroutines.
func (p *Peer) Stop() {
	p.mu.Lock()
	p.stopped = true
	p.cond.Broadcast()
	p.mu.Unlock()
	_ = p.Conn.Close()
}

// Abort resets the connection at once and ends the goroutines.
func (p *Peer) Abort() {
	_ = p.Conn.SetLinger(0)
	p.Stop()
}

// Pause stops reading (after at most one more read in progress).
func (p *Peer) Pause() {
	p.mu.Lock()
	p.paused = true
	p.mu.Unlock()
}

// Resume reads again.
func (p *Peer) Resume() {
	p.mu.Lock()
	p.paused = false
	p.cond.Broadcast()
	p.mu.Unlock()
}

// Discard makes the peer count, not keep, what it receives.
func (p *Peer) Discard() {
	p.mu.Lock()
	p.discard = true
	p.mu.Unlock()
}

// Tap makes the peer hand what it receives from now on to f (called with the peer locked) instead of keeping it.
func (p *Peer) Tap(f func(b []byte)) {
	p.mu.Lock()
	p.discard, p.tap = true, f
	p.mu.Unlock()
}

// Len is how many bytes were received.
func (p *Peer) Len() int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.nrecv
}

// Received returns a copy of what was received.
func (p *Peer) Received() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]byte(nil), p.recv...)
}

// Peek gives access to what was received without a copy.
func (p *Peer) Peek(f func(b []byte)) {
	p.mu.Lock()
	defer p.mu.Unlock()
	f(p.recv)
}

// Ended tells whether the other end hung up (or the connection was closed here).
func (p *Peer) Ended() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ended
}

// EndErr is how reading ended.
func (p *Peer) EndErr() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.endErr
}

// Sent is how many bytes the kernel accepted.
func (p *Peer) Sent() int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.sent
}

// Flushed tells whether everything queued was handed to the kernel (or sending failed).
func (p *Peer) Flushed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.werr != nil || p.wdone || (len(p.queue) == 0 && p.sent == p.queued)
}

// WriteFailed tells whether sending failed.
func (p *Peer) WriteFailed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.werr != nil
}
