package sim

import (
	"context"
	"fmt"
	"net"
	"sync"

	"github.com/hired/gevulot/pkg/server"

	"gevulotverif/pgwire"
)

// DB is a fake database server: it accepts connections and records what they send.
type DB struct {
	Ln   *net.TCPListener
	Host string
	Port int

	mu    sync.Mutex
	conns []*DBConn
	pause bool
	greet []byte
}

// DBConn is one connection to a fake database.
type DBConn struct {
	*Peer
	DB *DB
}

// Listen listens at host (default 127.0.0.1) with connections that have socket buffers of the given size.
func Listen(host string, port, bufsize int) (*net.TCPListener, error) {
	if host == "" {
		host = "127.0.0.1"
	}
	lc := net.ListenConfig{Control: bufControl(bufsize)}
	ln, err := lc.Listen(context.Background(), "tcp", net.JoinHostPort(host, fmt.Sprint(port)))
	if err != nil {
		return nil, err
	}
	return ln.(*net.TCPListener), nil
}

// NewDB starts a fake database on host (default 127.0.0.1) at a free port.
func NewDB(host string) (*DB, error) { return NewDBOpt(host, 0, 0) }

// NewDBOpt starts a fake database at the given port (0 = a free one) with the given socket buffer sizes (0 = default).
func NewDBOpt(host string, port, bufsize int) (*DB, error) {
	ln, err := Listen(host, port, bufsize)
	if err != nil {
		return nil, err
	}
	d := &DB{Ln: ln, Host: ln.Addr().(*net.TCPAddr).IP.String(), Port: ln.Addr().(*net.TCPAddr).Port}
	go d.accept()
	return d, nil
}

// Paused makes later connections start without reading.
func (d *DB) Paused(paused bool) {
	d.mu.Lock()
	d.pause = paused
	d.mu.Unlock()
}

// Greet makes the server send b on every later connection before anything is received on it.
func (d *DB) Greet(b []byte) {
	d.mu.Lock()
	d.greet = b
	d.mu.Unlock()
}

func (d *DB) accept() {
	for {
		c, err := d.Ln.AcceptTCP()
		if err != nil {
			return
		}
		d.mu.Lock()
		p := NewPeer(c, d.pause)
		if len(d.greet) > 0 {
			p.Send(d.greet)
		}
		d.conns = append(d.conns, &DBConn{Peer: p, DB: d})
		d.mu.Unlock()
	}
}

// Conns lists the connections accepted so far.
func (d *DB) Conns() []*DBConn {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]*DBConn(nil), d.conns...)
}

// Count is the number of connections accepted so far.
func (d *DB) Count() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.conns)
}

// Stop ends everything.
func (d *DB) Stop() {
	_ = d.Ln.Close()
	for _, c := range d.Conns() {
		c.Stop()
	}
}

// URL is a database URL naming this server.
func (d *DB) URL(db string) string {
	return fmt.Sprintf("postgres://%s/%s", net.JoinHostPort(d.Host, fmt.Sprint(d.Port)), db)
}

// Startup returns the complete start-up packet received on the connection, or nil.
func (c *DBConn) Startup() (packet []byte) {
	c.Peek(func(b []byte) {
		n := pgwire.StartupLen(b)
		if n >= 4 && len(b) >= n {
			packet = append([]byte(nil), b[:n]...)
		}
	})
	return packet
}

// Find returns the connection whose start-up packet equals packet.
func (d *DB) Find(packet []byte) *DBConn {
	for _, c := range d.Conns() {
		if s := c.Startup(); s != nil && string(s) == string(packet) {
			return c
		}
	}
	return nil
}

// Proxy is the proxy under test serving on a listener of ours.
type Proxy struct {
	Src  chan *server.Config
	Dist *server.ConfigDistributor
	Srv  *server.Server
	Ln   net.Listener
	Addr string

	mu       sync.Mutex
	serveErr error
	served   bool
}

// NewProxy serves with the given configuration on a fresh loopback port.
func NewProxy(databaseURL string) (*Proxy, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	p := &Proxy{Src: make(chan *server.Config, 1), Ln: ln, Addr: ln.Addr().String()}
	p.Src <- &server.Config{Listen: p.Addr, DatabaseURL: databaseURL}
	p.Dist = server.NewConfigDistributor(p.Src)
	// Reading the configuration once makes it current, as it is in a running proxy.
	if _, err := p.Dist.Get(); err != nil {
		return nil, err
	}
	p.Srv = server.NewServer(p.Dist)
	go func() {
		e := p.Srv.Serve(ln)
		p.mu.Lock()
		p.serveErr, p.served = e, true
		p.mu.Unlock()
	}()
	return p, nil
}

// Served tells whether Serve returned, and what.
func (p *Proxy) Served() (bool, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.served, p.serveErr
}

// Shutdown stops accepting and ends the configuration (it does not call the server's Close).
func (p *Proxy) Shutdown() {
	_ = p.Ln.Close()
	p.Dist.Close()
}

// Session is an established session through the proxy.
type Session struct {
	Client *Peer
	DB     *DBConn
	Packet []byte
}
