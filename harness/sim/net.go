package sim

import (
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
)

// Listening lists the TCP addresses at which this process listens.
func Listening() map[string]bool { return listening(ownSockets()) }

func listening(inodes map[string]bool) map[string]bool {
	out := map[string]bool{}
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(b), "\n") {
			c := strings.Fields(line)
			if len(c) < 10 || c[3] != "0A" || !inodes[c[9]] {
				continue
			}
			if a := decodeAddr(c[1]); a != "" {
				out[a] = true
			}
		}
	}
	return out
}

// backlog is the number of connections nobody has accepted yet at the given listening sockets.
func backlog(inodes map[string]bool) int {
	n := 0
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(b), "\n") {
			c := strings.Fields(line)
			if len(c) < 10 || c[3] != "0A" || !inodes[c[9]] {
				continue
			}
			if i := strings.IndexByte(c[4], ':'); i >= 0 {
				k, _ := strconv.ParseInt(c[4][i+1:], 16, 32)
				n += int(k)
			}
		}
	}
	return n
}

func ownSockets() map[string]bool { return sockets("/proc/self/fd") }

func sockets(dir string) map[string]bool {
	inodes := map[string]bool{}
	fds, err := os.ReadDir(dir)
	if err != nil {
		return inodes
	}
	for _, fd := range fds {
		if l, err := os.Readlink(dir + "/" + fd.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			inodes[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	return inodes
}

// decodeAddr decodes the hexadecimal address of /proc/net/tcp.
func decodeAddr(s string) string {
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return ""
	}
	ip, err := hex.DecodeString(s[:i])
	if err != nil {
		return ""
	}
	for j := 0; j+4 <= len(ip); j += 4 {
		ip[j], ip[j+1], ip[j+2], ip[j+3] = ip[j+3], ip[j+2], ip[j+1], ip[j]
	}
	var port int
	if _, err := fmt.Sscanf(s[i+1:], "%X", &port); err != nil {
		return ""
	}
	return net.JoinHostPort(net.IP(ip).String(), fmt.Sprint(port))
}

// Blackhole is an address at which connection attempts are never answered.
type Blackhole struct {
	Addr string
	fd   int
	fill []int
}

// NewBlackhole makes one: a listener whose backlog is full.
func NewBlackhole() (*Blackhole, error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	b := &Blackhole{fd: fd}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		b.Close()
		return nil, err
	}
	if err := syscall.Listen(fd, 0); err != nil {
		b.Close()
		return nil, err
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		b.Close()
		return nil, err
	}
	port := sa.(*syscall.SockaddrInet4).Port
	b.Addr = fmt.Sprintf("127.0.0.1:%d", port)
	for i := 0; i < 4; i++ {
		c, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			b.Close()
			return nil, err
		}
		b.fill = append(b.fill, c)
		_ = syscall.Connect(c, &syscall.SockaddrInet4{Port: port, Addr: [4]byte{127, 0, 0, 1}})
	}
	return b, nil
}

// Close removes it.
func (b *Blackhole) Close() {
	for _, c := range b.fill {
		_ = syscall.Close(c)
	}
	_ = syscall.Close(b.fd)
}
