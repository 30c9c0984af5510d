package verifsim

import (
	"errors"
	"net"
	"sync"
)

// Listener is where a simulated process accepts connections. The harness
// connects with Dial.
type Listener struct {
	p      *Proc
	conns  chan net.Conn
	closed chan struct{}
	once   sync.Once
	mu     sync.Mutex
	open   []net.Conn
}

func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

func (l *Listener) Close() error {
	l.once.Do(func() { close(l.closed) })
	return nil
}

func (l *Listener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 80} }

// kill ends the listener and the connections made through it.
func (l *Listener) kill() {
	l.Close()
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, c := range l.open {
		c.Close()
	}
	l.open = nil
}

// Dial connects to the process. It blocks until the process accepts.
func (l *Listener) Dial() (net.Conn, error) {
	a, b := net.Pipe()
	l.mu.Lock()
	l.open = append(l.open, a, b)
	l.mu.Unlock()
	select {
	case l.conns <- b:
		return a, nil
	case <-l.closed:
		a.Close()
		b.Close()
		return nil, errors.New("connection refused")
	}
}
