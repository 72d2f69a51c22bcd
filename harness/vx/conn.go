package vx

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

// ErrTimeout is what a connection returns when its deadline has passed.
var ErrTimeout error = timeoutError{}

// ErrReset is an arbitrary connection error.
var ErrReset = errors.New("connection reset by peer")

type Addr string

func (a Addr) Network() string { return "vx" }
func (a Addr) String() string  { return string(a) }

// Conn is an in-memory connection. One side is the code under test (Read/Write/Close); the other side is
// the harness (Feed/FeedEOF and the Peer callback, which runs inside Write).
type Conn struct {
	Name string
	// Peer is called after every write, with the unconsumed bytes in In.
	Peer func(c *Conn)
	// Split limits how many of the n available bytes one Read returns (1..n).
	Split func(n int) int
	// WriteErr, if set, is returned by every Write.
	WriteErr error
	// WriteMax, if positive, is how many more bytes can be written; the write that exceeds it fails.
	WriteMax int
	// CloseErr, if set, is returned by Close, which closes the connection all the same.
	CloseErr error
	// Stall makes every Write wait until its deadline or the connection is closed.
	Stall bool
	// OnRead/OnWrite observe each I/O call of the code under test.
	OnRead  func(c *Conn)
	OnWrite func(c *Conn)

	In      []byte // written by the code under test, not yet consumed by the peer
	All     []byte // everything written by the code under test
	Reads   int
	Writes  int
	Closes  int
	Closed  bool
	WithEnd bool // the last bytes come together with the end
	RDL     time.Time
	WDL     time.Time
	out     []byte
	end     error
	mu      sync.Mutex
	changed chan struct{}
}

func NewConn(name string, peer func(c *Conn)) *Conn {
	return &Conn{Name: name, Peer: peer, changed: make(chan struct{})}
}

func (c *Conn) broadcast() {
	close(c.changed)
	c.changed = make(chan struct{})
}

// Feed makes bytes available to Read. (Peer callbacks use Send.)
func (c *Conn) Feed(b []byte) {
	c.mu.Lock()
	c.out = append(c.out, b...)
	c.broadcast()
	c.mu.Unlock()
}

// End makes Read fail with err once the fed bytes are used up (io.EOF for a clean close).
func (c *Conn) End(err error) {
	c.mu.Lock()
	c.end = err
	c.broadcast()
	c.mu.Unlock()
}

// Send is Feed from inside a Peer callback.
func (c *Conn) Send(b []byte) { c.out = append(c.out, b...) }

// SendEnd is End from inside a Peer callback.
func (c *Conn) SendEnd(err error) { c.end = err }

// Pending is the number of bytes that were fed and not read.
func (c *Conn) Pending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.out)
}

// Unread is Pending for the callbacks.
func (c *Conn) Unread() int { return len(c.out) }

// Take takes what has been sent behind the first n bytes back, inside a Peer callback.
func (c *Conn) Take(n int) []byte {
	b := append([]byte(nil), c.out[n:]...)
	c.out = c.out[:n]
	return b
}

// Written is a copy of all bytes the code under test has written.
func (c *Conn) Written() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.All...)
}

func (c *Conn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.Closed
}

func (c *Conn) Read(b []byte) (int, error) {
	Own(c.Name)
	Gate(c.Name + ".read")
	for {
		c.mu.Lock()
		if c.OnRead != nil {
			c.OnRead(c)
		}
		if c.Closed {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		dl := c.RDL
		if !dl.IsZero() && !time.Now().Before(dl) {
			c.mu.Unlock()
			return 0, ErrTimeout
		}
		if len(b) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if n := len(c.out); n > 0 {
			if n > len(b) {
				n = len(b)
			}
			if c.Split != nil && n > 1 {
				n = c.Split(n)
			}
			copy(b, c.out[:n])
			c.out = c.out[n:]
			c.Reads++
			var e error
			if c.WithEnd && len(c.out) == 0 {
				e = c.end
			}
			c.mu.Unlock()
			return n, e
		}
		if c.end != nil {
			e := c.end
			c.mu.Unlock()
			return 0, e
		}
		ch := c.changed
		c.mu.Unlock()
		if dl.IsZero() {
			<-ch
			continue
		}
		t := time.NewTimer(time.Until(dl))
		select {
		case <-ch:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	Own(c.Name)
	Gate(c.Name + ".write")
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.OnWrite != nil {
		c.OnWrite(c)
	}
	if c.Closed {
		return 0, net.ErrClosed
	}
	if !c.WDL.IsZero() && !time.Now().Before(c.WDL) {
		return 0, ErrTimeout
	}
	if c.WriteErr != nil {
		return 0, c.WriteErr
	}
	for c.Stall {
		dl, ch := c.WDL, c.changed
		c.mu.Unlock()
		if dl.IsZero() {
			<-ch
		} else {
			t := time.NewTimer(time.Until(dl))
			select {
			case <-ch:
			case <-t.C:
			}
			t.Stop()
		}
		c.mu.Lock()
		if c.Closed {
			return 0, net.ErrClosed
		}
		if !c.WDL.IsZero() && !time.Now().Before(c.WDL) {
			return 0, ErrTimeout
		}
	}
	if c.WriteMax > 0 && len(b) > c.WriteMax {
		n := c.WriteMax
		c.WriteErr = ErrReset
		c.All = append(c.All, b[:n]...)
		return n, ErrReset
	}
	if c.WriteMax > 0 {
		c.WriteMax -= len(b)
		if c.WriteMax == 0 {
			c.WriteErr = ErrReset
		}
	}
	c.Writes++
	c.In = append(c.In, b...)
	c.All = append(c.All, b...)
	if c.Peer != nil {
		c.Peer(c)
	}
	c.broadcast()
	return len(b), nil
}

func (c *Conn) Close() error {
	Gate(c.Name + ".close")
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Closes++
	if c.Closed {
		return net.ErrClosed
	}
	c.Closed = true
	c.broadcast()
	return c.CloseErr
}

func (c *Conn) LocalAddr() net.Addr  { return Addr("local/" + c.Name) }
func (c *Conn) RemoteAddr() net.Addr { return Addr("remote/" + c.Name) }

func (c *Conn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.RDL, c.WDL = t, t
	c.broadcast()
	return nil
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.RDL = t
	c.broadcast()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.WDL = t
	c.broadcast()
	return nil
}

// OnDial makes every outgoing connection of the code under test go to f.
func OnDial(f func(network, addr string) (net.Conn, error)) {
	net.VerifDial = func(ctx context.Context, network, addr string) (net.Conn, error) {
		Gate("dial")
		if ctx != nil && ctx.Err() != nil {
			return nil, ctx.Err()
		}
		return f(network, addr)
	}
}

// Listener hands out the connections the harness gives it.
type Listener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func NewListener() *Listener {
	return &Listener{ch: make(chan net.Conn, 8), closed: make(chan struct{})}
}

func (l *Listener) Offer(c net.Conn) { l.ch <- c }

func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

func (l *Listener) Close() error {
	l.once.Do(func() { close(l.closed) })
	return nil
}

func (l *Listener) Addr() net.Addr { return Addr("listener") }

var _ = io.EOF
