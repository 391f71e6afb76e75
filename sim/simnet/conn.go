// Package simnet stands in for the parts of net, net/http and moov's admin
// server that a server program uses to listen: listeners, connections and the
// connection loop run under the simulator, on simulated time. The behaviour
// modelled is that of net/http.Server as documented and as its source has it:
// connection states, read, header, write and idle timeouts, keep-alive,
// graceful Shutdown and Close.
package simnet

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"verif/simrt"
)

type ready func() bool

func (f ready) Ready() bool { return f() }

// Net is the simulated machine's network; one per run.
type Net struct {
	listeners map[string]*Listener
	Busy      map[string]bool // addresses some other process holds
	Certs     map[string]bool // files ListenAndServeTLS can read
	Conns     []*Conn
	Ev        int64
	nextPort  int
	last      *Conn
	Bound     []string // every address listened on, in order
	Servers   []*Server
	OnFail    func(what string) // a call that listens or accepts has failed
}

// N is the network of the current run.
var N *Net

// Reset starts a new run.
func Reset() *Net {
	N = &Net{listeners: map[string]*Listener{}, Busy: map[string]bool{}, Certs: map[string]bool{}, nextPort: 40000}
	return N
}

func (n *Net) failed(what string) {
	if n.OnFail != nil {
		n.OnFail(what)
	}
}

// Tick numbers the events of a run.
func (n *Net) Tick() int64 { n.Ev++; return n.Ev }

type seg struct {
	at int64
	b  []byte
}

// Req is what happened to one request of a connection.
type Req struct {
	Line     string
	HdrEv    int64 // headers read completely, handler about to start
	HdrT     int64
	DoneEv   int64 // the whole answer was handed to the client
	DoneT    int64
	Code     int
	Body     []byte
	Panicked bool
	Cut      string // why the answer did not go out
}

// Conn is one connection.
type Conn struct {
	ID       int
	Addr     string
	DialT    int64
	AcceptT  int64
	AcceptEv int64
	accepted bool
	in       []seg
	eof      int64 // the client closes its sending side at this time (-1 never)
	die      int64 // the client vanishes at this time (-1 never)
	rdStall  int64 // the client does not read before this time
	cur      []byte
	rdDL     int64 // 0: none
	wrDL     int64
	Closed   bool // by the server
	ClosedT  int64
	Reqs     []*Req
	state    int
	stateT   int64
	srv      *Server
	cancel   func()
	nc       net.Conn // as the listener handed it out
	dead     bool
	Got      bytes.Buffer // what the client has received
	Slow     bool         // the client does not behave
	TLS      bool         // spoken over TLS
	TLSMin   uint16       // the lowest version accepted
	GoneT    int64        // when the client went away, -1
}

type netErr struct {
	s string
	t bool
}

func (e netErr) Error() string   { return e.s }
func (e netErr) Timeout() bool   { return e.t }
func (e netErr) Temporary() bool { return e.t }

var errTimeout = netErr{"i/o timeout", true}
var errReset = netErr{"connection reset by peer", false}
var errClosed = netErr{"use of closed network connection", false}

// ErrRefused is what a client sees when nothing listens.
var ErrRefused = errors.New("connection refused")

// Dial connects a client. Bytes are sent with Send.
func (n *Net) Dial(addr string) (*Conn, error) {
	l := n.listeners[addr]
	if l == nil || l.closed {
		return nil, ErrRefused
	}
	c := &Conn{ID: len(n.Conns), Addr: addr, DialT: simrt.Now(), eof: -1, die: -1, GoneT: -1}
	n.Conns = append(n.Conns, c)
	l.backlog = append(l.backlog, c)
	return c, nil
}

// Send queues bytes that arrive after the given delay from now.
func (c *Conn) Send(delay int64, b []byte) {
	at := simrt.Now() + delay
	if k := len(c.in); k > 0 && c.in[k-1].at > at {
		at = c.in[k-1].at
	}
	c.in = append(c.in, seg{at, b})
}

// CloseSend half-closes after what was sent.
func (c *Conn) CloseSend() {
	at := simrt.Now()
	if k := len(c.in); k > 0 && c.in[k-1].at > at {
		at = c.in[k-1].at
	}
	c.eof = at
}

// Die makes the client vanish now (a reset).
func (c *Conn) Die() {
	if c.GoneT < 0 {
		c.die = simrt.Now()
		c.GoneT = c.die
		if c.cancel != nil {
			c.cancel() // as the background read of net/http does
		}
	}
}

// StallReading keeps the client from reading until the given time.
func (c *Conn) StallReading(until int64) { c.rdStall = until }

// Accepted reports whether the server took the connection.
func (c *Conn) Accepted() bool { return c.accepted }

func (c *Conn) Read(p []byte) (int, error) {
	for {
		now := simrt.Now()
		if c.Closed {
			return 0, errClosed
		}
		if c.die >= 0 && now >= c.die {
			return 0, errReset
		}
		if c.rdDL > 0 && now >= c.rdDL {
			return 0, errTimeout
		}
		if len(c.cur) > 0 {
			n := copy(p, c.cur)
			c.cur = c.cur[n:]
			return n, nil
		}
		if len(c.in) > 0 && c.in[0].at <= now {
			c.cur = c.in[0].b
			c.in = c.in[1:]
			continue
		}
		if len(c.in) == 0 && c.eof >= 0 && now >= c.eof {
			return 0, io.EOF
		}
		// sleep until something can have changed
		at := int64(1) << 61
		if len(c.in) > 0 {
			at = c.in[0].at
		} else if c.eof >= 0 {
			at = c.eof
		}
		if c.rdDL > 0 && c.rdDL < at {
			at = c.rdDL
		}
		nin, eof, rd := len(c.in), c.eof, c.rdDL
		w := ready(func() bool {
			return c.rdDL != rd || c.Closed || (c.die >= 0 && simrt.Now() >= c.die) || len(c.in) != nin || c.eof != eof
		})
		if at >= 1<<61 {
			simrt.Block(w, "connection read")
		} else {
			simrt.BlockUntil(w, at, "connection read")
		}
	}
}

// Write hands bytes to the client; it waits while the client does not read.
func (c *Conn) Write(p []byte) (int, error) {
	for {
		now := simrt.Now()
		if c.Closed {
			return 0, errClosed
		}
		if c.die >= 0 && now >= c.die {
			return 0, errReset
		}
		if c.wrDL > 0 && now >= c.wrDL {
			return 0, errTimeout
		}
		if c.rdStall <= now {
			c.Got.Write(p)
			return len(p), nil
		}
		at := c.rdStall
		if c.wrDL > 0 && c.wrDL < at {
			at = c.wrDL
		}
		simrt.BlockUntil(ready(func() bool {
			return c.Closed || (c.die >= 0 && simrt.Now() >= c.die) || c.rdStall <= simrt.Now()
		}), at, "connection write")
	}
}

// Close, the addresses and the deadlines make it a net.Conn.
func (c *Conn) Close() error {
	if c.Closed {
		return errClosed
	}
	c.closeNow()
	return nil
}
func (c *Conn) LocalAddr() net.Addr  { return simAddr(c.Addr) }
func (c *Conn) RemoteAddr() net.Addr { return simAddr(c.remote()) }
func (c *Conn) remote() string       { return fmt.Sprintf("192.0.2.%d:%d", c.ID%250+1, 30000+c.ID) }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return max(1, int64(t.Sub(simrt.Base)))
}
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdDL = dl(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wrDL = dl(t); return nil }
func (c *Conn) SetDeadline(t time.Time) error {
	c.rdDL, c.wrDL = dl(t), dl(t)
	return nil
}

func (c *Conn) closeNow() {
	if !c.Closed {
		c.Closed = true
		c.ClosedT = simrt.Now()
	}
}
