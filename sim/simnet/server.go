package simnet

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"runtime"
	"strconv"
	"strings"
	"time"

	"verif/simrt"
)

// Listener is a simulated listening socket.
type Listener struct {
	addr    string
	backlog []*Conn
	closed  bool
	fail    error
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (l *Listener) Addr() net.Addr { return simAddr(l.addr) }

// Accept waits for the next connection.
func (l *Listener) Accept() (net.Conn, error) {
	simrt.Gosched()
	simrt.Block(ready(func() bool { return l.closed || l.fail != nil || len(l.backlog) > 0 }), "accept")
	if simrt.Aborting() {
		runtime.Goexit()
	}
	if l.closed {
		return nil, errClosed
	}
	if l.fail != nil {
		N.failed("the listener at " + l.addr + " fails")
		return nil, l.fail
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	c.accepted = true
	c.AcceptT = simrt.Now()
	c.AcceptEv = N.Tick()
	N.last = c
	return c, nil
}

func (l *Listener) Close() error {
	if l.closed {
		return errClosed
	}
	l.closed = true
	if N.listeners[l.addr] == l {
		delete(N.listeners, l.addr)
	}
	for _, c := range l.backlog { // connections nobody accepted are reset
		c.closeNow()
	}
	return nil
}

// Listen is net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	l, err := listen(addr)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func listen(addr string) (*Listener, error) {
	if addr == "" {
		addr = ":http"
	}
	if strings.HasSuffix(addr, ":0") {
		N.nextPort++
		addr = addr[:len(addr)-1] + strconv.Itoa(N.nextPort)
	}
	if N.Busy[addr] || N.listeners[addr] != nil {
		N.failed("the address " + addr + " is in use")
		return nil, fmt.Errorf("listen tcp %s: bind: address already in use", addr)
	}
	l := &Listener{addr: addr}
	N.listeners[addr] = l
	N.Bound = append(N.Bound, addr)
	return l, nil
}

// FailListener makes accepting on an address fail for good.
func (n *Net) FailListener(addr string, err error) bool {
	l := n.listeners[addr]
	if l == nil {
		return false
	}
	l.fail = err
	return true
}

// Listening reports whether somebody listens on an address.
func (n *Net) Listening(addr string) bool { return n.listeners[addr] != nil }

// Server is http.Server.
type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*http.Server, *tls.Conn, http.Handler)
	ConnState                    func(net.Conn, http.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context
	HTTP2                        *http.HTTP2Config
	Protocols                    *http.Protocols

	shutdown   bool
	noKeep     bool
	listeners  []net.Listener
	conns      []*Conn
	onShutdown []func()
	known      bool
}

const (
	stNew = iota
	stActive
	stIdle
)

func (c *Conn) setState(s int) {
	c.state = s
	c.stateT = simrt.Now()
	if h := c.srv.ConnState; h != nil {
		h(c.nc, [...]http.ConnState{http.StateNew, http.StateActive, http.StateIdle}[s])
	}
}

// ListenAndServe is that of http.Server.
func (s *Server) ListenAndServe() error {
	if s.shutdown {
		return http.ErrServerClosed
	}
	l, err := listen(s.Addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

// ListenAndServeTLS is that of http.Server; the handshake is not simulated, the
// connections are marked instead.
func (s *Server) ListenAndServeTLS(cert, key string) error {
	if s.shutdown {
		return http.ErrServerClosed
	}
	addr := s.Addr
	if addr == "" {
		addr = ":https"
	}
	l, err := listen(addr)
	if err != nil {
		return err
	}
	if err := s.ServeTLS(l, cert, key); err != nil {
		l.Close()
		return err
	}
	return nil
}

// ServeTLS is that of http.Server.
func (s *Server) ServeTLS(l net.Listener, cert, key string) error {
	if cert != "" || key != "" || s.TLSConfig == nil || len(s.TLSConfig.Certificates) == 0 && s.TLSConfig.GetCertificate == nil {
		for _, f := range []string{cert, key} {
			if !N.Certs[f] {
				N.failed("the file " + f + " is missing")
				return fmt.Errorf("open %s: no such file or directory", f)
			}
		}
	}
	return s.Serve(&tlsListener{l, s.TLSConfig})
}

// tlsListener marks the connections it accepts as TLS.
type tlsListener struct {
	net.Listener
	cfg *tls.Config
}

func (l *tlsListener) Accept() (net.Conn, error) {
	nc, err := l.Listener.Accept()
	if err == nil && !simrt.Aborting() {
		c, ok := nc.(*Conn)
		if !ok {
			c = N.last
		}
		c.TLS, c.TLSMin = true, tls.VersionTLS12
		if l.cfg != nil && l.cfg.MinVersion != 0 {
			c.TLSMin = l.cfg.MinVersion
		}
	}
	return nc, err
}

// NewTLSListener is tls.NewListener.
func NewTLSListener(l net.Listener, cfg *tls.Config) net.Listener {
	if !simrt.Active() {
		return tls.NewListener(l, cfg)
	}
	return &tlsListener{l, cfg}
}

// ListenTLS is tls.Listen.
func ListenTLS(network, addr string, cfg *tls.Config) (net.Listener, error) {
	if !simrt.Active() {
		return tls.Listen(network, addr, cfg)
	}
	if cfg == nil || len(cfg.Certificates) == 0 && cfg.GetCertificate == nil && cfg.GetConfigForClient == nil {
		return nil, errors.New("tls: neither Certificates, GetCertificate, nor GetConfigForClient set in Config")
	}
	l, err := Listen(network, addr)
	if err != nil {
		return nil, err
	}
	return &tlsListener{l, cfg}, nil
}

// LoadX509KeyPair is tls.LoadX509KeyPair.
func LoadX509KeyPair(cert, key string) (tls.Certificate, error) {
	if !simrt.Active() {
		return tls.LoadX509KeyPair(cert, key)
	}
	for _, f := range []string{cert, key} {
		if !N.Certs[f] {
			N.failed("the file " + f + " is missing")
			return tls.Certificate{}, fmt.Errorf("open %s: no such file or directory", f)
		}
	}
	return tls.Certificate{Certificate: [][]byte{{0}}}, nil
}

// Serve accepts connections until the server is shut down. The listener may
// be one of the program's own around a simulated one, and so may be the
// connections it hands out.
func (s *Server) Serve(l net.Listener) error {
	if !s.known {
		s.known = true
		N.Servers = append(N.Servers, s)
	}
	defer l.Close()
	if s.shutdown {
		return http.ErrServerClosed
	}
	base := context.Background()
	if s.BaseContext != nil {
		if base = s.BaseContext(l); base == nil {
			panic("BaseContext returned a nil context")
		}
	}
	s.listeners = append(s.listeners, l)
	var wait time.Duration
	for {
		nc, err := l.Accept()
		if simrt.Aborting() {
			runtime.Goexit()
		}
		if err != nil {
			if s.shutdown {
				return http.ErrServerClosed
			}
			if ne, ok := err.(net.Error); ok && ne.Temporary() {
				if wait == 0 {
					wait = 5 * time.Millisecond
				} else if wait *= 2; wait > time.Second {
					wait = time.Second
				}
				simrt.Sleep(int64(wait))
				continue
			}
			return err
		}
		wait = 0
		c, ok := nc.(*Conn)
		if !ok {
			c = N.last
		}
		c.nc = nc
		c.srv = s
		ctx := base
		if s.ConnContext != nil {
			if ctx = s.ConnContext(base, nc); ctx == nil {
				panic("ConnContext returned nil")
			}
		}
		s.conns = append(s.conns, c)
		c.setState(stNew)
		simrt.Spawn("conn"+strconv.Itoa(c.ID), true, func() { s.serve(c, ctx) })
	}
}

func (s *Server) drop(c *Conn) {
	c.nc.Close()
	var keep []*Conn
	for _, x := range s.conns {
		if x != c {
			keep = append(keep, x)
		}
	}
	s.conns = keep
}

func (s *Server) headerTimeout() time.Duration {
	if s.ReadHeaderTimeout != 0 {
		return s.ReadHeaderTimeout
	}
	return s.ReadTimeout
}

func (s *Server) idleTimeout() time.Duration {
	if s.IdleTimeout != 0 {
		return s.IdleTimeout
	}
	return s.ReadTimeout
}

func until(d time.Duration) int64 {
	if d <= 0 {
		return 0
	}
	return simrt.Now() + int64(d)
}

// bodyReader tells end of body from a broken connection as net/http does.
type limited struct {
	r    io.Reader
	left int
}

func (l *limited) Read(p []byte) (int, error) {
	if l.left <= 0 {
		return 0, io.EOF
	}
	if len(p) > l.left {
		p = p[:l.left]
	}
	n, err := l.r.Read(p)
	l.left -= n
	return n, err
}

func (s *Server) serve(c *Conn, base context.Context) {
	defer func() {
		if simrt.Aborting() {
			return
		}
		s.drop(c)
		if s.ConnState != nil {
			s.ConnState(c.nc, http.StateClosed)
		}
	}()
	maxHdr := s.MaxHeaderBytes
	if maxHdr <= 0 {
		maxHdr = http.DefaultMaxHeaderBytes
	}
	lim := &limited{c.nc, maxHdr + 4096}
	br := bufio.NewReaderSize(lim, 4096)
	for {
		lim.left = maxHdr + 4096
		hdrDL, reqDL := until(s.headerTimeout()), until(s.ReadTimeout)
		c.rdDL = hdrDL
		req, err := http.ReadRequest(br)
		c.wrDL = until(s.WriteTimeout)
		if err != nil {
			if isProto(err) {
				c.nc.Write([]byte("HTTP/1.1 400 Bad Request\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n\r\n400 Bad Request"))
			}
			return
		}
		lim.left = 1 << 60
		c.rdDL = reqDL
		c.setState(stActive)
		rec := &Req{Line: req.Method + " " + req.URL.Path, HdrEv: N.Tick(), HdrT: simrt.Now()}
		c.Reqs = append(c.Reqs, rec)
		ctx, cancel := context.WithCancel(base)
		req = req.WithContext(ctx)
		req.RemoteAddr = c.remote()
		w := &respWriter{c: c, hdr: http.Header{}, req: req, rec: rec}
		body := req.Body
		req.Body = &bodyCount{ReadCloser: body}
		c.cancel = cancel
		ok := s.call(w, req)
		c.cancel = nil
		cancel()
		if simrt.Aborting() {
			return
		}
		if !ok {
			rec.Panicked = true
			return
		}
		keep := w.finish(s.shutdown || s.noKeep || req.Close || !req.ProtoAtLeast(1, 1))
		if w.err != nil {
			rec.Cut = w.err.Error()
			return
		}
		rec.DoneEv, rec.DoneT, rec.Code, rec.Body = N.Tick(), simrt.Now(), w.code, w.total.Bytes()
		if !keep {
			return
		}
		io.CopyN(io.Discard, body, 256<<10)
		body.Close()
		if s.shutdown || s.noKeep {
			return
		}
		c.setState(stIdle)
		c.rdDL = until(s.idleTimeout())
		if _, err := br.Peek(4); err != nil {
			return
		}
		c.rdDL = 0
	}
}

type bodyCount struct{ io.ReadCloser }

func isProto(err error) bool {
	var ne netErr
	return !errors.As(err, &ne) && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF)
}

// call runs the handler and contains its panics as net/http does.
func (s *Server) call(w http.ResponseWriter, r *http.Request) (ok bool) {
	defer func() {
		if simrt.Aborting() {
			return
		}
		if e := recover(); e != nil {
			ok = false
		}
	}()
	h := s.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	h.ServeHTTP(w, r)
	return true
}

// respWriter buffers like net/http: what fits the buffer goes out when the
// handler is done.
type respWriter struct {
	c     *Conn
	hdr   http.Header
	req   *http.Request
	rec   *Req
	code  int
	sent  bool
	buf   bytes.Buffer
	total bytes.Buffer
	err   error
}

func (w *respWriter) Header() http.Header { return w.hdr }

func (w *respWriter) WriteHeader(code int) {
	if w.code == 0 && code >= 200 {
		w.code = code
	}
}

func (w *respWriter) Write(p []byte) (int, error) {
	if w.err != nil {
		return 0, w.err
	}
	if w.code == 0 {
		w.code = 200
	}
	w.buf.Write(p)
	w.total.Write(p)
	if w.buf.Len() > 2048 {
		w.flush(-1)
	}
	if w.err != nil {
		return 0, w.err
	}
	return len(p), nil
}

func (w *respWriter) Flush() { w.flush(-1) }

// FlushError, SetReadDeadline, SetWriteDeadline and EnableFullDuplex are there
// for http.ResponseController.
func (w *respWriter) FlushError() error                  { w.flush(-1); return w.err }
func (w *respWriter) SetReadDeadline(t time.Time) error  { return w.c.SetReadDeadline(t) }
func (w *respWriter) SetWriteDeadline(t time.Time) error { return w.c.SetWriteDeadline(t) }
func (w *respWriter) EnableFullDuplex() error            { return nil }

func (w *respWriter) flush(final int) {
	if w.err != nil {
		return
	}
	var out bytes.Buffer
	if !w.sent {
		w.sent = true
		if w.code == 0 {
			w.code = 200
		}
		fmt.Fprintf(&out, "HTTP/1.1 %d %s\r\n", w.code, http.StatusText(w.code))
		h := w.hdr.Clone()
		if final >= 0 {
			h.Set("Content-Length", strconv.Itoa(w.buf.Len()))
		} else if h.Get("Content-Length") == "" {
			h.Set("Connection", "close") // the simulated server does not chunk
		}
		h.Write(&out)
		out.WriteString("\r\n")
	}
	out.Write(w.buf.Bytes())
	w.buf.Reset()
	_, w.err = w.c.nc.Write(out.Bytes())
}

func (w *respWriter) finish(closing bool) (keep bool) {
	whole := !w.sent
	if closing {
		w.hdr.Set("Connection", "close")
	}
	if whole {
		w.flush(1)
	} else if w.buf.Len() > 0 {
		w.flush(-1)
	}
	return whole && !closing && w.hdr.Get("Connection") != "close"
}

func (s *Server) closeListeners() {
	for _, l := range s.listeners {
		l.Close()
	}
	s.listeners = nil
}

func (s *Server) closeIdle() bool {
	quiet := true
	for _, c := range append([]*Conn(nil), s.conns...) {
		st := c.state
		if st == stNew && simrt.Now()-c.stateT > 5*int64(time.Second) {
			st = stIdle
		}
		if st != stIdle {
			quiet = false
			continue
		}
		s.drop(c)
	}
	return quiet
}

// Shutdown is that of http.Server.
func (s *Server) Shutdown(ctx context.Context) error {
	s.shutdown = true
	s.closeListeners()
	for _, f := range s.onShutdown {
		simrt.Spawn("onshutdown", true, f)
	}
	wait := time.Millisecond
	for {
		if s.closeIdle() {
			return nil
		}
		at := simrt.Now() + int64(wait)
		if d, ok := ctx.Deadline(); ok {
			if dl := int64(d.Sub(simrt.Base)); dl < at {
				at = dl
			}
		}
		if simrt.Aborting() {
			runtime.Goexit()
		}
		simrt.BlockUntil(ready(func() bool { return ctx.Err() != nil }), max(at, simrt.Now()+1000), "Shutdown")
		if simrt.Aborting() {
			runtime.Goexit()
		}
		if d, ok := ctx.Deadline(); ok && int64(d.Sub(simrt.Base)) <= simrt.Now() {
			return context.DeadlineExceeded
		}
		if err := ctx.Err(); err != nil {
			return err
		}
		if wait *= 2; wait > 500*time.Millisecond {
			wait = 500 * time.Millisecond
		}
	}
}

// Close is that of http.Server.
func (s *Server) Close() error {
	s.shutdown = true
	s.closeListeners()
	for _, c := range append([]*Conn(nil), s.conns...) {
		s.drop(c)
	}
	return nil
}

// RegisterOnShutdown is that of http.Server.
func (s *Server) RegisterOnShutdown(f func()) { s.onShutdown = append(s.onShutdown, f) }

// SetKeepAlivesEnabled is that of http.Server.
func (s *Server) SetKeepAlivesEnabled(v bool) { s.noKeep = !v }

// ListenAndServe is http.ListenAndServe.
func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

// ListenAndServeTLS is http.ListenAndServeTLS.
func ListenAndServeTLS(addr, cert, key string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServeTLS(cert, key)
}

// Serve is http.Serve.
func Serve(l net.Listener, h http.Handler) error { return (&Server{Handler: h}).Serve(l) }
