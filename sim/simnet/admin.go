package simnet

import (
	"context"
	"fmt"
	"net/http"
	"time"

	"github.com/gorilla/mux"
	"github.com/moov-io/base/admin"
)

// AdminServer is admin.Server of github.com/moov-io/base on the simulated
// network. Its metrics and profiling pages are left out.
type AdminServer struct {
	router   *mux.Router
	svc      *Server
	listener *Listener
	ready    []func() error
}

// AdminNew is admin.New.
func AdminNew(opts admin.Opts) (*AdminServer, error) {
	timeout := 45 * time.Second
	if opts.Timeout >= 0*time.Second {
		timeout = opts.Timeout
	}
	addr := opts.Addr
	if addr == "" || addr == ":0" {
		addr = "127.0.0.1:0"
	}
	l, err := listen(addr)
	if err != nil {
		return nil, fmt.Errorf("listening on %s failed: %v", opts.Addr, err)
	}
	r := mux.NewRouter()
	s := &AdminServer{router: r, listener: l, svc: &Server{Addr: l.addr, Handler: r, ReadTimeout: timeout, WriteTimeout: timeout, IdleTimeout: timeout}}
	live := func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(http.StatusOK) }
	s.AddHandler("/live", live)
	s.AddHandler("/ready", live)
	return s, nil
}

func (s *AdminServer) none() bool { return s == nil || s.svc == nil }

func (s *AdminServer) BindAddr() string {
	if s.none() {
		return ""
	}
	return s.listener.addr
}

func (s *AdminServer) SetReadTimeout(d time.Duration) {
	if !s.none() {
		s.svc.ReadTimeout = d
	}
}

func (s *AdminServer) SetWriteTimeout(d time.Duration) {
	if !s.none() {
		s.svc.WriteTimeout = d
	}
}

func (s *AdminServer) SetIdleTimeout(d time.Duration) {
	if !s.none() {
		s.svc.IdleTimeout = d
	}
}

func (s *AdminServer) Listen() error {
	if s.none() || s.listener == nil {
		return nil
	}
	return s.svc.Serve(s.listener)
}

func (s *AdminServer) Shutdown() {
	if !s.none() {
		s.svc.Shutdown(context.TODO())
	}
}

func (s *AdminServer) AddHandler(path string, hf http.HandlerFunc) { s.router.HandleFunc(path, hf) }

func (s *AdminServer) AddVersionHandler(version string) {
	s.AddHandler("/version", func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(http.StatusOK)
		w.Write([]byte(version))
	})
}

func (s *AdminServer) Subrouter(pathPrefix string) *mux.Router {
	return s.router.PathPrefix(pathPrefix).Subrouter()
}

func (s *AdminServer) AddLivenessCheck(name string, f func() error)  { s.ready = append(s.ready, f) }
func (s *AdminServer) AddReadinessCheck(name string, f func() error) { s.ready = append(s.ready, f) }
