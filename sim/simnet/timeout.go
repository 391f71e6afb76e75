package simnet

import (
	"bytes"
	"context"
	"io"
	"maps"
	"net"
	"net/http"
	"runtime"
	"time"

	"verif/simrt"
)

// TimeoutHandler is http.TimeoutHandler on the simulated clock.
func TimeoutHandler(h http.Handler, dt time.Duration, msg string) http.Handler {
	return &timeoutHandler{h, msg, dt}
}

type timeoutHandler struct {
	handler http.Handler
	body    string
	dt      time.Duration
}

func (h *timeoutHandler) errorBody() string {
	if h.body != "" {
		return h.body
	}
	return "<html><head><title>Timeout</title></head><body><h1>Timeout</h1></body></html>"
}

func (h *timeoutHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if !simrt.Active() {
		http.TimeoutHandler(h.handler, h.dt, h.body).ServeHTTP(w, r)
		return
	}
	ctx, cancel := simrt.CtxWithTimeout(r.Context(), h.dt)
	defer cancel()
	r = r.WithContext(ctx)
	tw := &timeoutWriter{h: make(http.Header)}
	done := make(chan struct{})
	panics := make(chan any, 1)
	var data any
	if t := simrt.Cur(); t != nil {
		data = t.Data
	}
	simrt.SpawnWith("timeout handler", data, func() {
		defer func() {
			if simrt.Aborting() {
				return
			}
			if p := recover(); p != nil {
				panics <- p
			}
		}()
		h.handler.ServeHTTP(tw, r)
		close(done)
	})
	pc := simrt.CR[chan any, any](panics)
	switch simrt.Select(false, pc, simrt.CR[chan struct{}, struct{}](done), simrt.CR[<-chan struct{}, struct{}](ctx.Done())) {
	case 0:
		panic(pc.V)
	case 1:
		maps.Copy(w.Header(), tw.h)
		if tw.code == 0 {
			tw.code = http.StatusOK
		}
		w.WriteHeader(tw.code)
		w.Write(tw.wbuf.Bytes())
	default:
		if simrt.Aborting() {
			runtime.Goexit()
		}
		w.WriteHeader(http.StatusServiceUnavailable)
		tw.err = ctx.Err()
		if tw.err == context.DeadlineExceeded {
			io.WriteString(w, h.errorBody())
			tw.err = http.ErrHandlerTimeout
		}
	}
}

type timeoutWriter struct {
	h    http.Header
	wbuf bytes.Buffer
	err  error
	code int
}

func (tw *timeoutWriter) Header() http.Header { return tw.h }
func (tw *timeoutWriter) Write(p []byte) (int, error) {
	if tw.err != nil {
		return 0, tw.err
	}
	tw.WriteHeader(http.StatusOK)
	return tw.wbuf.Write(p)
}
func (tw *timeoutWriter) WriteHeader(code int) {
	if tw.err == nil && tw.code == 0 {
		tw.code = code
	}
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c any) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

// Listen is that of net.ListenConfig.
func (*ListenConfig) Listen(_ context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}
