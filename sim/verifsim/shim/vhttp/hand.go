//go:build go1.22

package vhttp

import (
	"context"
	"crypto/tls"
	"errors"
	"log"
	"net"
	rh "net/http"
	"net/url"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

func serve(addr string, h rh.Handler) error {
	if h == nil {
		h = rh.DefaultServeMux
	}
	t := verifsim.Op("listen", addr)
	if t == nil {
		return errors.New("verifsim: not simulated")
	}
	if err := verifsim.S().Listen(t, addr, h); err != nil {
		return err
	}
	select {} // serves until the process dies
}

func ListenAndServe(addr string, handler rh.Handler) error { return serve(addr, handler) }
func ListenAndServeTLS(addr, c, k string, handler rh.Handler) error {
	return serve(addr, handler)
}

func Serve(l net.Listener, handler rh.Handler) error { return serve(l.Addr().String(), handler) }

// DefaultTransport is the simulated network too.
var DefaultTransport rh.RoundTripper = &Transport{}

type Server struct {
	Addr                         string
	Handler                      rh.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*rh.Server, *tls.Conn, rh.Handler)
	ConnState                    func(net.Conn, rh.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context
}

func (s *Server) ListenAndServe() error               { return serve(s.Addr, s.Handler) }
func (s *Server) ListenAndServeTLS(c, k string) error { return serve(s.Addr, s.Handler) }
func (s *Server) Serve(l net.Listener) error          { return serve(l.Addr().String(), s.Handler) }
func (s *Server) Shutdown(ctx context.Context) error  { return nil }
func (s *Server) Close() error                        { return nil }
func (s *Server) RegisterOnShutdown(f func())         {}
func (s *Server) SetKeepAlivesEnabled(bool)           {}

// Transport keeps the configuration surface of http.Transport but talks to the
// simulated network.
type Transport struct {
	Proxy                  func(*rh.Request) (*url.URL, error)
	DialContext            func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	DialTLS                func(network, addr string) (net.Conn, error)
	DialTLSContext         func(ctx context.Context, network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	ProxyConnectHeader     rh.Header
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool
}

func (t *Transport) RoundTrip(r *rh.Request) (*rh.Response, error) {
	return verifsim.Transport.RoundTrip(r)
}
func (t *Transport) Clone() *Transport     { c := *t; return &c }
func (t *Transport) CloseIdleConnections() {}
