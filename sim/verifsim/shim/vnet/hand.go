//go:build go1.22

package vnet

import (
	"context"
	"errors"
	rt "net"
	"time"
)

// Listener stands for a listening socket: what is served on it is reached through
// the simulator.
type listener struct{ addr string }

func (l *listener) Accept() (rt.Conn, error) { select {} }
func (l *listener) Close() error             { return nil }
func (l *listener) Addr() rt.Addr            { return l }
func (l *listener) Network() string          { return "tcp" }
func (l *listener) String() string           { return l.addr }

func Listen(network, addr string) (rt.Listener, error) { return &listener{addr}, nil }

type ListenConfig struct{ KeepAlive time.Duration }

func (*ListenConfig) Listen(ctx context.Context, network, addr string) (rt.Listener, error) {
	return Listen(network, addr)
}

var errNet = errors.New("verifsim: no such connection")

func Dial(network, addr string) (rt.Conn, error)                         { return nil, errNet }
func DialTimeout(network, addr string, d time.Duration) (rt.Conn, error) { return nil, errNet }
