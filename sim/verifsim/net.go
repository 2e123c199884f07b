//go:build go1.22

package verifsim

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"time"
)

// HTTPOutcome is the simulated network's decision for one HTTP request.
type HTTPOutcome struct {
	Delay      time.Duration // until the response header (or Err)
	Err        error         // transport error instead of a response
	Hang       bool          // never answer
	Status     int
	Header     http.Header
	Body       []byte
	BodyErr    error         // delivered after Body instead of EOF
	HangAfter  bool          // after Body, never deliver anything
	Chunk      int           // bytes per chunk (0: all at once)
	ChunkDelay time.Duration // delay before each chunk
	Length     int64         // Content-Length (-1: unknown)
	Big        int64         // stream of this many zero bytes after Body (oversized response)
	Done       func(err error)
}

type simTransport struct{}

// Transport is the http.RoundTripper of the simulated network.
var Transport http.RoundTripper = simTransport{}

func canceled(req *http.Request) <-chan struct{} {
	//lint:ignore SA1019 http.Client uses it for its timeout
	return req.Cancel
}

// wait sleeps d (forever if negative) unless the request is cancelled.
func reqWait(req *http.Request, d time.Duration) error {
	if d == 0 {
		return nil
	}
	var tc <-chan time.Time
	if d > 0 {
		tm := time.NewTimer(d)
		defer tm.Stop()
		tc = tm.C
	}
	select {
	case <-tc:
		return nil
	default:
	}
	select {
	case <-tc:
		return nil
	case <-req.Context().Done():
		return req.Context().Err()
	case <-canceled(req):
		return errors.New("net/http: request canceled")
	}
}

func (simTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	t := Op("http", req.Method+" "+req.URL.String())
	if t == nil || t.sim.HTTP == nil {
		return nil, errors.New("verifsim: no network")
	}
	if req.Context().Err() != nil {
		if t.sim.Late != nil {
			t.sim.Late(t, []string{req.URL.String()})
		}
		return nil, req.Context().Err()
	}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	o := t.sim.HTTP(t, req, body)
	finish := func(err error) {
		if o.Done != nil {
			d := o.Done
			o.Done = nil
			d(err)
		}
	}
	d := o.Delay
	if o.Hang {
		d = -1
	}
	err := reqWait(req, d)
	Enter()
	if err == nil {
		err = o.Err
	}
	if err != nil {
		finish(err)
		return nil, err
	}
	if o.Header == nil {
		o.Header = http.Header{}
	}
	ln := o.Length
	if ln == 0 {
		ln = int64(len(o.Body)) + o.Big
	}
	return &http.Response{
		Status: http.StatusText(o.Status), StatusCode: o.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: o.Header, ContentLength: ln, Request: req,
		Body: &simBody{req: req, o: o, finish: finish},
	}, nil
}

type simBody struct {
	req    *http.Request
	o      *HTTPOutcome
	off    int
	big    int64
	ready  int // bytes already paid for with ChunkDelay
	closed bool
	finish func(error)
}

func (b *simBody) Read(p []byte) (int, error) {
	Enter()
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if err := b.req.Context().Err(); err != nil {
		b.finish(err)
		return 0, err
	}
	rest := len(b.o.Body) - b.off
	if rest > 0 {
		n := rest
		if b.o.Chunk > 0 && n > b.o.Chunk {
			n = b.o.Chunk
		}
		if b.off >= b.ready {
			err := reqWait(b.req, b.o.ChunkDelay)
			Enter()
			if err != nil {
				b.finish(err)
				return 0, err
			}
			b.ready = b.off + n
		}
		n = min(n, b.ready-b.off)
		n = copy(p, b.o.Body[b.off:b.off+n])
		b.off += n
		return n, nil
	}
	if b.o.HangAfter {
		err := reqWait(b.req, -1)
		Enter()
		b.finish(err)
		return 0, err
	}
	if b.big < b.o.Big {
		n := min(int64(len(p)), b.o.Big-b.big)
		b.big += n
		return int(n), nil
	}
	err := b.o.BodyErr
	if err == nil {
		err = io.EOF
	}
	b.finish(err)
	return 0, err
}

func (b *simBody) Close() error {
	if b.closed {
		return nil
	}
	Enter()
	b.closed = true
	b.finish(nil)
	return nil
}

// --- child processes ---

type ExecReq struct {
	Path   string
	Args   []string
	Dir    string
	Stdout io.Writer
	Stderr io.Writer
	Proc   *Proc // the child
	Parent *Proc
	Task   *Task
}

type Child struct {
	Proc   *Proc
	Code   int
	exited bool
	waiter []*Task
	done   chan struct{}
	ctxErr error
	finish func(code int)
}

// StartChild runs Sim.Exec in a new simulated process.
func StartChild(ctx context.Context, e *ExecReq, closeW func()) (*Child, error) {
	t := Op("exec", e.Path)
	if t == nil || t.sim.Exec == nil {
		return nil, errors.New("verifsim: no processes")
	}
	s := t.sim
	if ctx != nil && ctx.Err() != nil {
		if s.Late != nil {
			s.Late(t, e.Args)
		}
		return nil, ctx.Err()
	}
	if s.ExecStart != nil {
		if err := s.ExecStart(t, e); err != nil {
			return nil, err
		}
	}
	c := &Child{done: make(chan struct{})}
	c.Proc = s.NewProc("child")
	e.Proc, e.Parent = c.Proc, t.Proc
	c.finish = func(code int) {
		if c.exited {
			return
		}
		c.exited, c.Code = true, code
		c.Proc.dead.Store(true)
		if s.ExecEnd != nil {
			s.ExecEnd(e, code)
		}
		closeW()
		close(c.done)
		for _, w := range c.waiter {
			if !w.Proc.Dead() {
				s.unpark(w)
			}
		}
		c.waiter = nil
	}
	s.spawn(c.Proc, "child", func() {
		e.Task = cur()
		c.finish(s.Exec(e))
	})
	if ctx != nil && ctx.Done() != nil {
		// the watcher belongs to the parent: if the parent is killed the child lives on
		s.spawn(t.Proc, "ctxwatch", func() {
			select {
			case <-c.done:
			case <-ctx.Done():
			}
			Enter()
			if !c.exited && ctx.Err() != nil {
				c.ctxErr = ctx.Err()
				c.finish(-1)
			}
		})
	}
	return c, nil
}

func (c *Child) Kill() {
	Enter()
	c.finish(-1)
}

func (c *Child) Wait() (code int, err error) {
	t := Enter()
	Y()
	for !c.exited {
		c.waiter = append(c.waiter, t)
		t.sim.parkOn(t, c)
	}
	return c.Code, c.ctxErr
}

// Pipe is a kernel pipe of limited capacity.
type Pipe struct {
	buf     bytes.Buffer
	cap     int
	wclosed bool
	rclosed bool
	waiters []*Task
}

func NewPipe() *Pipe { return &Pipe{cap: 65536} }

func (p *Pipe) wakeAll(t *Task) {
	w := p.waiters
	p.waiters = nil
	for _, x := range w {
		if !x.Proc.Dead() {
			t.sim.unpark(x)
		}
	}
}

func (p *Pipe) Read(b []byte) (int, error) {
	t := Enter()
	Y()
	for p.buf.Len() == 0 {
		if p.rclosed {
			return 0, ErrClosed
		}
		if p.wclosed {
			return 0, io.EOF
		}
		p.waiters = append(p.waiters, t)
		t.sim.parkOn(t, p)
	}
	n, _ := p.buf.Read(b)
	p.wakeAll(t)
	return n, nil
}

var ErrPipe = errors.New("broken pipe")

func (p *Pipe) Write(b []byte) (int, error) {
	t := Enter()
	n := 0
	for n < len(b) {
		for p.buf.Len() >= p.cap && !p.rclosed {
			p.waiters = append(p.waiters, t)
			t.sim.parkOn(t, p)
		}
		if p.rclosed {
			return n, ErrPipe
		}
		k := min(len(b)-n, p.cap-p.buf.Len())
		p.buf.Write(b[n : n+k])
		n += k
		p.wakeAll(t)
	}
	return n, nil
}

func (p *Pipe) CloseWrite() {
	p.wclosed = true
	if t := cur(); t != nil {
		p.wakeAll(t)
	}
}

func (p *Pipe) Close() error {
	t := Enter()
	p.rclosed = true
	if t != nil {
		p.wakeAll(t)
	}
	return nil
}
