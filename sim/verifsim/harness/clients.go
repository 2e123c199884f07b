//go:build go1.22

package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
	"github.com/cloudflare/gortr/prefixfile"
)

type clientState struct {
	c    Client
	id   int
	tag  string
	doc  *doc
	live int
}

// doc is one response.
type doc struct {
	Path   string
	Code   int
	Hdr    http.Header
	Body   []byte
	T0, T1 time.Time // validator clock, request start and header time
	E1     time.Time
	Cut    bool // the client did not take everything
	ps     *procState
	list   *prefixfile.ROAList
	vrps   map[VRP]int
	at     time.Time
	nWin0  int // validations begun when the request began
}

// respWriter is the server side of a client connection.
type respWriter struct {
	r     *Run
	h     http.Header
	code  int
	at    time.Time
	hdr   http.Header
	buf   bytes.Buffer
	slow  int
	until time.Time
	dead  bool
}

func (w *respWriter) Header() http.Header { return w.h }
func (w *respWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code, w.at = c, time.Now()
		w.hdr = w.h.Clone()
	}
}
func (w *respWriter) Flush() {}

var errGone = errors.New("write: connection reset by peer")

// Write accepts a small window at once; slow readers take the rest slowly or never.
func (w *respWriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.WriteHeader(200)
	}
	if w.dead {
		return 0, errGone
	}
	if w.slow == 0 {
		return w.buf.Write(b)
	}
	n := 0
	for n < len(b) {
		k := min(100, len(b)-n)
		w.buf.Write(b[n : n+k])
		n += k
		if w.buf.Len() <= 200 {
			continue
		}
		if w.slow == 1 {
			if d := time.Until(w.until); d > 0 {
				verifsim.Sleep(d)
			}
			w.dead = true
			return n, errGone
		}
		verifsim.Sleep(time.Second)
		if time.Now().After(w.until) {
			w.dead = true
			return n, errGone
		}
	}
	return n, nil
}

// request performs one HTTP request on the current task.
func (r *Run) request(ps *procState, path, tag string, slow int, dur int64) *doc {
	h := r.handler
	if h == nil {
		return nil
	}
	hr := httptest.NewRequest("GET", path, nil)
	hr.RemoteAddr = "198.51.100.7:50000"
	if tag != "" {
		hr.Header.Set("If-None-Match", tag)
	}
	w := &respWriter{r: r, h: http.Header{}, slow: slow, until: time.Now().Add(time.Duration(dur) * time.Millisecond)}
	d := &doc{Path: path, at: time.Now(), T0: r.wall(time.Now()), ps: ps, nWin0: len(ps.windows)}
	if path == "/metrics" {
		w.slow = 0
	}
	verifsim.Y()
	panicked := true
	var pv any
	var stack string
	func() {
		defer func() {
			if panicked {
				pv = recover()
				stack = string(debug.Stack())
			}
		}()
		h.ServeHTTP(w, hr)
		panicked = false
	}()
	if panicked {
		p := &verifsim.Proc{Panic: fmt.Sprint(pv), Stack: stack}
		r.violate("C04", "handler:"+panicKey(p), "a request for %s made the handler panic: %v\n%s", path, pv, trimStack(stack))
		r.violate("C19", "handler:"+panicKey(p), "a request for %s made the handler panic: %v\n%s", path, pv, trimStack(stack))
		return nil
	}
	if w.code == 0 {
		w.WriteHeader(200)
	}
	d.Code, d.Hdr, d.Body, d.Cut = w.code, w.hdr, w.buf.Bytes(), w.dead
	d.T1 = r.wall(w.at)
	d.E1 = r.wall(time.Now())
	if len(w.hdr) == 0 {
		d.Hdr = w.h.Clone()
	}
	r.docs++
	size := len(d.Body)
	if path == "/metrics" { // contains measurements of this very process
		size = 0
	}
	r.logf("GET %s tag=%v slow=%d -> %d %d bytes", path, tag != "", slow, d.Code, size)
	return d
}

func (r *Run) clientTick(c *clientState) {
	if r.done {
		return
	}
	if c.c.Every > 0 && !(r.healed && c.c.Slow > 0 && len(r.clients) > 6) {
		r.after(time.Duration(c.c.Every)*time.Millisecond, func() { r.clientTick(c) })
	}
	if r.proc == nil || r.proc.Dead() || r.handler == nil || c.live > 3 {
		return
	}
	ps := r.ps[r.proc]
	c.live++
	r.sim.Spawn(r.proc, "client", func() {
		r.clientRequest(ps, c)
		c.live--
	})
	if c.c.Slow > 0 {
		r.fired(fmt.Sprintf("slow-client-%d", c.c.Slow))
	}
}

func (r *Run) clientRequest(ps *procState, c *clientState) {
	if c.c.ETag && c.c.Path == "/output.json" && c.tag != "" && c.doc.ps == ps {
		tag, have := c.tag, c.doc // another request of this client may overtake
		d1 := r.request(ps, c.c.Path, "", 0, 0)
		d := r.request(ps, c.c.Path, tag, 0, 0)
		d2 := r.request(ps, c.c.Path, "", 0, 0)
		if d1 == nil || d == nil || d2 == nil {
			return
		}
		r.checkDoc(ps, d1)
		r.checkDoc(ps, d2)
		if d.Code == 304 {
			r.Exer["C09"]++
			if d1.Code == 200 && bytes.Equal(d1.Body, d2.Body) && d1.list != nil && have.list != nil && (have.list.Metadata != d1.list.Metadata || !sameVRP(have.vrps, d1.vrps)) {
				r.violate("C09", "etag", "304 Not Modified for a document with %d entries (generated %d) while the current one has %d (generated %d) and differs: %s",
					len(have.vrps), have.list.Metadata.Generated, len(d1.vrps), d1.list.Metadata.Generated, diffVRP(have.vrps, d1.vrps))
			}
		} else {
			r.checkDoc(ps, d)
		}
		if d2.Code == 200 && r.net.Chance(0.5) {
			c.tag, c.doc = d2.Hdr.Get("Etag"), d2
		}
		return
	}
	d := r.request(ps, c.c.Path, "", c.c.Slow, c.c.Dur)
	if d == nil {
		return
	}
	r.checkDoc(ps, d)
	if d.Code == 200 && !d.Cut {
		c.tag, c.doc = d.Hdr.Get("Etag"), d
	}
}

// monitorTick observes the validator after the faults have stopped.
func (r *Run) monitorTick() {
	if r.done {
		return
	}
	r.after(time.Duration(3+r.net.Intn(7))*time.Second, r.monitorTick)
	if r.proc == nil || r.proc.Dead() || r.handler == nil {
		return
	}
	ps := r.ps[r.proc]
	n := r.docs
	r.sim.Spawn(r.proc, "monitor", func() {
		if d := r.request(ps, "/output.json", "", 0, 0); d != nil {
			r.checkDoc(ps, d)
			r.converge(ps, d)
		}
		if n%3 == 0 {
			for _, p := range []string{"/resources.json", "/infos", "/health", "/metrics"} {
				if d := r.request(ps, p, "", 0, 0); d != nil {
					r.checkDoc(ps, d)
				}
			}
		}
	})
}

func sameVRP(a, b map[VRP]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return false
		}
	}
	return true
}

func diffVRP(a, b map[VRP]int) string {
	var o []string
	for k := range a {
		if _, ok := b[k]; !ok {
			o = append(o, "-"+k.String())
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			o = append(o, "+"+k.String())
		}
	}
	sortStrings(o)
	if len(o) > 6 {
		o = append(o[:6], "...")
	}
	return strings.Join(o, " ")
}

// parseList decodes a served list; nil if it is not one.
func parseList(b []byte) (*prefixfile.ROAList, map[VRP]int, error) {
	l := &prefixfile.ROAList{}
	dec := json.NewDecoder(bytes.NewReader(b))
	if err := dec.Decode(l); err != nil {
		return nil, nil, err
	}
	m := map[VRP]int{}
	for _, x := range l.Data {
		p, err := netip.ParsePrefix(x.Prefix)
		if err != nil {
			return nil, nil, fmt.Errorf("prefix %q: %v", x.Prefix, err)
		}
		s, _ := x.ASN.(string)
		n, err := strconv.ParseInt(strings.TrimPrefix(s, "AS"), 10, 64)
		if err != nil {
			return nil, nil, fmt.Errorf("asn %v: %v", x.ASN, err)
		}
		m[VRP{TA: x.TA, P: p.String(), Max: int(x.Length), ASN: n}]++
	}
	return l, m, nil
}
