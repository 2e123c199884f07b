//go:build go1.22

package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

// The gRPC resource API (C21): the generated client interface is the seam; the
// service behind it is played here.

var current *Run

// APIServer is the simulated service and what its client is asked to do.
type APIServer struct {
	r        *Run
	Ctx      context.Context
	Time     time.Time
	TALs     []string
	Listing  bool // explore directories instead of manifests
	Strict   bool
	Parallel bool // one task per trust anchor
	Log      bool

	Status func(code uint32, msg string) error // makes the error of a failed call

	cancel context.CancelFunc
	calls  int
	failed []apiFail
	rows   []APIRow
	errs   []string
	ended  bool
	names  int
}

type apiFail struct{ mark, what string }

type APIRow struct {
	ASN    uint64
	Prefix string
	Max    int
}

// API is what the running program talks to.
func API() *APIServer { return current.local.api }

func apiPlan(p *Plan, r *verifsim.Rand) {
	x := p.Extra
	p.NoStrict = r.Chance(0.15)
	x["par"] = int64(r.Intn(2))
	x["names"] = int64(r.Intn(3))
	x["log"] = int64(r.Intn(2))
	x["order"] = int64(r.Intn(2))
	x["listed"] = int64(r.Intn(2))
	if r.Chance(0.25) {
		x["ctx_ms"] = int64(1 + r.Intn(20000))
	}
	if r.Chance(0.1) {
		x["cancel"] = int64(1 + r.Intn(60))
	}
	for n := 0; r.Chance(0.6) && n < 4; n++ {
		f := NetFault{Target: "api", To: 1 << 40, P: r.Intn(1 << 16), Every: 1 + r.Intn(20)}
		f.Kind = pick(r, "error", "error", "break", "break", "break", "slow")
		f.Doc = pick(r, "", "", ".roa", ".mft", ".cer", ".crl", "h0.sim", "h1.sim", "m0", "ca")
		if r.Chance(0.3) { // once
			f.To = int64(1 + r.Intn(80))
			f.Every = 1 << 20
		}
		if x["ctx_ms"] > 0 && r.Chance(0.4) {
			f.Kind = "hang"
		}
		p.Net = append(p.Net, f)
	}
}

func (r *Run) apiStart() {
	l, x := r.local, r.Plan.Extra
	s := &APIServer{r: r, Time: l.vt, Listing: l.listed, Strict: !r.Plan.NoStrict, Parallel: x["par"] != 0, Log: x["log"] != 0, names: int(x["names"])}
	for _, ta := range r.w.TAs {
		s.TALs = append(s.TALs, ta.TALPath)
	}
	s.Ctx, s.cancel = context.WithCancel(context.Background())
	if x["ctx_ms"] > 0 {
		s.Ctx, s.cancel = context.WithTimeout(context.Background(), time.Duration(x["ctx_ms"])*time.Millisecond)
	}
	l.api = s
}

// call decides what happens to one request.
func (s *APIServer) call(ctx context.Context, what, path string) (kind string, p int) {
	verifsim.Op("api", what+" "+path)
	r := s.r
	s.calls++
	n := s.calls
	r.logf("api call %d: %s %s", n, what, path)
	if c := r.Plan.Extra["cancel"]; c != 0 && int64(n) == c {
		r.fired("api-cancel")
		s.cancel()
	}
	d := time.Duration(r.net.Intn(20)) * time.Millisecond
	for i := range r.Plan.Net {
		f := &r.Plan.Net[i]
		if f.Target != "api" || f.Doc != "" && !strings.Contains(path, f.Doc) {
			continue
		}
		f.n++
		if f.Every != 1<<20 && f.n%f.Every != 0 || f.Every == 1<<20 && int64(f.n) != f.To {
			continue
		}
		r.fired("api-" + f.Kind)
		if f.Kind == "slow" {
			d += time.Duration(1+f.P%20) * time.Second
			continue
		}
		kind, p = f.Kind, f.P
		break
	}
	if kind == "hang" && r.Plan.Extra["ctx_ms"] == 0 {
		kind = ""
	}
	if kind == "hang" && what == "list" && p%2 == 0 {
		kind = "hanglater"
	}
	if kind == "hang" {
		<-ctx.Done()
	} else {
		t := time.NewTimer(d)
		select {
		case <-t.C:
		case <-ctx.Done():
		}
		t.Stop()
	}
	verifsim.Enter()
	return
}

// rpcErrors are what gRPC reports when a call breaks.
var rpcErrors = []struct {
	code uint32
	msg  string
}{
	{14, "transport is closing"},
	{14, "error reading from server: EOF"},
	{14, "connection error: desc = \"error reading server preface: EOF\""},
	{13, "unexpected EOF"},
	{13, "stream terminated by RST_STREAM with error code: INTERNAL_ERROR"},
	{13, "stream terminated by RST_STREAM with error code: NO_ERROR"},
	{8, "grpc: received message larger than max"},
	{2, "EOF"},
	{2, "open: no such file or directory"},
	{5, "not found"},
	{1, "the client connection is closing"},
	{4, "context deadline exceeded"},
	{15, "data loss"},
	{11, "out of range"},
	{12, "unknown method"},
}

// fail makes the error of a request that fails.
func (s *APIServer) fail(ctx context.Context, what string, files ...string) error {
	for _, f := range files {
		s.r.local.read[f] = true
	}
	k := s.r.net.Intn(len(rpcErrors))
	err := s.Status(rpcErrors[k].code, fmt.Sprintf("%s (%d)", rpcErrors[k].msg, 1000+len(s.failed)))
	if ctx.Err() != nil {
		code := uint32(1) // cancelled
		if errors.Is(ctx.Err(), context.DeadlineExceeded) {
			code = 4
		}
		err = s.Status(code, fmt.Sprintf("%v (%d)", ctx.Err(), 1000+len(s.failed)))
	}
	s.failed = append(s.failed, apiFail{err.Error(), what})
	s.r.logf("api failure: %s: %v", what, err)
	return err
}

// Resource answers GetResource.
func (s *APIServer) Resource(ctx context.Context, path string) ([]byte, error) {
	f := cleanRel(localPath(path))
	if !strings.HasPrefix(path, "rsync://") {
		f = ""
	}
	kind, _ := s.call(ctx, "resource", path)
	if kind == "error" || kind == "break" || ctx.Err() != nil {
		return nil, s.fail(ctx, "the transfer of "+path, f)
	}
	d, ok := s.r.local.seen[f]
	if !ok {
		err := s.Status(5, fmt.Sprintf("no object %d", 1000+len(s.failed)))
		s.failed = append(s.failed, apiFail{err.Error(), "the transfer of " + path})
		return nil, err
	}
	return append([]byte{}, d...), nil
}

// APIStream is a listing under way.
type APIStream struct {
	s     *APIServer
	ctx   context.Context
	path  string
	files []string
	i     int
	cut   int // fails here
	hang  bool
	over  bool
}

// List answers GetRepository.
func (s *APIServer) List(ctx context.Context, path string) (*APIStream, error) {
	base := cleanRel(localPath(path)) + "/"
	if !strings.HasPrefix(path, "rsync://") {
		base = "\x00"
	}
	st := &APIStream{s: s, ctx: ctx, path: path, cut: -1}
	for _, f := range sortedKeys(s.r.local.seen) {
		if strings.HasPrefix(f, base) && !strings.Contains(f[len(base):], "/") {
			st.files = append(st.files, f)
		}
	}
	kind, p := s.call(ctx, "list", path)
	if s.r.Plan.Extra["order"] != 0 {
		for i := len(st.files) - 1; i > 0; i-- {
			j := s.r.net.Intn(i + 1)
			st.files[i], st.files[j] = st.files[j], st.files[i]
		}
	}
	if kind == "error" && p%2 == 0 || ctx.Err() != nil {
		return nil, s.fail(ctx, "the listing of "+path, st.files...)
	}
	switch kind {
	case "error":
		st.cut = 0
	case "break":
		st.cut = (p / 2) % (len(st.files) + 1)
	case "hanglater":
		st.cut = (p / 2) % (len(st.files) + 1)
		st.hang = true
	}
	return st, nil
}

// Next answers Recv.
func (st *APIStream) Next() (path string, data []byte, err error) {
	s := st.s
	verifsim.Op("api", "recv")
	if st.over {
		return "", nil, io.EOF
	}
	if d := s.r.net.Intn(8); d > 5 {
		t := time.NewTimer(time.Duration(d) * time.Millisecond)
		select {
		case <-t.C:
		case <-st.ctx.Done():
		}
		t.Stop()
		verifsim.Enter()
	}
	if st.hang && st.i == st.cut {
		<-st.ctx.Done()
		verifsim.Enter()
	}
	if st.i == st.cut || st.ctx.Err() != nil {
		st.over = true
		return "", nil, s.fail(st.ctx, fmt.Sprintf("the listing of %s after %d of %d objects", st.path, st.i, len(st.files)), st.files[st.i:]...)
	}
	if st.i == len(st.files) {
		st.over = true
		return "", nil, io.EOF
	}
	f := st.files[st.i]
	st.i++
	path = "rsync://" + f
	if s.names == 1 || s.names == 2 && s.r.net.Intn(2) == 0 {
		path = f[strings.LastIndex(f, "/")+1:]
	}
	return path, append([]byte{}, s.r.local.seen[f]...), nil
}

// Result takes what a validation found.
func (s *APIServer) Result(rows []APIRow) {
	verifsim.Enter()
	s.rows = append(s.rows, rows...)
}

// Error takes an error a validation reported.
func (s *APIServer) Error(err error) {
	verifsim.Enter()
	if err == nil {
		return
	}
	s.errs = append(s.errs, err.Error())
}

// End says that all is over.
func (s *APIServer) End() { s.ended = true }

func (r *Run) checkAPI() {
	l := r.local
	s := l.api
	s.cancel()
	r.docs++
	if !s.ended {
		return
	}
	for _, f := range s.failed {
		ok := false
		for _, e := range s.errs {
			if strings.Contains(e, f.mark) {
				ok = true
			}
		}
		if !ok {
			r.violate("C21", "silent", "%s failed (%s) but no such error was reported (%d other errors were)", f.what, f.mark, len(s.errs))
		}
	}
	U, L := r.localEval(false), r.localEval(true)
	may := map[VRP]bool{}
	for v := range U.VRP {
		may[v.key()] = true
	}
	have := map[VRP]bool{}
	for _, x := range s.rows {
		v := VRP{P: x.Prefix, Max: x.Max, ASN: int64(x.ASN)}
		have[v] = true
		if !may[v] {
			r.violate("C21", "unauthorised", "the payload %s-%d AS%d is not authorised by the objects of the server", x.Prefix, x.Max, x.ASN)
		}
	}
	var missing []VRP
	for v := range L.VRP {
		if !have[v.key()] {
			missing = append(missing, v)
		}
	}
	r.logf("result: %d payloads, between %d and %d authorised; %d calls, %d failed, %d errors", len(s.rows), len(L.VRP), len(U.VRP), s.calls, len(s.failed), len(s.errs))
	if len(missing) > 0 {
		r.violate("C21", "missing", "%d payloads that the objects of the server authorise are missing (%d calls failed): %s", len(missing), len(s.failed), vlist(missing))
	}
	if len(s.rows)+len(L.VRP) > 0 {
		r.Exer["C21"]++
	}
	if len(s.failed) > 0 {
		r.Exer["C21-failures"]++
	}
	if !l.listed && len(s.failed) == 0 && len(l.noTAL) == 0 {
		var k []string
		for v := range have {
			k = append(k, fmt.Sprint(v))
		}
		sort.Strings(k)
		o := strings.Join(k, " ")
		if l.apiOut != nil && l.apiTime.Equal(l.vt) && *l.apiOut != o {
			r.violate("C21", "differs", "two validations of the same objects for the same time differ: %d bytes and %d bytes", len(o), len(*l.apiOut))
		}
		l.apiOut, l.apiTime = &o, l.vt
	}
}
