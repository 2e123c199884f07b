//go:build go1.22

package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

// NetFault makes one target misbehave during a window of simulated time.
type NetFault struct {
	Target string `json:"target"`
	From   int64  `json:"from_ms"`
	To     int64  `json:"to_ms"` // 0: never ends
	Kind   string `json:"kind"`
	Doc    string `json:"doc,omitempty"` // only this document kind
	Every  int    `json:"every,omitempty"`
	P      int    `json:"p,omitempty"`
	n      int
}

// Req records one retrieval the validator attempted.
type Req struct {
	Seq      int
	At, End  time.Time
	Proc     *verifsim.Proc
	URL      string
	Host     string
	Doc      string // notification snapshot delta tal ct other rsync
	Srv      *RRDPServer
	For      string // the notification file it was asked for after, by the same task
	Ver      *RRDPVersion
	TA       *TA
	Fault    string
	Complete bool // the body that was asked for was delivered whole and unaltered
	Bad      bool // what was delivered cannot be mistaken for the document
	Oversize bool
	Done     bool
	Err      error
	Cert     *Obj
	Module   string // rsync: module URI, file URI for trust anchors
	Round    int
	Chain    [][32]byte // certificate chain submitted to the log
	CTFinal  bool       // the log's answer is not one to try again after
}

const maxBody = 1000000000

func (r *Run) activeFault(target, doc string) *NetFault {
	now := r.ms()
	for i := range r.Plan.Net {
		f := &r.Plan.Net[i]
		if f.Target != target || now < f.From || (f.To != 0 && now >= f.To) {
			continue
		}
		if r.healed && f.To != 0 {
			continue
		}
		if f.Doc != "" && f.Doc != doc {
			continue
		}
		f.n++
		if f.Every > 1 && f.n%f.Every != 0 {
			continue
		}
		return f
	}
	return nil
}

func (r *Run) fired(kind string) { r.Faults[kind]++ }

func (r *Run) serveHTTP(t *verifsim.Task, hr *http.Request, body []byte) *verifsim.HTTPOutcome {
	u := hr.URL.String()
	q := r.newReq(t, u)
	q.Host = hr.URL.Host
	o := &verifsim.HTTPOutcome{Status: 200, Header: http.Header{}, Delay: time.Duration(2+r.net.Intn(120)) * time.Millisecond, Chunk: 16384}
	o.Done = func(err error) {
		q.Done, q.End, q.Err = true, time.Now(), err
		if errors.Is(err, io.EOF) && o.BodyErr == nil && q.Fault == "" {
			q.Complete = true
		}
		if !errors.Is(err, io.EOF) && err != nil {
			q.Bad = true
		}
		r.logf("http done #%d %s complete=%v err=%v", q.Seq, q.URL, q.Complete, err != nil)
		r.reqDone(q)
	}
	content, ok := r.lookup(q, hr)
	if q.Doc == "ct" {
		q.Chain = ctChain(body)
	}
	if q.Doc == "notification" {
		r.lastNote[t] = q.Srv.URL
	} else if q.Doc == "tal" || q.Doc == "ct" {
		delete(r.lastNote, t)
	} else if strings.HasPrefix(hr.URL.Path, "/rrdp/") && strings.Count(hr.URL.Path, "/") == 4 {
		q.For = r.lastNote[t]
	}
	r.reqStart(q)
	if !ok {
		o.Status, o.Body = 404, []byte("not found")
		q.Bad = true
		q.Fault = "404"
		r.applyHTTPFault(q, o)
		return o
	}
	o.Body = content
	r.applyHTTPFault(q, o)
	return o
}

func (r *Run) newReq(t *verifsim.Task, u string) *Req {
	q := &Req{Seq: len(r.Reqs), At: time.Now(), Proc: t.Proc, URL: u, Doc: "other"}
	r.Reqs = append(r.Reqs, q)
	return q
}

func (r *Run) lookup(q *Req, hr *http.Request) ([]byte, bool) {
	if q.Host == "ct.sim" {
		q.Doc = "ct"
		return sctBody, true
	}
	if b, ok := r.Static[q.URL]; ok {
		return b, true
	}
	for _, s := range r.w.RRDPs {
		if s.Name != q.Host {
			continue
		}
		q.Srv = s
		p := hr.URL.Path
		if p == "/rrdp/notification.xml" || q.URL == s.URL {
			q.Doc = "notification"
			if len(s.Hist) == 0 {
				return nil, false
			}
			q.Ver = s.Hist[len(s.Hist)-1]
			if f := r.peekFault(s.Name, "notification", "stale"); f != nil {
				i := len(s.Hist) - 1 - f.P%3 - 1
				if i < 0 {
					i = 0
				}
				if q.Ver != s.Hist[i] {
					r.fired("http-stale")
				}
				q.Ver = s.Hist[i]
			}
			return s.NotificationXML(q.Ver), true
		}
		var sess int
		var ser int64
		var kind string
		if n, _ := fmt.Sscanf(strings.TrimSuffix(p, ".xml"), "/rrdp/%d/%d/%s", &sess, &ser, &kind); n == 3 {
			v := s.Version(sess, ser)
			if v == nil {
				return nil, false
			}
			q.Ver = v
			q.Doc = kind
			if kind == "snapshot" {
				return s.SnapshotXML(v), true
			}
			return s.DeltaXML(v, s.Version(sess, ser-1)), true
		}
		return nil, false
	}
	for _, ta := range r.w.TAs {
		for _, u := range ta.HTTP {
			if u == q.URL {
				q.Doc, q.TA = "tal", ta
				q.Cert = ta.Cert
				if r.talAt(ta, u) == nil {
					return nil, false
				}
				q.Cert = r.talAt(ta, u)
				return q.Cert.Data, true
			}
		}
	}
	return nil, false
}

// talAt is what one trust anchor location serves; a location can lag behind.
func (r *Run) talAt(ta *TA, u string) *Obj {
	return ta.Cert
}

func (r *Run) peekFault(target, doc, kind string) *NetFault {
	now := r.ms()
	for i := range r.Plan.Net {
		f := &r.Plan.Net[i]
		if f.Target == target && f.Kind == kind && now >= f.From && (f.To == 0 || now < f.To) && !(r.healed && f.To != 0) {
			return f
		}
	}
	return nil
}

var errReset = errors.New("read: connection reset by peer")

func (r *Run) applyHTTPFault(q *Req, o *verifsim.HTTPOutcome) {
	r.logf("http #%d %s %s round=%d", q.Seq, q.URL, q.Doc, q.Round)
	f := r.activeFault(q.Host, q.Doc)
	if f == nil || f.Kind == "stale" {
		return
	}
	kind := f.Kind
	full := o.Body
	q.Fault = kind
	cut := func() int {
		if len(full) == 0 {
			return 0
		}
		return (f.P * 7919) % len(full)
	}
	bad := true
	switch kind {
	case "refuse":
		o.Err = fmt.Errorf("dial tcp: connect: %w", syscall.ECONNREFUSED)
	case "dns":
		o.Err = errors.New("lookup " + q.Host + ": no such host")
	case "status":
		o.Status = []int{500, 503, 404, 403, 429, 204, 206}[f.P%7]
		q.CTFinal = o.Status != 503 && o.Status != 429
		o.Body = []byte("error")
	case "busy":
		o.Status = 503
		o.Header.Set("Retry-After", strconv.Itoa(1+f.P%60))
		o.Body = []byte("busy")
	case "hang":
		if q.Doc == "ct" && r.local != nil { // the connection is lost in the end
			o.Delay = time.Duration(f.To-r.ms()) * time.Millisecond
			o.Err = errReset
			break
		}
		o.Hang = true
	case "hangafter":
		if q.Doc == "ct" && r.local != nil {
			o.Delay = time.Duration(f.To-r.ms()) * time.Millisecond
			o.Body, o.BodyErr, o.Length = full[:cut()], errReset, int64(len(full))
			break
		}
		o.Body = full[:cut()]
		o.HangAfter = true
		o.Length = int64(len(full))
	case "drip": // a byte every so often: never finishes in time
		o.Chunk, o.ChunkDelay = 1, time.Duration(1+f.P%5)*time.Second
		bad = len(full)*(1+f.P%5) > 50
		if q.Doc == "ct" && r.local != nil { // whole in the end, if the client has the patience
			r.fired("http-drip")
			q.Fault = ""
			return
		}
		if !bad {
			q.Fault = ""
		}
	case "slow":
		o.Delay += time.Duration(1+f.P%20) * time.Second
		q.Fault = ""
		bad = false
	case "trunc": // connection lost in the middle
		o.Body = full[:cut()]
		o.BodyErr = []error{io.ErrUnexpectedEOF, errReset}[f.P%2]
		o.Length = int64(len(full))
	case "short200": // shorter body, cleanly ended
		o.Body = full[:cut()]
	case "empty200":
		o.Body = nil
	case "html200":
		o.Body = []byte("<html><body>Maintenance</body></html>")
	case "garbage":
		b := append([]byte{}, full...)
		for i := 0; i < 1+len(b)/200 && len(b) > 0; i++ {
			b[(f.P*31+i*197)%len(b)] ^= byte(1 + f.P%255)
		}
		if bytes.Equal(b, full) {
			b = append(b, 'x')
		}
		o.Body = b
		// a changed notification can still be well-formed XML naming other documents
		bad = q.Doc == "snapshot" || q.Doc == "delta" || q.Doc == "tal"
	case "badbase64":
		if q.Doc == "snapshot" || q.Doc == "delta" {
			s := string(full)
			if i := strings.Index(s, "\">"); i > 0 {
				if j := strings.Index(s[i:], "</publish>"); j > 0 {
					s = s[:i+2] + "!!!!" + s[i+2:]
				}
			}
			bad = s != string(full)
			o.Body = []byte(s)
		} else {
			bad = false
			q.Fault = ""
		}
	case "wrongcontent": // well-formed document with other content
		switch {
		case q.Srv != nil && (q.Doc == "snapshot" || q.Doc == "delta"):
			o.Body = wrongDoc(q, r)
			bad = !bytes.Equal(o.Body, full)
		case q.TA != nil:
			bad = false
			q.Fault = ""
		default:
			bad = false
			q.Fault = ""
		}
		if !bad {
			q.Fault = ""
		}
	case "wrongcert", "altered", "oldcert":
		if q.TA != nil {
			q.Cert = q.TA.Wrong
			if kind == "altered" {
				q.Cert = q.TA.Altered
			}
			if kind == "oldcert" {
				q.Cert = q.TA.Expired
			}
			o.Body = q.Cert.Data
		} else {
			q.Fault, bad = "", false
		}
	case "oversize":
		if r.oversized >= 2 { // each takes gigabytes
			q.Fault = ""
			return
		}
		r.oversized++
		o.Body = nil
		o.Big = maxBody + 1000
		q.Oversize = q.Srv != nil
		o.Length = -1
	case "redirect":
		o.Status = 302
		o.Header.Set("Location", q.URL)
		o.Body = nil
	default:
		panic("unknown fault " + kind)
	}
	if len(o.Body) == len(full) && bytes.Equal(o.Body, full) && (kind == "short200" || kind == "garbage" || kind == "empty200" || kind == "badbase64" || kind == "wrongcontent") {
		q.Fault, bad = "", false
	}
	if kind == "short200" && q.Doc == "notification" && bytes.Contains(o.Body, []byte("</notification>")) {
		bad = false
	}
	if q.Fault == "" {
		if kind == "slow" {
			r.fired("http-slow")
		}
		return
	}
	if bad {
		q.Bad = true
	}
	r.fired("http-" + kind)
}

// wrongDoc makes a well-formed document that differs from the announced one:
// an object replaced by another one, one dropped, or one added.
func wrongDoc(q *Req, r *Run) []byte {
	v := *q.Ver
	v.Content = map[string]*Obj{}
	var us []string
	for u, o := range q.Ver.Content {
		v.Content[u] = o
		us = append(us, u)
	}
	sort.Strings(us)
	if len(us) == 0 {
		return []byte("<snapshot/>")
	}
	u := us[r.net.Intn(len(us))]
	if q.Doc == "delta" {
		if len(q.Ver.Pub) > 0 && r.net.Chance(0.5) {
			v.Pub = q.Ver.Pub[1:]
		} else {
			v.Wd = append(append([]string{}, q.Ver.Wd...), u)
		}
		return q.Srv.DeltaXML(&v, q.Srv.Version(v.Session, v.Serial-1))
	}
	delete(v.Content, u)
	return q.Srv.SnapshotXML(&v)
}

// --- rsync ---

func (r *Run) execStart(t *verifsim.Task, e *verifsim.ExecReq) error {
	uri := ""
	for _, a := range e.Args {
		if strings.HasPrefix(a, "rsync://") {
			uri = a
		}
	}
	q := r.newReq(t, uri)
	q.Doc = "rsync"
	q.Host = strings.SplitN(strings.TrimPrefix(uri, "rsync://"), "/", 2)[0]
	q.Module = strings.TrimSuffix(uri, "/")
	r.reqStart(q)
	r.logf("exec #%d %v round=%d", q.Seq, e.Args, q.Round)
	if f := r.peekFault(q.Host, "rsync", "execfail"); f != nil {
		r.fired("rsync-execfail")
		q.Done, q.End, q.Bad, q.Fault = true, time.Now(), true, "execfail"
		r.reqDone(q)
		return errors.New("fork/exec /usr/bin/rsync: resource temporarily unavailable")
	}
	r.children[e] = q
	return nil
}

func (r *Run) execEnd(e *verifsim.ExecReq, code int) {
	q := r.children[e]
	if q == nil {
		return
	}
	q.Done, q.End = true, time.Now()
	if code == 0 && q.Fault == "" {
		q.Complete = true
	}
	if code != 0 {
		q.Bad = true
	}
	r.logf("exec done #%d %s code=%d", q.Seq, q.URL, code)
	r.reqDone(q)
}

type rsyncFile struct {
	rel  string
	data []byte
	link string
}

func (r *Run) runRsync(e *verifsim.ExecReq) int {
	q := r.children[e]
	r.childOf[e.Proc] = q
	say := func(w io.Writer, s string) bool {
		if w == nil {
			return true
		}
		_, err := io.WriteString(w, s)
		return err == nil
	}
	flags, dir := "", ""
	var pos []string
	for _, a := range e.Args {
		if strings.HasPrefix(a, "-") {
			flags += strings.TrimLeft(a, "-")
		} else if a != e.Path && !strings.HasSuffix(a, "/rsync") {
			pos = append(pos, a)
		}
	}
	if len(pos) != 2 {
		say(e.Stderr, "rsync: usage\n")
		return 1
	}
	dir = pos[1]
	links := strings.Contains(flags, "l") || strings.Contains(flags, "a")
	f := r.activeFault(q.Host, "rsync")
	kind, P := "", 0
	if f != nil {
		kind, P = f.Kind, f.P
		q.Fault = kind
		r.fired("rsync-" + kind)
	}
	verifsim.Sleep(time.Duration(5+r.net.Intn(200)) * time.Millisecond)
	switch kind {
	case "refuse", "dns", "status":
		say(e.Stderr, "rsync: failed to connect to "+q.Host+": Connection refused (111)\n")
		return 10
	case "hang":
		verifsim.Sleep(240 * time.Hour)
		return 30
	case "slow":
		verifsim.Sleep(time.Duration(1+P%15) * time.Second)
		q.Fault = ""
	case "flood":
		for i := 0; i < 300; i++ {
			if !say(e.Stdout, fmt.Sprintf("deleting x%d.cer\n", i)) || !say(e.Stderr, strings.Repeat("noise ", 50)+"\n") {
				return 12
			}
		}
	case "longline":
		if !say(e.Stdout, strings.Repeat("A", 70000+P%1000)+".roa\n") {
			return 12
		}
		if !say(e.Stderr, strings.Repeat("B", 70000)+"\n") {
			return 12
		}
	}
	spec := strings.TrimPrefix(q.URL, "rsync://")
	slash := strings.HasSuffix(spec, "/")
	spec = strings.TrimSuffix(spec, "/")
	parts := strings.SplitN(spec, "/", 2)
	host := r.w.Hosts[parts[0]]
	if host == nil || len(parts) < 2 || parts[1] == "" {
		say(e.Stderr, "@ERROR: Unknown module\n")
		return 5
	}
	want := path.Clean("/" + parts[1])[1:]
	mod := strings.SplitN(want, "/", 2)[0]
	known := false
	var list []rsyncFile
	add := func(p string, d []byte, link string) {
		if strings.SplitN(p, "/", 2)[0] == mod {
			known = true
		}
		switch {
		case p == want:
			list = append(list, rsyncFile{path.Base(p), d, link})
		case strings.HasPrefix(p, want+"/"):
			rel := strings.TrimPrefix(p, want+"/")
			if !slash && strings.Contains(want, "/") { // not a module root: the directory itself is copied
				rel = path.Base(want) + "/" + rel
			}
			list = append(list, rsyncFile{rel, d, link})
		}
	}
	for _, p := range sortedKeys(host.Tree) {
		o := host.Tree[p]
		add(p, o.Data, "")
	}
	for _, p := range sortedKeys(host.Junk) {
		d := host.Junk[p]
		if rel, ok := strings.CutPrefix(p, "any:"); ok { // served whatever is asked for; rsync refuses ".." itself
			if !strings.HasPrefix(rel, "../") && path.Clean(rel) == rel {
				known = true
				list = append(list, rsyncFile{rel, d, "any"})
			}
			continue
		}
		add(p, d, "")
	}
	for _, p := range sortedKeys(host.Sym) {
		l := host.Sym[p]
		add(p, nil, l)
	}
	if !known {
		say(e.Stderr, "@ERROR: Unknown module '"+mod+"'\n")
		return 5
	}
	if len(list) == 0 {
		say(e.Stderr, "rsync: link_stat failed: No such file or directory (2)\n")
		return 23
	}
	sort.Slice(list, func(i, j int) bool { return list[i].rel < list[j].rel })
	if !say(e.Stdout, "receiving incremental file list\n") {
		return 12
	}
	limit := len(list)
	if kind == "partial" || kind == "hangmid" || kind == "trunc" {
		limit = P % (len(list) + 1)
	}
	code := 0
	fs := r.fs
	for i, x := range list {
		if i >= limit {
			if kind == "hangmid" {
				verifsim.Sleep(240 * time.Hour)
			}
			say(e.Stderr, "rsync: connection unexpectedly closed\n")
			return 12
		}
		if r.net.Chance(0.1) {
			verifsim.Sleep(time.Duration(1+r.net.Intn(50)) * time.Millisecond)
		}
		dst := dir + "/" + x.rel
		if x.link != "" && x.link != "any" {
			if !links {
				say(e.Stdout, "skipping non-regular file \""+x.rel+"\"\n")
				continue
			}
			if err := fs.MkdirAll(path.Dir(dst), 0755); err != nil {
				code = 23
				continue
			}
			if cur, err := fs.Readlink(dst); err == nil && cur == x.link {
				continue
			}
			if fi, err := fs.Stat(dst, false); err == nil {
				if fi.IsDir() {
					fs.RemoveAll(dst)
				} else {
					fs.Remove(dst)
				}
			}
			if err := fs.Symlink(x.link, dst); err != nil {
				code = 23
			}
			continue
		}
		// the current content may have changed while the transfer goes on
		data := x.data
		full := strings.TrimSuffix(want+"/"+x.rel, "/")
		if !slash && strings.Contains(want, "/") && path.Base(want) == strings.SplitN(x.rel, "/", 2)[0] {
			full = path.Dir(want) + "/" + x.rel
		}
		if _, was := host.Junk[full]; !was && x.link != "any" {
			o := host.Tree[full]
			if o == nil {
				say(e.Stderr, "file has vanished: "+x.rel+"\n")
				code = 24
				continue
			}
			data = o.Data
		}
		if kind == "corrupt" && i == P%len(list) && len(data) > 0 {
			data = append([]byte{}, data...)
			data[(P*131)%len(data)] ^= 0x41
		}
		if cur, ok := fs.ReadRaw(dst); ok && bytes.Equal(cur, data) {
			continue
		}
		if err := r.rsyncWrite(dst, data); err != nil {
			say(e.Stderr, fmt.Sprintf("rsync: %v\n", err))
			code = 23
			continue
		}
		if !say(e.Stdout, x.rel+"\n") {
			return 12
		}
	}
	if !say(e.Stdout, "\nsent 43 bytes  received 100 bytes\n") {
		return 12
	}
	if kind == "exitcode" {
		return []int{1, 23, 30, 255}[P%4]
	}
	if kind == "flood" || kind == "longline" || kind == "corrupt" {
		q.Fault = kind
	}
	return code
}

// rsyncWrite writes a temporary file next to dst and renames it.
func (r *Run) rsyncWrite(dst string, data []byte) error {
	fs := r.fs
	d := path.Dir(dst)
	if err := fs.MkdirAll(d, 0755); err != nil {
		return err
	}
	if fi, err := fs.Stat(dst, false); err == nil && fi.IsDir() {
		if err := fs.Remove(dst); err != nil {
			return err
		}
	}
	tmp := d + "/." + path.Base(dst) + fmt.Sprintf(".%06x", r.net.Intn(1<<24))
	h, err := fs.OpenFile(tmp, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_EXCL, 0600)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	h.Close()
	if err == nil {
		err = fs.Rename(tmp, dst)
	}
	if err != nil {
		fs.Remove(tmp)
	}
	return err
}

// --- certificate transparency log ---

func ctChain(body []byte) [][32]byte {
	var m struct {
		Chain []string `json:"chain"`
	}
	if json.Unmarshal(body, &m) != nil {
		return nil
	}
	var out [][32]byte
	for _, c := range m.Chain {
		b, err := base64.StdEncoding.DecodeString(c)
		if err != nil {
			return nil
		}
		out = append(out, sha256.Sum256(b))
	}
	return out
}
