//go:build go1.22

package harness

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509"
	"encoding/pem"
	"flag"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
	"github.com/cloudflare/cfrpki/verifsim/shim/vhttp"
	"github.com/cloudflare/cfrpki/verifsim/shim/vos"
	log "github.com/sirupsen/logrus"
)

const cacheDir = "/work/cache"

// Violation of one property in one run.
type Violation struct {
	Prop string `json:"property"`
	Key  string `json:"key"` // class of the violation, stable under minimisation
	Msg  string `json:"msg"`
	At   int64  `json:"at_ms"`
}

// Run is one simulated execution.
type Run struct {
	Plan      *Plan
	w         *World
	sim       *verifsim.Sim
	fs        *verifsim.FS
	net       *verifsim.Rand // network and storage decisions
	evr       *verifsim.Rand // repository decisions
	start     time.Time
	main      func()
	Reqs      []*Req
	lastNote  map[*verifsim.Task]string // the RRDP server each task is fetching from
	oversized int                       // responses of more than a gigabyte
	Faults    map[string]int
	Exer      map[string]int // non-trivial evaluations per property
	Static    map[string][]byte
	children  map[*verifsim.ExecReq]*Req
	childOf   map[*verifsim.Proc]*Req
	Viol      []Violation
	Lines     []string
	Keep      bool // keep the log
	Console   bytes.Buffer

	ended    bool
	exits    int
	endMs    int64
	healed   bool
	changes  int
	healedAt time.Time
	items    []item
	itemSeq  int
	kick     chan struct{}
	done     bool

	proc       *verifsim.Proc // running validator
	handler    http.Handler
	ps         map[*verifsim.Proc]*procState
	all        []*procState
	skew       time.Duration
	skewed     bool
	crashed    int
	armed      *Crash
	armedOps   int
	writeFault []faultAt
	readFaults int
	fullUntil  int64
	stallBase  uint64
	out        int // outstanding retrievals
	unreadyAt  time.Time
	divergedAt time.Time
	convAt     time.Time
	finalSince time.Time
	clients    []*clientState
	key        *ecdsa.PrivateKey
	rsyncSeen  map[string]int
	hostileKey map[int]bool
	talPaths   map[string]*TA
	evilHosts  map[string]bool
	endless    map[string]*CA
	epoch      int
	prevOut    []byte
	prevOutOK  bool
	oneoffOK   int
	oneoffEnds int // ended normally after the faults
	domains    map[string]bool
	wantProp   string
	docs       int
	lastBad    string
	local      *localState
	ov         *OVRun
}

type faultAt struct {
	at   time.Time
	path string
	proc *verifsim.Proc
}

type item struct {
	at  int64
	seq int
	f   func()
}

// procState is what the monitors know about one life of the validator process.
type procState struct {
	p         *verifsim.Proc
	idx       int
	started   bool
	windows   []*Window
	cur       *Window
	attempted map[string]int   // URL or module -> first round in which it was requested
	localFail map[string][]int // directories that could not be prepared -> rounds
	ok        map[string]int
	pairs     map[string]map[string]bool // module -> RRDP URLs ever possibly used with it
	outWrites int
	listenAt  time.Time
	readFault map[string]int // cache path -> round of the last read that failed
	mixed     map[int]bool   // RRDP servers whose files rsync or failed writes may have touched
	failedIn  map[int]int
	idleAt    time.Time
}

// Window is one validation: from the first locator read to the next retrieval.
type Window struct {
	N         int
	ps        *procState
	At, End   time.Time
	T0, T1    time.Time // the validator's clock
	Files     map[string][]byte
	Faulted   map[string]bool
	NoTAL     map[int]bool
	Dirty     bool
	Jump      bool
	Closed    bool
	seen      map[string]bool
	Limit     bool      // the iteration limit may have been reached
	LimitMin  bool      // it certainly has
	Consec    int       // validations without a pause: at most
	ConsecMin int       // at least
	Next      time.Time // first activity afterwards
	lres      *Result
	ures      *Result
	stallAt0  uint64
	reqs      int
}

func (r *Run) ms() int64 {
	if r.ended {
		return r.endMs
	}
	return time.Since(r.start).Milliseconds()
}

func (r *Run) logf(f string, a ...any) {
	s := fmt.Sprintf("%9d %s", r.ms(), fmt.Sprintf(f, a...))
	r.sim.Mix(s)
	if r.Keep {
		r.Lines = append(r.Lines, s)
	}
}

func (r *Run) violate(prop, key, f string, a ...any) {
	for _, v := range r.Viol {
		if v.Prop == prop && v.Key == key {
			return
		}
	}
	v := Violation{prop, key, fmt.Sprintf(f, a...), r.ms()}
	r.Viol = append(r.Viol, v)
	r.logf("VIOLATION %s [%s] %s", prop, key, v.Msg)
	if r.wantProp == prop {
		r.finish()
	}
}

func (r *Run) finish() {
	if !r.done {
		r.done = true
		r.wakeDirector()
	}
}

func (r *Run) wakeDirector() {
	select {
	case r.kick <- struct{}{}:
	default:
	}
}

func (r *Run) at(ms int64, f func()) {
	r.itemSeq++
	r.items = append(r.items, item{ms, r.itemSeq, f})
	sort.SliceStable(r.items, func(i, j int) bool { return r.items[i].at < r.items[j].at })
	r.wakeDirector()
}

func (r *Run) after(d time.Duration, f func()) { r.at(r.ms()+d.Milliseconds(), f) }

// wall is the simulated host's clock.
func (r *Run) wall(t time.Time) time.Time { return t.Add(r.skew) }

var signKeyD = big.NewInt(0).SetBytes([]byte("verifsim fixed P-256 signing k.."))

func fixedKey() *ecdsa.PrivateKey {
	k := &ecdsa.PrivateKey{D: new(big.Int).Set(signKeyD)}
	k.Curve = elliptic.P256()
	k.X, k.Y = k.Curve.ScalarBaseMult(k.D.Bytes())
	return k
}

// Execute performs the run; it is called in the bubble's root goroutine.
func Execute(p *Plan, main func(), want string, keep bool) *Run {
	r := &Run{Plan: p, main: main, Faults: map[string]int{}, Exer: map[string]int{}, lastNote: map[*verifsim.Task]string{}, Static: map[string][]byte{}, children: map[*verifsim.ExecReq]*Req{},
		childOf: map[*verifsim.Proc]*Req{}, ps: map[*verifsim.Proc]*procState{}, kick: make(chan struct{}, 1), Keep: keep, wantProp: want,
		rsyncSeen: map[string]int{}, hostileKey: map[int]bool{}, talPaths: map[string]*TA{}, evilHosts: map[string]bool{}, endless: map[string]*CA{}, domains: map[string]bool{}}
	r.start = time.Now()
	current = r
	if localKind(p.Kind) {
		r.local = &localState{}
	}
	s := verifsim.NewSim(p.Sched.Seed)
	if tf := os.Getenv("VERIFSIM_TRACE"); tf != "" {
		if f, err := os.Create(tf); err == nil {
			s.Trace = f
		}
	}
	r.sim = s
	rr := verifsim.NewRand(p.Seed ^ 0xabcdef)
	r.net, r.evr = rr.Fork(11), rr.Fork(12)
	s.MeanGap = p.Sched.MeanGap
	s.StallProb = p.Sched.StallProb
	s.WindowProb = p.Sched.Window
	s.MaxStall = time.Duration(p.Sched.MaxStall) * time.Millisecond
	s.StallUntil = r.start.Add(time.Duration(p.Horizon) * time.Millisecond)
	s.MaxYields = 60_000_000
	r.fs = verifsim.NewFS()
	s.Disk = r.fs
	s.Console = io.Discard
	if keep {
		s.Console = &r.Console
	}
	s.Clock = r.wall
	s.HTTP = r.serveHTTP
	s.ExecStart = r.execStart
	s.Late = func(t *verifsim.Task, what []string) {
		if ps := r.ps[t.Proc]; ps != nil && s.Stalls > 0 { // it was off the processor for all that time
			for _, u := range what {
				ps.localFail[strings.TrimPrefix(strings.TrimSuffix(u, "/"), "rsync://")] = append(ps.localFail[strings.TrimPrefix(strings.TrimSuffix(u, "/"), "rsync://")], len(ps.windows))
			}
		}
	}
	s.Exec = r.runRsync
	s.ExecEnd = r.execEnd
	s.OnOp = r.onOp
	s.OnExit = r.onExit
	s.Listen = func(t *verifsim.Task, addr string, h http.Handler) error {
		r.handler = h
		if ps := r.ps[t.Proc]; ps != nil {
			ps.listenAt = time.Now()
		}
		return nil
	}
	r.fs.OnMutate = r.onMutate
	r.fs.Fault = r.diskFault
	for i := range p.Net {
		p.Net[i].n = 0
	}
	for i := range p.Disk {
		p.Disk[i].n = 0
	}
	s.Run(func() {
		defer s.Stop()
		r.build()
		r.direct()
		r.endMs = r.ms()
		r.ended = true
	})
	return r
}

func resetProcess() {
	flag.CommandLine.VisitAll(func(f *flag.Flag) {
		if !strings.HasPrefix(f.Name, "test.") {
			f.Value.Set(f.DefValue)
		}
	})
	verifsim.ResetGlobals()
	*http.DefaultServeMux = http.ServeMux{}
	http.DefaultTransport = &vhttp.Transport{}
	http.DefaultClient = &http.Client{}
	log.SetOutput(vos.Stderr)
	log.SetLevel(log.InfoLevel)
	log.StandardLogger().ExitFunc = verifsim.Exit
}

// --- world construction ---

func (r *Run) build() {
	p := r.Plan
	w := NewWorld(r.evr.Fork(1), time.Now)
	w.SameNames = r.Plan.Extra["samenames"] != 0
	w.BER = r.Plan.Extra["ber"] != 0
	r.w = w
	if p.Kind == "ov" {
		return
	}
	w.Log = func(s string) { r.logf("world %s", s) }
	for i := range p.RRDPs {
		w.AddRRDP(hostName(p.RRDPs[i].Host))
		w.RRDPs[i].Spaces = p.RRDPs[i].Spaces
	}
	for i, t := range p.TAs {
		var us []string
		for k := 0; k < t.HTTP; k++ {
			us = append(us, fmt.Sprintf("https://tal%d-%d.sim/ta%d.cer", i, k, i))
		}
		ta := w.AddTA(hostName(t.Host), "m0", us, t.Rsync, t.Order, t.All)
		ta.CRLF = t.CRLF
		if i == 0 && r.Plan.Extra["mapped"] == 2 { // holds the IPv6 addresses that stand for IPv4 ones, too
			ta.CA.Res.V6 = canon(append(ta.CA.Res.V6, pfx("::ffff:0.0.0.0/96")))
			w.IssueTA(ta, ta.CA.CertVal)
		}
		if t.RRDP >= 0 && t.RRDP < len(w.RRDPs) {
			ta.CA.RRDP = w.RRDPs[t.RRDP]
			w.IssueTA(ta, ta.CA.CertVal)
		}
		r.talPaths[ta.TALPath] = ta
		r.fs.WriteRaw(ta.TALPath, talText(ta.Order, ta.Key, ta.CRLF))
	}
	var cas []*CA
	for _, c := range p.CAs {
		var par *CA
		if c.Parent >= 0 {
			par = w.TAs[c.Parent%len(w.TAs)].CA
		} else if i := -c.Parent - 1; i < len(cas) {
			par = cas[i]
		} else {
			par = w.TAs[0].CA
		}
		o := CAOpts{Host: hostName(c.Host), Module: fmt.Sprintf("m%d", c.Module), Inherit: c.Inherit, RangeRes: c.Range, Multi: c.Multi, Hostile: c.Hostile}
		if c.RRDP >= 0 && c.RRDP < len(w.RRDPs) {
			o.RRDP = w.RRDPs[c.RRDP]
		}
		ca := w.AddCA(par, o)
		if ca.Hostile {
			r.hostileKey[ca.Key.ID] = true
			r.evilHosts[ca.Host] = true
		}
		for k := 0; k < c.ROAs; k++ {
			w.AddROA(ca, "")
		}
		for _, m := range c.Modes {
			w.AddROA(ca, m)
		}
		cas = append(cas, ca)
	}
	for i, t := range p.TAs {
		for k := 0; k < t.ROAs; k++ {
			w.AddROA(w.TAs[i].CA, "")
		}
	}
	r.shapeWorld()
	for i := len(w.CAs) - 1; i >= 0; i-- {
		w.Commit(w.CAs[i])
	}
	r.installEvil()
	for _, s := range w.RRDPs {
		w.Sync(s)
	}
	r.key = fixedKey()
	der, err := x509.MarshalECPrivateKey(r.key)
	if err != nil {
		panic(err)
	}
	r.fs.WriteRaw("/work/private.pem", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der}))
	r.fs.WriteRaw("/work/keep/secret.txt", []byte("outside the cache"))
	if p.Extra["preseed"] != 0 {
		// a cache left behind by an earlier installation
		ideal := w.Ideal()
		for _, rel := range sortedKeys(ideal) {
			if r.net.Chance(0.7) {
				r.fs.WriteRaw(cacheDir+"/"+rel, ideal[rel])
			}
		}
	}
}

func hostName(n int) string { return fmt.Sprintf("h%d.sim", n) }

func (r *Run) isCT() bool { return r.Plan.CT > 0 }

func (r *Run) args() []string {
	p := r.Plan
	var paths, names []string
	for _, ta := range r.w.TAs {
		paths = append(paths, strings.TrimPrefix(ta.TALPath, "/work/"))
		names = append(names, ta.Name)
	}
	a := []string{"octorpki", "-tal.root=" + strings.Join(paths, ","), "-tal.name=" + strings.Join(names, ","),
		fmt.Sprintf("-refresh=%ds", p.Refresh), fmt.Sprintf("-rsync.timeout=%ds", p.RsyncTO),
		fmt.Sprintf("-max_concurrent_retrievals=%d", p.MaxConc), fmt.Sprintf("-max.iterations=%d", p.MaxIter),
		fmt.Sprintf("-output.sign=%v", p.Sign), fmt.Sprintf("-output.sign.validity=%ds", p.Validity)}
	if p.NoFail {
		a = append(a, "-rrdp.failover=false")
	}
	if p.NoRRDP {
		a = append(a, "-rrdp=false")
	}
	if p.NoWait {
		a = append(a, "-output.wait=false")
	}
	if p.NoStrict {
		a = append(a, "-strict.manifests=false")
	}
	if p.NoFilter {
		a = append(a, "-filter=false")
	}
	if p.CT > 0 {
		a = append(a, "-ct", "-ct.addr=https://ct.sim", fmt.Sprintf("-ct.threads=%d", p.CT), "-ct.timeout=5")
	}
	if p.Kind == "oneoff" {
		a = append(a, "-mode=oneoff")
	}
	return append(a, p.Flags...)
}

func (r *Run) startServer() {
	if r.proc != nil && !r.proc.Dead() || r.done {
		return
	}
	resetProcess()
	args := r.args()
	os.Args = args
	vos.Args = args
	r.handler = nil
	p := r.sim.NewProc("octorpki")
	r.proc = p
	ps := &procState{p: p, idx: len(r.all), attempted: map[string]int{}, ok: map[string]int{}, pairs: map[string]map[string]bool{}, readFault: map[string]int{}, mixed: map[int]bool{}, failedIn: map[int]int{}, localFail: map[string][]int{}}
	if r.Faults["disk-write-EIO"]+len(r.writeFault) > 0 || r.Faults["disk-full"] > 0 {
		for _, s := range r.w.RRDPs {
			ps.mixed[s.ID] = true
		}
	}
	r.ps[p] = ps
	r.all = append(r.all, ps)
	r.out = 0
	if b, ok := r.fs.ReadRaw("/work/output.json"); ok {
		r.prevOut, r.prevOutOK = b, true
	} else {
		r.prevOut, r.prevOutOK = nil, false
	}
	r.logf("start validator #%d %v", ps.idx, args[1:])
	r.sim.Spawn(p, "main", func() {
		r.main()
		verifsim.Exit(0)
	})
}

func (r *Run) restartIn(d time.Duration) {
	r.after(d, func() { r.startServer() })
}

func (r *Run) onExit(p *verifsim.Proc) {
	if r.ov != nil && p == r.proc {
		r.ovExit(p)
		return
	}
	if r.local != nil && p == r.proc {
		r.localExit(p)
		return
	}
	ps := r.ps[p]
	if ps == nil {
		return
	}
	r.closeWindow(ps)
	for _, q := range r.Reqs {
		if q.Proc == p && !q.Done && q.Doc != "rsync" {
			q.Done, q.Bad, q.End = true, true, time.Now()
		}
	}
	r.out = 0
	if p.Killed {
		r.logf("validator #%d killed", ps.idx)
		r.crashed++
		if r.Plan.Kind == "oneoff" {
			r.checkOneoffExit(ps)
		}
		return
	}
	r.logf("validator #%d exited code=%d panic=%q", ps.idx, p.ExitCode, p.Panic)
	if r.Plan.Kind == "oneoff" {
		r.checkOneoffExit(ps)
		if p.Panic != "" {
			r.violate("C04", "exit:"+panicKey(p), "the process panicked: %s\n%s", p.Panic, trimStack(p.Stack))
		}
		r.restartIn(time.Duration(r.Plan.Refresh) * time.Second)
		return
	}
	what := fmt.Sprintf("exit code %d", p.ExitCode)
	if p.Panic != "" {
		what = "panic: " + p.Panic + "\n" + trimStack(p.Stack)
	}
	r.violate("C04", "exit:"+panicKey(p), "the validator stopped by itself: %s", what)
	if !ps.started && ps.idx > 0 && r.crashed > 0 {
		r.violate("C06", "start", "the validator did not start on the files left behind by a crash: %s", what)
	}
	r.exits++
	if r.exits >= 4 {
		r.finish() // it will not stay up
		return
	}
	r.restartIn(time.Duration(1+r.net.Intn(4)) * time.Second)
}

func panicKey(p *verifsim.Proc) string {
	if p.Panic == "" {
		return fmt.Sprintf("code%d", p.ExitCode)
	}
	for _, l := range strings.Split(p.Stack, "\n") {
		if strings.HasPrefix(l, "github.com/cloudflare/cfrpki/") && !strings.Contains(l, "/verifsim") || strings.HasPrefix(l, "main.") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return path.Base(l)
		}
	}
	return "panic"
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "cfrpki") && !strings.Contains(l, "verifsim") || strings.HasPrefix(l, "main.") {
			out = append(out, l)
		}
		if len(out) >= 10 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// --- the director: repository changes, crashes, clients, clock ---

func (r *Run) direct() {
	p := r.Plan
	for i := range p.Events {
		if p.Kind == "ov" {
			break
		}
		e := p.Events[i]
		r.at(e.At, func() { r.event(e) })
	}
	for i := range p.Crashes {
		c := p.Crashes[i]
		r.at(c.At, func() { r.crash(c) })
	}
	for i := range p.Clock {
		c := p.Clock[i]
		r.at(c.At, func() {
			r.skew += time.Duration(c.By) * time.Millisecond
			r.skewed = true
			r.fired("clock-jump")
			r.logf("clock jumps by %d ms", c.By)
			for _, ps := range r.all {
				if ps.cur != nil {
					ps.cur.Jump = true
				}
			}
		})
	}
	if p.Kind == "server" {
		for i := range p.Clients {
			c := &clientState{c: p.Clients[i], id: i}
			r.clients = append(r.clients, c)
			r.at(c.c.At, func() { r.clientTick(c) })
		}
	}
	for i := range p.Disk {
		d := p.Disk[i]
		if d.Op == "full" {
			r.at(d.From, func() {
				r.fs.Capacity = r.fs.Used + int64(len(d.Match)*97)
				r.fullUntil = d.To
				r.fired("disk-full")
				r.logf("disk full from here: %d bytes", r.fs.Capacity)
			})
			r.at(d.To, func() { r.fs.Capacity = 0 })
		}
	}
	if p.Kind == "ov" {
		r.at(0, r.ovStart)
	} else if localKind(p.Kind) {
		r.localHistory()
		r.at(p.Horizon, r.localStart)
	} else {
		r.at(p.Horizon, r.heal)
		r.at(30000, r.watch)
		r.startServer()
	}
	for !r.done {
		now := r.ms()
		for len(r.items) > 0 && r.items[0].at <= now && !r.done {
			it := r.items[0]
			r.items = r.items[1:]
			it.f()
			now = r.ms()
		}
		if r.done {
			break
		}
		d := time.Hour
		if len(r.items) > 0 {
			d = time.Duration(r.items[0].at-now) * time.Millisecond
		}
		tm := time.NewTimer(d)
		select {
		case <-tm.C:
		case <-r.kick:
		}
		tm.Stop()
		verifsim.Enter()
	}
	for _, ps := range r.all {
		if !ps.p.Dead() {
			r.closeWindow(ps)
		}
	}
	r.logf("end of run")
}

func (r *Run) crash(c Crash) {
	if r.proc == nil || r.proc.Dead() || r.healed {
		return
	}
	if c.Op > 0 {
		r.armed, r.armedOps = &c, c.Op
		r.logf("crash armed: at the %d-th change of the disk", c.Op)
		return
	}
	r.fired("crash")
	r.sim.Kill(r.proc)
	r.restartIn(time.Duration(c.Restart) * time.Millisecond)
}

func (r *Run) heal() {
	if r.healed {
		return
	}
	r.healed = true
	r.healedAt = time.Now()
	r.fs.Capacity = 0
	r.armed = nil
	for _, s := range r.w.RRDPs {
		if s.Keep > 0 {
			r.w.Sync(s)
		}
	}
	r.logf("faults have stopped")
	r.stallBase = r.sim.Stalls
	if r.Plan.Kind == "server" {
		r.after(3*time.Second, r.monitorTick)
	}
	r.late()
	if r.proc == nil || r.proc.Dead() {
		r.restartIn(time.Second)
	}
}

// late is called when what is published changes: after the faults have stopped,
// convergence starts anew.
func (r *Run) late() {
	if !r.healed || r.done {
		return
	}
	r.changes++
	n := r.changes
	r.convAt = time.Time{}
	r.at(r.ms()+r.deadline(), func() {
		if n == r.changes {
			r.deadlineHit()
		}
	})
}

// stuckFaults counts fault sources that never end.
func (r *Run) neverEnding() int {
	n := 0
	for _, f := range r.Plan.Net {
		if f.To == 0 {
			n++
		}
	}
	return n
}

// deadline is how long after the last fault convergence may take.
func (r *Run) deadline() int64 {
	d := int64(600) + 6*(r.Plan.Refresh+60)
	if n := r.neverEnding(); n > 0 || len(r.endless) > 0 {
		d += int64(n) * 6 * (r.Plan.RsyncTO + 60*12)
	}
	if len(r.endless) > 0 {
		d += int64(r.Plan.MaxIter+2) * int64(r.Plan.MaxIter+2) * (r.Plan.RsyncTO + 130)
	}
	return d * 1000
}

// watch looks for a validator that stopped revalidating.
func (r *Run) watch() {
	if r.done {
		return
	}
	r.after(30*time.Second, r.watch)
	if r.proc == nil || r.proc.Dead() || r.Plan.Kind != "server" {
		return
	}
	ps := r.ps[r.proc]
	if len(r.Faults) > 0 {
		r.Exer["C04"]++
	}
	last := ps.p.Started
	if n := len(ps.windows); n > 0 {
		last = ps.windows[n-1].At
	}
	if b := r.roundBound(ps, len(ps.windows)) + 30*time.Second; time.Since(last) > b {
		if r.Viol == nil || true {
			blocked := r.sim.Blocked(r.proc)
			r.violate("C12", "stuck", "no revalidation for %v although everything done since accounts for at most %v; waiting: %v", time.Since(last), b, blocked)
			if r.Plan.CT > 0 {
				r.violate("C17", "stuck", "nothing for %v (waiting: %v)", time.Since(last), blocked)
			}
			r.violate("C04", "stuck", "the validator stopped revalidating: nothing for %v (waiting: %v)", time.Since(last), blocked)
			r.finish()
		}
	}
}

// roundBound is how long round n of ps may take given what it requested.
func (r *Run) roundBound(ps *procState, n int) time.Duration {
	b := time.Duration(r.Plan.Refresh)*time.Second + 5*time.Second
	for i := len(r.Reqs) - 1; i >= 0; i-- {
		q := r.Reqs[i]
		if q.Proc != ps.p || q.Round < n {
			if q.Proc == ps.p {
				break
			}
			continue
		}
		switch q.Doc {
		case "rsync":
			b += time.Duration(r.Plan.RsyncTO+2) * time.Second
		case "ct":
			b += 7 * time.Second
		default:
			b += 62 * time.Second
		}
	}
	if r.sim.StallProb > 0 {
		st := ps.p.Started
		var s0 uint64
		if n > 0 && n <= len(ps.windows) {
			s0 = ps.windows[n-1].stallAt0
			st = ps.windows[n-1].At
		}
		_ = st
		b += time.Duration(r.sim.Stalls-s0) * r.sim.MaxStall
	}
	return b
}

// --- disk ---

var errnos = map[string]error{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EMFILE": syscall.EMFILE, "EACCES": syscall.EACCES, "EDQUOT": syscall.EDQUOT}

func (r *Run) diskFault(t *verifsim.Task, op, p string) (error, int) {
	if r.healed || len(r.Plan.Disk) == 0 {
		return nil, 0
	}
	ps := r.ps[t.Proc]
	if ps != nil && !ps.started {
		return nil, 0 // the start-up phase is out of scope
	}
	now := r.ms()
	for i := range r.Plan.Disk {
		d := &r.Plan.Disk[i]
		if d.Op != op || now < d.From || now >= d.To || !strings.Contains(r.fs.Abs(p), d.Match) {
			continue
		}
		d.n++
		if d.Every > 1 && d.n%d.Every != 0 {
			continue
		}
		e := errnos[d.Err]
		r.fired("disk-" + op + "-" + d.Err)
		r.logf("disk fault %s %s %s", op, p, d.Err)
		rel := cleanRel(strings.TrimPrefix(path.Clean(r.fs.Abs(p)), cacheDir+"/"))
		if (op == "mkdir" || op == "stat") && ps != nil && strings.HasPrefix(path.Clean(r.fs.Abs(p)), cacheDir+"/") {
			// the directory of a repository could not be prepared: that counts as an attempt to fetch it
			ps.localFail[rel] = append(ps.localFail[rel], len(ps.windows))
		}
		if r.local != nil {
			r.localFault(op, path.Clean(r.fs.Abs(p)))
			return e, d.Short
		}
		switch op {
		case "open-r", "read", "stat":
			r.readFaults++
			if ps != nil {
				ps.readFault[rel] = len(ps.windows)
			}
			if ps != nil && ps.cur != nil {
				if ta := r.talPaths[path.Clean(r.fs.Abs(p))]; ta != nil {
					ps.cur.NoTAL[ta.ID] = true
				}
				ps.cur.Faulted[rel] = true
				for f := range ps.cur.Files {
					if strings.HasPrefix(f, rel+"/") {
						ps.cur.Faulted[f] = true
					}
				}
			}
		default:
			r.writeFault = append(r.writeFault, faultAt{time.Now(), r.fs.Abs(p), t.Proc})
		}
		return e, d.Short
	}
	return nil, 0
}

// wfSince: did a write fail at or after t?
func (r *Run) wfSince(t time.Time) bool {
	if r.Faults["disk-full"] > 0 {
		// full-disk windows are not tracked per operation
		for i := range r.Plan.Disk {
			d := &r.Plan.Disk[i]
			if d.Op == "full" && d.To >= t.Sub(r.start).Milliseconds() && d.From <= r.ms() {
				return true
			}
		}
	}
	n := len(r.writeFault)
	return n > 0 && !r.writeFault[n-1].at.Before(t)
}

func (r *Run) onMutate(t *verifsim.Task, op, real string) {
	ps := r.ps[t.Proc]
	r.checkMutation(t, ps, op, real)
	if strings.HasPrefix(real, cacheDir+"/") {
		if ps != nil {
			r.closeWindow(ps)
		} else {
			for _, x := range r.all {
				if x.cur != nil && !x.p.Dead() {
					x.cur.Dirty = true
				}
			}
		}
	}
	if ps == nil && t.Proc.Name != "child" {
		return
	}
	if r.armed != nil && r.proc != nil && !r.proc.Dead() {
		r.armedOps--
		if r.armedOps <= 0 {
			c := r.armed
			r.armed = nil
			r.fired("crash-at-write")
			r.logf("crash right after %s %s", op, real)
			r.restartIn(time.Duration(c.Restart) * time.Millisecond)
			r.sim.Kill(r.proc)
		}
	}
}

// --- validation windows ---

func (r *Run) onOp(t *verifsim.Task, kind, detail string) {
	ps := r.ps[t.Proc]
	if ps == nil {
		return
	}
	switch kind {
	case "fs.open-r":
		if r.talPaths[path.Clean(r.fs.Abs(detail))] != nil {
			r.talOpen(ps, path.Clean(r.fs.Abs(detail)))
		}
	case "http", "exec":
		r.closeWindow(ps)
		if n := len(ps.windows); n > 0 && ps.windows[n-1].Next.IsZero() && !strings.Contains(detail, "ct.sim") {
			ps.windows[n-1].Next = time.Now()
		}
	}
}

func (r *Run) talOpen(ps *procState, p string) {
	if ps.cur != nil && ps.cur.seen[p] && len(ps.cur.seen) == len(r.talPaths) {
		r.closeWindow(ps)
	}
	if ps.cur != nil {
		ps.cur.seen[p] = true
		return
	}
	ps.started = true
	w := &Window{N: len(ps.windows), ps: ps, At: time.Now(), T0: r.wall(time.Now()), Files: map[string][]byte{}, Faulted: map[string]bool{}, NoTAL: map[int]bool{}, seen: map[string]bool{p: true}, stallAt0: r.sim.Stalls, reqs: len(r.Reqs)}
	for f, d := range r.fs.Files(cacheDir) {
		w.Files[strings.TrimPrefix(f, cacheDir+"/")] = d
	}
	w.Consec, w.ConsecMin = 1, 1
	if n := len(ps.windows); n > 0 {
		prev := ps.windows[n-1]
		if prev.Next.IsZero() {
			prev.Next = w.At
		}
		if prev.Next.Sub(prev.At) < time.Duration(r.Plan.Refresh)*time.Second {
			w.Consec, w.ConsecMin = prev.Consec+1, prev.ConsecMin+1
		} else if r.sim.StallProb > 0 {
			w.Consec = prev.Consec + 1
		}
	}
	w.Limit = w.Consec > r.Plan.MaxIter
	w.LimitMin = w.ConsecMin > r.Plan.MaxIter
	ps.windows = append(ps.windows, w)
	ps.cur = w
	r.logf("validation %d.%d starts, %d files", ps.idx, w.N, len(w.Files))
	r.windowStart(w)
}

func (r *Run) closeWindow(ps *procState) {
	w := ps.cur
	if w == nil {
		return
	}
	ps.cur = nil
	w.Closed = true
	w.End = time.Now()
	w.T1 = r.wall(w.End)
	r.windowEnd(w)
}

func (r *Run) skipHostile(o *Obj) bool { return r.hostileKey[o.KeyID] }

// may and must evaluate the oracle on a window.
func (r *Run) may(w *Window, t1 time.Time) *Result {
	in := &EvalIn{Files: w.Files, T0: w.T0, T1: t1, Faulted: w.Faulted, Strict: !r.Plan.NoStrict, Filter: !r.Plan.NoFilter}
	return r.w.Evaluate(in)
}

func (r *Run) must(w *Window, t1 time.Time) *Result {
	in := &EvalIn{Files: w.Files, T0: w.T0, T1: t1, Must: true, Faulted: w.Faulted, NoTAL: w.NoTAL, Strict: !r.Plan.NoStrict, Filter: !r.Plan.NoFilter, Skip: r.skipHostile}
	return r.w.Evaluate(in)
}

// U and L of a window over its own duration.
func (w *Window) end(r *Run) time.Time {
	if w.Closed {
		return w.T1
	}
	return r.wall(time.Now())
}

func (r *Run) U(w *Window) *Result {
	if !w.Closed && r.sim.StallProb > 0 {
		return r.may(w, w.T0.Add(r.valSpan(w)))
	}
	if w.ures == nil {
		// the validation itself takes little time unless tasks are stalled
		w.ures = r.may(w, w.T0.Add(r.valSpan(w)))
	}
	return w.ures
}
func (r *Run) L(w *Window) *Result {
	if !w.Closed {
		return r.must(w, w.T0.Add(r.valSpan(w)))
	}
	if w.lres == nil {
		w.lres = r.must(w, w.T0.Add(r.valSpan(w)))
	}
	return w.lres
}

// valSpan bounds how long after its start a validation read its last object.
func (r *Run) valSpan(w *Window) time.Duration {
	d := w.end(r).Sub(w.T0)
	if d < 0 {
		d = 0
	}
	if r.sim.StallProb == 0 && d > 2*time.Second {
		d = 2 * time.Second
	}
	return d
}

func (r *Run) reqDone(q *Req) {
	if q.Doc != "ct" && q.Proc == r.proc && r.out > 0 {
		r.out--
	}
}

func (r *Run) reqStart(q *Req) {
	ps := r.ps[q.Proc]
	if ps == nil {
		return
	}
	q.Round = len(ps.windows)
	if q.Doc == "ct" {
		return
	}
	r.out++
	r.Exer["C12"]++
	if r.out > r.Plan.MaxConc {
		r.violate("C12", "concurrency", "%d retrievals at the same time, the configured maximum is %d", r.out, r.Plan.MaxConc)
	}
	k := q.URL
	if q.Doc == "rsync" {
		k = q.Module
	}
	if _, ok := ps.attempted[k]; !ok {
		ps.attempted[k] = q.Round
	}
}
