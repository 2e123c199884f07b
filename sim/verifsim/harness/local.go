//go:build go1.22

package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/netip"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
	"github.com/cloudflare/cfrpki/verifsim/shim/vos"
)

// The programs that work on local files: localrpki (C20) and ctrpki (C23). The
// publication history is played first, without any validator; what is published
// at the end, damaged in various ways, is laid out in directories, and the
// program is run over it.

func localKind(k string) bool { return k == "localrpki" || k == "ctrpki" || k == "api" }

func localProp(kind string) string {
	return map[string]string{"localrpki": "C20", "ctrpki": "C23", "api": "C21"}[kind]
}

type localState struct {
	files   map[string][]byte   // by host/module/... before the mapping
	hist    []map[string][]byte // earlier states
	layout  []mapRule
	seen    map[string][]byte // what the program can see
	where   map[string]string // absolute path -> host/module/...
	at      map[string]string // the inverse
	runs    int
	n       int
	vt      time.Time
	now     bool
	start   time.Time
	read    map[string]bool // files whose read failed in this run
	noTAL   map[int]bool
	wfault  bool // the output could not be written
	outs    []*localOut
	listed  bool // without manifests
	first   int  // first request of this run
	api     *APIServer
	apiOut  *string
	apiTime time.Time
}

type mapRule struct{ uri, dir string }

type localOut struct {
	rows   map[localRow]int
	clean  bool
	config string
}

type localRow struct {
	ASN, Prefix string
	Max         int
	Path        string
}

// LocalPlan turns a generated plan into one for these programs.
func localPlan(p *Plan, r *verifsim.Rand) {
	p.Net, p.Crashes, p.Clients, p.Clock, p.Disk = nil, nil, nil, nil, nil
	for i := range p.TAs {
		p.TAs[i].Rsync = true
	}
	hz := p.Horizon
	n := 0
	for r.Chance(0.7) && n < 8 {
		n++
		p.Events = append(p.Events, Event{At: hz - 1, A: r.Intn(1 << 16), B: r.Intn(1 << 16),
			Kind: pick(r, "file-delete", "file-delete", "file-trunc", "file-flip", "file-flip", "file-empty", "file-older", "file-older", "file-older", "file-swap", "file-junk", "file-copy")})
	}
	n = 0
	for r.Chance(0.25) && n < 3 {
		n++
		if p.Kind == "api" {
			p.Disk = append(p.Disk, DiskFault{From: hz, To: 1 << 40, Every: 1 + r.Intn(3), Err: pick(r, "EIO", "EMFILE"), Op: pick(r, "open-r", "read"), Match: ".tal"})
			continue
		}
		d := DiskFault{From: hz, To: 1 << 40, Every: 1 + r.Intn(9), Err: pick(r, "EIO", "EMFILE", "EACCES", "ENOSPC")}
		d.Op = pick(r, "open-r", "open-r", "read", "read", "open-w", "write", "close", "stat")
		d.Match = pick(r, "", ".roa", ".mft", ".cer", ".crl", ".tal", "output.json", "h0.sim", "h1.sim")
		if d.Op == "open-w" || d.Op == "write" || d.Op == "close" {
			d.Match = "output.json"
			d.Every = 1 + r.Intn(2)
			if r.Chance(0.5) {
				d.Short = r.Intn(4000)
			}
		}
		p.Disk = append(p.Disk, d)
	}
	x := p.Extra
	delete(x, "preseed")
	x["map"] = int64(r.Intn(6))
	x["slash"] = int64(r.Intn(2))
	x["runs"] = int64(1 + r.Intn(3))
	x["vt"] = int64(r.Intn(12))
	x["vtpick"] = int64(r.Intn(1 << 20))
	x["vtform"] = int64(r.Intn(3))
	x["debug"] = int64(r.Intn(4) / 3)
	x["one"] = int64(r.Intn(3)) // damage only what is below a few authorities
	if r.Chance(0.3) {
		x["listed"] = 1
	}
	if p.Kind == "localrpki" && r.Chance(0.15) {
		x["stdout"] = 1
	}
	p.NoStrict = p.Kind == "localrpki" && r.Chance(0.15)
	if p.Kind == "api" {
		x["map"] = 0
		apiPlan(p, r)
	}
	if p.Kind == "ctrpki" {
		p.NoStrict = false
		x["runs"] = 1
		p.CT = pick(r, 0, 1, 1, 2, 3, 8, 50)
		for n := 0; r.Chance(0.6) && n < 4; n++ {
			f := NetFault{From: hz + int64(r.Intn(20000)), P: r.Intn(1 << 16), Target: "ct.sim", Kind: pick(r, "refuse", "dns", "status", "hang", "hangafter", "drip", "slow", "trunc", "empty200", "html200", "busy")}
			f.To = f.From + int64(1+r.Intn(120000))
			if r.Chance(0.5) {
				f.Every = 2 + r.Intn(3)
			}
			p.Net = append(p.Net, f)
		}
	}
}

func (r *Run) localFiles() *localState {
	if r.local.files == nil {
		ideal := r.w.Ideal()
		r.local.files = map[string][]byte{}
		for _, f := range sortedKeys(ideal) {
			if c := cleanRel(f); c != "" && r.local.files[c] == nil {
				r.local.files[c] = ideal[f]
			}
		}
		for _, h := range sortedKeys(r.w.Hosts) {
			for _, j := range sortedKeys(r.w.Hosts[h].Junk) {
				if _, ok := r.local.files[h+"/"+j]; !ok {
					r.local.files[h+"/"+j] = r.w.Hosts[h].Junk[j]
				}
			}
		}
	}
	return r.local
}

func (r *Run) localHistory() {
	if r.local.files == nil {
		r.local.hist = append(r.local.hist, r.w.Ideal())
	}
}

// fileEvent damages what has been collected.
func (r *Run) fileEvent(e Event) {
	l := r.localFiles()
	ks := sortedKeys(l.files)
	if len(ks) == 0 {
		return
	}
	k := ks[e.A%len(ks)]
	d := l.files[k]
	r.fired(e.Kind)
	r.logf("%s %s", e.Kind, k)
	switch e.Kind {
	case "file-delete":
		delete(l.files, k)
	case "file-trunc":
		if len(d) > 0 {
			l.files[k] = append([]byte{}, d[:(e.B*7919)%len(d)]...)
		}
	case "file-flip":
		if len(d) > 0 {
			b := append([]byte{}, d...)
			b[(e.B*7919)%len(b)] ^= byte(1 << (e.B % 8))
			l.files[k] = b
		}
	case "file-empty":
		l.files[k] = []byte{}
	case "file-older":
		var opts [][]byte
		for _, h := range l.hist {
			if o, ok := h[k]; ok && !bytes.Equal(o, d) {
				opts = append(opts, o)
			}
		}
		if len(opts) == 0 { // of any file that has changed
			for i := 0; i < len(ks); i++ {
				k = ks[(e.A+i)%len(ks)]
				for _, h := range l.hist {
					if o, ok := h[k]; ok && !bytes.Equal(o, l.files[k]) {
						opts = append(opts, o)
					}
				}
				if len(opts) > 0 {
					break
				}
			}
		}
		if len(opts) > 0 {
			l.files[k] = opts[e.B%len(opts)]
		}
	case "file-swap":
		o := ks[e.B%len(ks)]
		l.files[k], l.files[o] = l.files[o], l.files[k]
	case "file-junk":
		l.files[path.Dir(k)+"/"+pick(r.evr, "junk.roa", "a.txt", "0.cer", "zz.mft", "README", ".x.roa.Ab12", "0.crl")] = []byte("junk")
	case "file-copy":
		o := ks[e.B%len(ks)]
		l.files[path.Dir(o)+"/"+pick(r.evr, "0", "m", "z")+path.Base(k)] = d
	}
}

// place lays the files out for the program.
func (r *Run) place() {
	l := r.localFiles()
	x := r.Plan.Extra
	end := func(d string) string {
		if x["slash"] != 0 {
			return d + "/"
		}
		return d
	}
	hosts := map[string]map[string]bool{}
	for f := range l.files {
		p := strings.SplitN(f, "/", 3)
		if hosts[p[0]] == nil {
			hosts[p[0]] = map[string]bool{}
		}
		if len(p) > 2 {
			hosts[p[0]][p[1]] = true
		}
	}
	skip := ""
	hs := sortedKeys(hosts)
	add := func(uri, dir string) { l.layout = append(l.layout, mapRule{uri, end(dir)}) }
	switch x["map"] {
	case 0:
		add("rsync://", "./cache")
	case 1:
		add("rsync://", "/work/cache")
	case 2:
		for _, h := range hs {
			add("rsync://"+h+"/", "./d/"+h)
		}
	case 3:
		for i, h := range hs {
			for j, m := range sortedKeys(hosts[h]) {
				add("rsync://"+h+"/"+m+"/", fmt.Sprintf("d/%d-%d", i, j))
			}
		}
	case 4: // some modules lie elsewhere
		add("rsync://", "./cache")
		for i, h := range hs {
			if (i+int(x["vtpick"]))%2 == 0 {
				add("rsync://"+h+"/", fmt.Sprintf("./h/%d", i))
			}
			for j, m := range sortedKeys(hosts[h]) {
				if (j+i+int(x["vtpick"])/3)%2 == 0 {
					add("rsync://"+h+"/"+m+"/", fmt.Sprintf("./m/%d-%d", i, j))
				}
			}
		}
	case 5: // one host was not collected
		skip = hs[int(x["vtpick"])%len(hs)]
		for _, h := range hs {
			if h != skip {
				add("rsync://"+h+"/", "./d/"+h)
			}
		}
	}
	sort.Slice(l.layout, func(i, j int) bool { return r.evr.Intn(2) == 0 && i < j })
	l.seen, l.where, l.at = map[string][]byte{}, map[string]string{}, map[string]string{}
	for _, f := range sortedKeys(l.files) {
		uri := "rsync://" + f
		best := mapRule{}
		for _, m := range l.layout {
			if strings.HasPrefix(uri, m.uri) && len(m.uri) > len(best.uri) {
				best = m
			}
		}
		if best.uri == "" {
			continue
		}
		p := best.dir + "/" + uri[len(best.uri):]
		if !strings.HasPrefix(p, "/") {
			p = "/work/" + p
		}
		p = path.Clean(p)
		if b, ok := r.fs.ReadRaw(p); ok || r.fs.ExistsRaw(p) {
			r.logf("clash at %s (%d bytes)", p, len(b))
			continue
		}
		if !r.writable(p) {
			continue
		}
		r.fs.WriteRaw(p, l.files[f])
		l.seen[f] = l.files[f]
		l.where[p], l.at[f] = f, p
	}
}

// writable: is no parent of p a file?
func (r *Run) writable(p string) bool {
	for d := path.Dir(p); d != "/" && d != "."; d = path.Dir(d) {
		if _, ok := r.fs.ReadRaw(d); ok {
			return false
		}
	}
	return true
}

// validTime picks the validation time: often close to where something begins or ends.
func (r *Run) validTime() {
	l, x := r.local, r.Plan.Extra
	now := time.Now().UTC().Truncate(time.Second)
	l.vt = now
	if x["vt"] < 2 {
		l.now = true
		return
	}
	if x["vt"] < 5 {
		return
	}
	var ts []time.Time
	for _, f := range sortedKeys(l.seen) {
		o := r.w.Objs[hashes.sum(l.seen[f])]
		if o == nil {
			continue
		}
		ts = append(ts, o.NB, o.NA)
		if o.Kind == "mft" {
			ts = append(ts, o.This, o.Next, o.This, o.Next)
		}
	}
	var in []time.Time
	for _, t := range ts {
		if !t.IsZero() && t.Year() > 1990 && t.Year() < 2100 {
			in = append(in, t)
		}
	}
	if len(in) == 0 {
		return
	}
	sort.Slice(in, func(i, j int) bool { return in[i].Before(in[j]) })
	t := in[int(x["vtpick"])%len(in)]
	l.vt = t.Add(time.Duration([]int{-2, 2, -2, 2, 0, -600, 600}[int(x["vtpick"]/64)%7]) * time.Second).UTC()
}

func (r *Run) localArgs() []string {
	p, l, x := r.Plan, r.local, r.Plan.Extra
	var tals, maps []string
	for _, ta := range r.w.TAs {
		tals = append(tals, strings.TrimPrefix(ta.TALPath, "/work/"))
	}
	for _, m := range l.layout {
		maps = append(maps, m.uri+"="+m.dir)
	}
	a := []string{p.Kind, "-tal.root=" + strings.Join(tals, ","), "-map.dir=" + strings.Join(maps, ",")}
	if !l.now {
		switch x["vtform"] {
		case 0:
			a = append(a, "-valid.time="+strconv.FormatInt(l.vt.Unix(), 10))
		case 1:
			a = append(a, "-valid.time="+l.vt.Format(time.RFC3339))
		default:
			a = append(a, "-valid.time="+l.vt.In(time.FixedZone("", -5*3600-1800)).Format(time.RFC3339))
		}
	}
	if l.listed {
		a = append(a, "-manifest.use=false")
	}
	if x["debug"] != 0 {
		a = append(a, "-loglevel=debug")
	}
	if p.Kind == "ctrpki" {
		return append(a, "-ct=https://ct.sim", fmt.Sprintf("-ct.threads=%d", p.CT))
	}
	if p.NoStrict {
		a = append(a, "-strict.manifests=false")
	}
	if x["stdout"] != 0 {
		a = append(a, "-output=")
	} else {
		a = append(a, "-output=/work/output.json")
	}
	return a
}

// localStart runs the program once more, on the same files, on another day.
func (r *Run) localStart() {
	l := r.local
	if l.layout == nil {
		l.runs = int(max(1, r.Plan.Extra["runs"]))
		l.listed = r.Plan.Extra["listed"] != 0
		r.place()
		r.validTime()
	}
	l.n++
	l.read, l.noTAL, l.wfault = map[string]bool{}, map[int]bool{}, false
	l.first = len(r.Reqs)
	if !l.now { // what day it is does not matter
		r.skew = time.Duration(r.evr.Intn(2*4000)-4000) * time.Hour
	}
	l.start = time.Now()
	if l.now {
		l.vt = r.wall(l.start)
	}
	r.fs.RemoveRaw("/work/output.json")
	r.Console.Reset()
	r.sim.Console = &r.Console
	resetProcess()
	args := r.localArgs()
	if r.Plan.Kind == "api" {
		r.apiStart()
		args = []string{"api"}
	}
	os.Args, vos.Args = args, args
	p := r.sim.NewProc(r.Plan.Kind)
	r.proc = p
	r.logf("run %d, clock %v, %d files: %v", l.n, r.wall(l.start).UTC().Format(time.RFC3339), len(l.seen), args[1:])
	r.sim.Spawn(p, "main", func() {
		r.main()
		verifsim.Exit(0)
	})
	n := l.n
	r.after(r.localBound(), func() {
		if !p.Dead() && n == l.n {
			prop := localProp(r.Plan.Kind)
			r.violate(prop, "stuck", "the program has not ended after %v; waiting: %v", r.localBound(), r.sim.Blocked(p))
			r.finish()
		}
	})
}

func (r *Run) localBound() time.Duration {
	d := 10 * time.Minute
	if r.Plan.Kind == "ctrpki" {
		last := r.Plan.Horizon
		for _, f := range r.Plan.Net {
			last = max(last, f.To)
		}
		d += time.Duration(last-r.Plan.Horizon) * time.Millisecond
		d += 10 * time.Minute // the client's back-off
	}
	if r.sim.StallProb > 0 || r.Plan.Kind == "api" {
		d += 6 * time.Hour
	}
	return d
}

// localFault records that a read or a write of the program failed.
func (r *Run) localFault(op, abs string) {
	l := r.local
	switch op {
	case "open-r", "read", "stat":
		if ta := r.talPaths[abs]; ta != nil {
			l.noTAL[ta.ID] = true
		}
		if f, ok := l.where[abs]; ok {
			l.read[f] = true
		}
		for p, f := range l.where {
			if strings.HasPrefix(p, abs+"/") {
				l.read[f] = true
			}
		}
	default:
		l.wfault = true
	}
}

func (r *Run) localEval(must bool) *Result {
	l := r.local
	t1 := l.vt
	if l.now {
		t1 = t1.Add(2 * time.Second)
		if d := time.Since(l.start); r.sim.StallProb > 0 && d > 2*time.Second {
			t1 = l.vt.Add(d)
		}
	}
	in := &EvalIn{Files: l.seen, T0: l.vt, T1: t1, Must: must, Strict: !r.Plan.NoStrict, Listed: l.listed}
	if must {
		in.Faulted, in.NoTAL, in.Skip = l.read, l.noTAL, r.skipHostile
	} else if len(l.read) > 0 && (r.Plan.NoStrict || l.listed) {
		in.LaxRev = true // the revocation list may be what could not be read
	}
	if r.Keep {
		in.Why = func(f string, a ...any) {
			r.note("oracle must=%v: %s", must, fmt.Sprintf(f, a...))
		}
	}
	return r.w.Evaluate(in)
}

func (r *Run) localExit(p *verifsim.Proc) {
	l := r.local
	r.logf("%s ended: code=%d panic=%q after %v", p.Name, p.ExitCode, p.Panic, time.Since(l.start))
	prop := localProp(r.Plan.Kind)
	if p.Panic != "" {
		r.violate(prop, "exit:"+panicKey(p), "the program panicked: %s\n%s", p.Panic, trimStack(p.Stack))
	} else if p.ExitCode != 0 && !(l.wfault && prop == "C20") {
		r.violate(prop, "exit", "the program ended with code %d", p.ExitCode)
	} else if prop == "C20" {
		if p.ExitCode == 0 {
			r.checkLocal()
		}
	} else if prop == "C21" {
		r.checkAPI()
	} else {
		r.checkCTRuns()
	}
	if l.n < l.runs && !r.done {
		r.after(time.Duration(1+r.net.Intn(60))*time.Second, r.localStart)
	} else {
		r.after(time.Second, r.finish)
	}
}

// --- C20 ---

func (r *Run) checkLocal() {
	l := r.local
	var b []byte
	if r.Plan.Extra["stdout"] != 0 {
		for _, s := range strings.Split(r.Console.String(), "\n") {
			if strings.HasPrefix(s, "{\"") {
				b = []byte(s)
			}
		}
	} else {
		b, _ = r.fs.ReadRaw("/work/output.json")
	}
	var doc struct {
		ROAs []struct {
			ASN    string `json:"asn"`
			Prefix string `json:"prefix"`
			Max    int    `json:"maxLength"`
			Path   string `json:"path"`
		} `json:"roas"`
	}
	if err := json.Unmarshal(b, &doc); err != nil || doc.ROAs == nil {
		r.violate("C20", "output", "the program ended normally but its output is not a complete document: %d bytes, %v", len(b), err)
		return
	}
	U, L := r.localEval(false), r.localEval(true)
	o := &localOut{rows: map[localRow]int{}, clean: len(l.read) == 0 && len(l.noTAL) == 0, config: strings.Join(r.localArgs(), " ")}
	have := map[VRP]bool{}
	r.logf("output: %d entries; between %d and %d authorised", len(doc.ROAs), len(L.VRP), len(U.VRP))
	may := map[VRP]bool{}
	for v := range U.VRP {
		may[v.key()] = true
	}
	for _, x := range doc.ROAs {
		row := localRow{x.ASN, x.Prefix, x.Max, x.Path}
		o.rows[row]++
		asn, err := strconv.ParseInt(strings.TrimPrefix(x.ASN, "AS"), 10, 64)
		pf, err2 := netip.ParsePrefix(x.Prefix)
		if err != nil || err2 != nil || !strings.HasPrefix(x.ASN, "AS") {
			r.violate("C20", "entry", "malformed entry %+v", x)
			continue
		}
		v := VRP{P: pf.Masked().String(), Max: x.Max, ASN: asn}
		have[v] = true
		if !may[v] {
			r.violate("C20", "unauthorised", "entry %s %s-%d from %s is not authorised by the files at %s (-valid.time %v)", x.ASN, x.Prefix, x.Max, x.Path, l.vt.UTC().Format(time.RFC3339), !l.now)
		}
		r.checkPath(row, v, o.rows[row])
	}
	if len(doc.ROAs)+len(L.VRP) > 0 {
		r.Exer["C20"]++
	}
	r.docs++
	var missing []VRP
	for v := range L.VRP {
		if !have[v.key()] {
			missing = append(missing, v)
		}
	}
	if len(missing) > 0 {
		r.violate("C20", "missing", "%d entries that the files authorise at %s are not in the output (%d entries): %s", len(missing), l.vt.UTC().Format(time.RFC3339), len(doc.ROAs), vlist(missing))
	}
	// the same files at the same time: the same result
	if !l.now && o.clean {
		for i, q := range l.outs {
			if !q.clean {
				continue
			}
			for row, n := range o.rows {
				if q.rows[row] != n {
					r.violate("C20", "differs", "run %d and run %d over the same files for the same time differ: %+v is there %d and %d times", i+1, l.n, row, q.rows[row], n)
				}
			}
			for row, n := range q.rows {
				if o.rows[row] != n {
					r.violate("C20", "differs", "run %d and run %d over the same files for the same time differ: %+v is there %d and %d times", i+1, l.n, row, n, o.rows[row])
				}
			}
		}
	}
	l.outs = append(l.outs, o)
}

// checkPath: the entry names the file it comes from.
func (r *Run) checkPath(row localRow, v VRP, n int) {
	l := r.local
	d, ok := l.seen[cleanRel(localPath(row.Path))]
	if !strings.HasPrefix(row.Path, "rsync://") || !ok {
		r.violate("C20", "path", "entry %s %s-%d names the file %q, which does not exist", row.ASN, row.Prefix, row.Max, row.Path)
		return
	}
	h := hashes.sum(d)
	o := r.w.Objs[h]
	if o == nil {
		x, ok := sameSigned(d)
		if o = r.w.Objs[x]; !ok || o == nil {
			return
		}
	}
	c := 0
	if o.Kind == "roa" && o.ASID == v.ASN {
		for _, p := range o.Pfx {
			m := p.Max
			if m < 0 {
				m = p.P.Bits()
			}
			if p.P.Masked().String() == v.P && m == v.Max {
				c++
			}
		}
	}
	if c == 0 {
		r.violate("C20", "path", "entry %s %s-%d names the file %q, which says something else", row.ASN, row.Prefix, row.Max, row.Path)
	} else if n > c*len(r.w.TAs) {
		r.violate("C20", "repeated", "entry %s %s-%d from %s is there %d times", row.ASN, row.Prefix, row.Max, row.Path, n)
	}
}

// --- C23 ---

var sctBody = func() []byte {
	id := base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{7}, 32))
	sig := base64.StdEncoding.EncodeToString([]byte{4, 3, 0, 4, 1, 2, 3, 4})
	return []byte(fmt.Sprintf(`{"sct_version":0,"id":%q,"timestamp":1700000000000,"extensions":"","signature":%q}`, id, sig))
}()

func (r *Run) checkCTRuns() {
	l := r.local
	L, U := r.localEval(true), r.localEval(false)
	type att struct{ n, ok, final int }
	seen := map[string]*att{}
	var order []string
	chains := map[string][][32]byte{}
	faults := 0
	for _, q := range r.Reqs[l.first:] {
		if q.Doc != "ct" || q.Proc != r.proc {
			continue
		}
		k := chainKey(q.Chain)
		a := seen[k]
		if a == nil {
			a = &att{}
			seen[k] = a
			order = append(order, k)
			chains[k] = q.Chain
		}
		if a.final > 0 {
			r.violate("C23", "twice", "a chain of %d certificates was submitted again (request %d) although the log had answered", len(q.Chain), q.Seq)
		}
		a.n++
		if q.Fault != "" {
			faults++
		}
		switch {
		case q.Complete && q.Fault == "": // an answer in order
			a.ok++
			a.final++
		case q.Fault == "status" && q.CTFinal:
			a.final++
		}
		if !q.Done {
			r.violate("C23", "exit-early", "the program ended while a submission was under way (request %d)", q.Seq)
		}
	}
	if len(order)+len(L.Chains) > 0 {
		r.Exer["C23"]++
	}
	r.logf("%d chains submitted, %d faults; %d authorities and %d end-entity certificates expected", len(order), faults, len(L.Chains), len(L.EE))
	check := func(c [][32]byte, what string) {
		for _, h := range c {
			for f := range l.read {
				if hashes.sum(l.seen[f]) == h {
					return
				}
			}
		}
		a := seen[chainKey(c)]
		if a == nil {
			if len(l.read) > 0 {
				return // an end-entity certificate lies inside a file
			}
			r.violate("C23", "missing", "the chain of %s (%d certificates) was never submitted; %d others were (%d threads)", what, len(c), len(order), r.Plan.CT)
		} else if a.final == 0 {
			r.violate("C23", "undelivered", "the chain of %s was never answered by the log although it works again; %d attempts", what, a.n)
		}
	}
	for _, h := range sortedHashes(L.Chains) {
		check(L.Chains[h], L.Paths[h])
	}
	for _, h := range sortedHashes(L.EE) {
		check(L.EE[h], "an end-entity certificate")
	}
	ok := func(h [32]byte) bool {
		_, v := U.Valid[h]
		_, e := U.EE[h]
		return v || e || U.EEOf[h]
	}
	for _, k := range order {
		c := chains[k]
		if r.Keep {
			s := ""
			for _, h := range c {
				if o := r.w.Objs[h]; o != nil {
					s += fmt.Sprintf(" [%s author %d key %d by %d serial %d ca %v]", o.Kind, o.Author, o.KeyID, o.SignerKey, o.Serial, o.CA)
				} else {
					s += " [?]"
				}
			}
			r.note("chain:%s", s)
		}
		if len(c) == 0 {
			r.violate("C23", "empty", "an empty or undecodable chain was submitted")
			continue
		}
		for i, h := range c {
			o := r.w.Objs[h]
			if o == nil {
				continue // an altered object is judged elsewhere
			}
			bad := !ok(h)
			if o.Kind != "cer" || len(l.read) > 0 {
				bad = false
			} else if !o.CA { // a certificate embedded in something that may be damaged otherwise
				bad = !o.SigOK || l.vt.Before(o.NB) && time.Since(l.start)+l.vt.Sub(o.NB) < 0 || l.vt.After(o.NA)
			}
			if bad && !r.normalised(o, U) {
				r.violate("C23", "invalid", "a certificate that is not valid at %s was submitted: position %d of %d, %s", l.vt.UTC().Format(time.RFC3339), i, len(c), o.Kind)
			}
			if i+1 < len(c) {
				n := r.w.Objs[c[i+1]]
				if n != nil && o.Kind == "cer" && n.Kind == "cer" && (o.SignerKey != n.KeyID || o.Hash == n.Hash) {
					r.violate("C23", "order", "a submitted chain is not in order: certificate %d of %d was not issued by the next one", i, len(c))
				}
			} else if o.Kind == "cer" && o.SignerKey != o.KeyID {
				r.violate("C23", "root", "a submitted chain of %d certificates does not end with a trust anchor", len(c))
			}
		}
	}
}

// normalised: a file differs from o in encoded lengths only, and was accepted;
// converted to DER it may have become o again.
func (r *Run) normalised(o *Obj, U *Result) bool {
	for _, d := range r.local.seen {
		if len(d) != len(o.Data) {
			continue
		}
		if _, v := U.Valid[hashes.sum(d)]; !v {
			continue
		}
		free, same := derLengths(o.Data), true
		for i := range d {
			if d[i] != o.Data[i] && !free[i] {
				same = false
				break
			}
		}
		if same {
			return true
		}
	}
	return false
}

var _ = sha256.Sum256
