//go:build go1.22

package harness

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

func sortStrings(s []string) { sort.Strings(s) }

// --- served documents ---

func (r *Run) checkDoc(ps *procState, d *doc) {
	if r.done || ps.p.Dead() {
		return
	}
	switch d.Path {
	case "/output.json":
		r.ready(ps, d)
		if d.Code == 200 && !d.Cut {
			r.checkList(ps, d)
		}
	case "/resources.json":
		r.ready(ps, d)
		if d.Code == 200 && !d.Cut {
			r.checkResources(ps, d)
		}
	case "/health":
		r.ready(ps, d)
	case "/infos":
		if d.Code == 200 && !d.Cut {
			r.checkInfos(ps, d)
		}
	case "/metrics":
		if d.Code == 200 && !d.Cut {
			r.checkMetrics(ps, d)
		}
	}
}

// candidates are the validations that can have produced something generated at g.
func (r *Run) candidates(ps *procState, g int64) (out []*Window, fuzzy bool) {
	t := time.Unix(g, 0)
	for _, w := range ps.windows {
		tol := time.Second
		if w.Jump { // the clock was set meanwhile, perhaps back to before it began
			for _, c := range r.Plan.Clock {
				tol += time.Duration(max(c.By, -c.By)) * time.Millisecond
			}
		}
		if w.T0.After(t.Add(tol)) || w.Closed && w.T1.Before(t.Add(-tol)) {
			continue
		}
		if w.Dirty || w.Jump {
			fuzzy = true
		}
		out = append(out, w)
	}
	return
}

func (r *Run) checkList(ps *procState, d *doc) {
	l, vs, err := parseList(d.Body)
	if err != nil {
		r.violate("C09", "malformed", "a 200 response for the ROA list does not parse: %v", err)
		return
	}
	d.list, d.vrps = l, vs
	m := l.Metadata
	if m.Generated == 0 && len(l.Data) == 0 && r.Plan.NoWait {
		return // told not to wait: nothing has been validated yet
	}
	r.Exer["C09"]++
	seen := map[VRP]bool{}
	for v := range vs {
		if k := v.key(); seen[k] {
			r.violate("C09", "duplicate", "entry %v occurs more than once", v)
		} else {
			seen[k] = true
		}
	}
	for v, n := range vs {
		if n > 1 {
			r.violate("C09", "duplicate", "entry %v occurs %d times", v, n)
		}
	}
	if int64(m.Valid-m.Generated) < r.Plan.Validity-1 || int64(m.Valid-m.Generated) > r.Plan.Validity+1 {
		r.violate("C09", "validity", "generated %d valid %d but the validity period is %d s", m.Generated, m.Valid, r.Plan.Validity)
	}
	if !r.skewed {
		if cc := d.Hdr.Get("Cache-Control"); strings.HasPrefix(cc, "max-age=") {
			a, _ := strconv.ParseInt(strings.TrimPrefix(cc, "max-age="), 10, 64)
			if left := int64(m.Valid) - d.T0.Unix(); a > left+1 {
				r.violate("C09", "max-age", "the response may be cached for %d s but the document is valid for %d s only", a, left)
			}
		}
	}
	if r.Plan.Sign {
		a, b, err := l.CheckFile(&r.key.PublicKey)
		if err != nil || !a || !b {
			r.violate("C09", "signature", "the signature does not verify over the served entries (%v %v %v)", a, b, err)
		}
	} else if m.Signature != "" {
		r.violate("C09", "signature", "signing is off but the document carries a signature")
	}
	cands, fuzzy := r.candidates(ps, int64(m.Generated))
	if len(cands) == 0 {
		r.violate("C09", "origin", "the document says it was generated at %d, when no validation was running", m.Generated)
		return
	}
	if fuzzy {
		return
	}
	r.compare(ps, cands, vs, "the served list", true)
	if r.Plan.Extra["static"] == 1 {
		r.static(vs)
	}
}

// compare decides whether entries are what one of the validations authorised.
func (r *Run) compare(ps *procState, cands []*Window, vs map[VRP]int, what string, single bool) {
	r.Exer["C01"]++
	var bestX, bestM []VRP
	best := -1
	var bw *Window
	for _, w := range cands {
		u, l := r.U(w), r.L(w)
		var x, m []VRP
		for v := range vs {
			if !u.VRP[v] {
				x = append(x, v)
			}
		}
		have := map[VRP]bool{}
		for v := range vs {
			have[v.key()] = true
		}
		for v := range l.VRP {
			if !have[v.key()] {
				m = append(m, v)
			}
		}
		if len(x)+len(m) == 0 {
			if len(l.VRP) > 0 {
				r.exerciseWindow(w, l)
			}
			return
		}
		if n := len(x)*1000 + len(m); best < 0 || n < best {
			best, bestX, bestM, bw = n, x, m, w
		}
	}
	if len(bestX) > 0 {
		any := true
		for _, v := range bestX {
			in := false
			for _, w := range cands {
				in = in || r.U(w).VRP[v]
			}
			any = any && in
		}
		if any {
			r.violate("C09", "mixture", "%s mixes results of several validations: %v", what, vlist(bestX))
			return
		}
		r.violate("C01", "extra", "%s of validation %d.%d contains entries nothing authorises: %s", what, ps.idx, bw.N, vlist(bestX))
		r.attribute(ps, bw, bestX)
		for _, w := range cands {
			r.dumpFor(w, bestX)
		}
		if r.crashed > 0 && ps.idx > 0 {
			r.violate("C06", "extra", "after a crash %s of validation %d.%d contains entries nothing authorises: %s", what, ps.idx, bw.N, vlist(bestX))
		}
		if r.Plan.Kind == "oneoff" {
			r.violate("C18", "extra", "%s contains entries nothing authorises: %s", what, vlist(bestX))
		}
	}
	if len(bestM) > 0 {
		msg := fmt.Sprintf("%s of validation %d.%d lacks entries the cache authorised: %s", what, ps.idx, bw.N, vlist(bestM))
		for _, p := range []string{"C02", "C09", "C15"} {
			r.violate(p, "missing", "%s", msg)
		}
		if len(r.hostileKey) > 0 {
			r.violate("C03", "missing", "%s", msg)
		}
		if r.revocations(bw) {
			r.violate("C14", "missing", "%s", msg)
		}
		if r.Plan.Extra["claims"] > 0 {
			r.violate("C16", "missing", "%s", msg)
		}
		if r.crashed > 0 && ps.idx > 0 {
			r.violate("C06", "missing", "after a crash %s", msg)
		}
		if r.Plan.Kind == "oneoff" {
			r.violate("C18", "missing", "%s", msg)
		}
	}
}

// exerciseWindow counts what a checked validation exercised.
func (r *Run) exerciseWindow(w *Window, l *Result) {
	r.Exer["C02"]++
	r.Exer["C15"]++
	if len(r.hostileKey) > 0 {
		r.Exer["C03"]++
	}
	if r.revocations(w) {
		r.Exer["C14"]++
	}
	if r.crashed > 0 && w.ps.idx > 0 {
		r.Exer["C06"]++
	}
}

// dumpFor logs, in verbose mode, the objects that speak of the entries.
func (r *Run) dumpFor(w *Window, vs []VRP) {
	if !r.Keep {
		return
	}
	{
		r.w.Evaluate(&EvalIn{Files: w.Files, T0: w.T0, T1: w.T0.Add(r.valSpan(w)), Faulted: w.Faulted, Strict: !r.Plan.NoStrict, Filter: !r.Plan.NoFilter, Why: func(f string, a ...any) { r.note("  "+f, a...) }})
	}
	for _, v := range vs {
		for _, rel := range sortedKeys(w.Files) {
			o := r.w.Objs[hashes.sum(w.Files[rel])]
			if o == nil || o.Kind != "roa" || o.ASID != v.ASN {
				continue
			}
			r.note("  %d.%d %v: %s author=%d ta=%s pfx=%v ee=%+v nb=%v na=%v serial=%d sig=%v bad=%v odd=%v cms=%v", w.ps.idx, w.N, v, rel, o.Author, v.TA, o.Pfx, o.Res, o.NB, o.NA, o.Serial, o.SigOK, o.Bad, o.Odd, o.CMSOK)
		}
	}
}

// note adds to the trace without being part of the execution.
func (r *Run) note(f string, a ...any) {
	r.Lines = append(r.Lines, fmt.Sprintf("%9d "+f, append([]any{r.ms()}, a...)...))
}

func (r *Run) revocations(w *Window) bool {
	for _, d := range w.Files {
		if o := r.w.Objs[hashes.sum(d)]; o != nil && o.Kind == "crl" && len(o.Revoked) > 0 {
			return true
		}
	}
	return false
}

// attribute says which rule the unauthorised entries break.
func (r *Run) attribute(ps *procState, w *Window, x []VRP) {
	base := EvalIn{Files: w.Files, T0: w.T0, T1: w.T0.Add(r.valSpan(w)), Strict: !r.Plan.NoStrict, Filter: !r.Plan.NoFilter}
	try := func(prop, why string, f func(*EvalIn)) {
		in := base
		f(&in)
		res := r.w.Evaluate(&in)
		var hit []VRP
		for _, v := range x {
			if res.VRP[v] {
				hit = append(hit, v)
			}
		}
		if len(hit) > 0 {
			r.violate(prop, "extra", "entries that %s are published: %s", why, vlist(hit))
		}
	}
	try("C14", "depend on a revoked certificate", func(in *EvalIn) { in.LaxRev = true })
	try("C15", "no complete valid manifest authorises", func(in *EvalIn) { in.LaxMft = true })
	try("C16", "claim resources their chain does not hold", func(in *EvalIn) { in.LaxRes = true })
	try("C13", "rest on a trust anchor certificate that does not match its locator or has expired", func(in *EvalIn) { in.LaxTA = true })
}

func vlist(l []VRP) string {
	var o []string
	for _, v := range l {
		o = append(o, v.String())
	}
	sort.Strings(o)
	n := len(o)
	if n > 5 {
		o = append(o[:5], fmt.Sprintf("... (%d)", n))
	}
	return strings.Join(o, ", ")
}

func (r *Run) idealFiles() map[string][]byte {
	f := r.w.Ideal()
	for _, ta := range r.w.TAs {
		if ta.Cert != nil {
			f[ta.CachePath] = ta.Cert.Data
		}
	}
	return f
}

// static: in a world whose benign part never changes every list has all of it.
func (r *Run) static(vs map[VRP]int) {
	r.Exer["C03"]++
	now := r.wall(time.Now())
	res := r.w.Evaluate(&EvalIn{Files: r.idealFiles(), T0: now.Add(-time.Duration(2*r.Plan.Refresh+600) * time.Second), T1: now, Must: true, Strict: !r.Plan.NoStrict, Filter: !r.Plan.NoFilter, Skip: r.skipHostile})
	have := map[VRP]bool{}
	for v := range vs {
		have[v.key()] = true
	}
	var m []VRP
	for v := range res.VRP {
		if !have[v.key()] {
			m = append(m, v)
		}
	}
	if len(m) > 0 {
		r.violate("C03", "suppressed", "entries of publication points that have nothing to do with the hostile ones are not published: %s", vlist(m))
	}
}

// --- readiness (C08) and completeness of exploration (C10) ---

func (r *Run) usable(e Endpoint) bool { return strings.HasPrefix(e.Module, "rsync://") }

// localFail: could the directory of a module not be prepared in a round lo..hi?
func (ps *procState) failedLocally(module string, lo, hi int) bool {
	p := strings.TrimPrefix(module, "rsync://")
	if p == "" {
		return false
	}
	for q, l := range ps.localFail {
		if q != p && !strings.HasPrefix(p, q+"/") && !strings.HasPrefix(q, p+"/") {
			continue
		}
		for _, n := range l {
			if n >= lo && n <= hi {
				return true
			}
		}
	}
	return false
}

// attemptedBefore: was the endpoint tried in round n or earlier?
func (r *Run) attemptedBefore(ps *procState, e Endpoint, n int) bool {
	if ps.failedLocally(e.Module, 0, n) || ps.failedLocally(e.RRDP, 0, n) {
		return true
	}
	if a, ok := ps.attempted[e.Module]; ok && a <= n {
		return true
	}
	if e.RRDP != "" && !r.Plan.NoRRDP {
		if a, ok := ps.attempted[e.RRDP]; ok && a <= n {
			return true
		}
	}
	return false
}

// possiblyStable: everything the validation certainly refers to had been tried.
func (r *Run) possiblyStable(w *Window) (bool, Endpoint) {
	if w.Limit {
		return true, Endpoint{}
	}
	if w.N == 0 {
		return false, Endpoint{Module: "first validation"}
	}
	for _, e := range sortedEnds(r.L(w).Ends) {
		if r.usable(e) && !r.attemptedBefore(w.ps, e, w.N) {
			return false, e
		}
	}
	return true, Endpoint{}
}

func sortedEnds(m map[Endpoint]bool) []Endpoint {
	var o []Endpoint
	for e := range m {
		o = append(o, e)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].Module+o[i].RRDP < o[j].Module+o[j].RRDP })
	return o
}

func (r *Run) ready(ps *procState, d *doc) {
	if d.Code != 200 && d.Code != 503 {
		r.violate("C08", "code", "%s answered %d", d.Path, d.Code)
		return
	}
	if r.Plan.NoWait {
		if d.Path != "/health" && d.Code != 200 {
			r.violate("C08", "nowait", "%s answered %d although told not to wait", d.Path, d.Code)
		}
		return
	}
	if d.Code == 200 {
		r.Exer["C08"]++
		ok := false
		var why Endpoint
		for _, w := range ps.windows {
			if w.Dirty || w.Jump {
				ok = true
			}
			s, e := r.possiblyStable(w)
			if s {
				ok = true
				break
			}
			why = e
		}
		if !ok {
			r.violate("C08", "early", "%s answered 200 although no complete exploration had happened (%d validations begun; not yet tried: %v)", d.Path, len(ps.windows), why)
		}
		if len(ps.windows) == 0 {
			r.violate("C08", "early", "%s answered 200 before any validation", d.Path)
		}
		return
	}
	// 503: fine unless a validation before the request was certainly complete and no later one found anything
	last := -1
	for i := len(ps.windows) - 1; i >= 0; i-- {
		w := ps.windows[i]
		if w.Dirty || w.Jump || !w.Closed {
			if !w.Closed && !w.Dirty && !w.Jump && r.certainlyNothingNew(w) {
				continue // whether this one is finished or not does not matter
			}
			return
		}
		if !r.certainlyNothingNew(w) && !(w.LimitMin && i == len(ps.windows)-1) {
			return
		}
		if i >= 1 && w.End.Before(d.at) {
			last = i
			break
		}
	}
	if last >= 1 {
		r.Exer["C08"]++
		r.violate("C08", "unready", "%s answered 503 although validation %d.%d completed exploration and nothing new was discovered since", d.Path, ps.idx, last)
	}
}

// certainlyNothingNew: every endpoint the validation can have seen was certainly seen before.
func (r *Run) certainlyNothingNew(w *Window) bool {
	if w.N == 0 {
		return false
	}
	if len(w.Faulted) > 0 {
		// unreadable files only reduce what is seen
		_ = w
	}
	before := map[string]bool{}
	for _, x := range w.ps.windows[:w.N] {
		if x.Dirty || x.Jump {
			return false
		}
		for e := range r.L(x).Ends {
			before[e.Module+" "+e.RRDP] = true
		}
	}
	for e := range r.U(w).Ends {
		if !before[e.Module+" "+e.RRDP] {
			return false
		}
	}
	return true
}

// --- validations ---

func (r *Run) windowStart(w *Window) {
	ps := w.ps
	k := w.N
	if k > 0 {
		prev := ps.windows[k-1]
		gap := w.At.Sub(prev.At)
		r.Exer["C12"]++
		if b := r.roundBound(ps, k); gap > b {
			r.violate("C12", "gap", "%v passed between validations %d.%d and %d.%d; the configured waiting times account for at most %v", gap, ps.idx, k-1, ps.idx, k, b)
		}
		r.checkRound(ps, prev, w)
	}
	r.checkRRDP(ps, w)
	r.checkTA(ps, w)
	r.checkForeign(w)
	if w.ConsecMin > r.Plan.MaxIter+2 {
		r.violate("C10", "limit", "%d validations in a row without waiting; the iteration limit is %d", w.ConsecMin, r.Plan.MaxIter)
	}
	if w.ConsecMin >= 3 {
		r.Exer["C10"]++
	}
	if r.isCT() && k > 0 {
		r.checkCT(ps, ps.windows[k-1])
	}
}

func (r *Run) windowEnd(w *Window) {
	if w.Dirty || w.Jump {
		return
	}
	for e := range r.U(w).Ends {
		m := w.ps.pairs[e.Module]
		if m == nil {
			m = map[string]bool{}
			w.ps.pairs[e.Module] = m
		}
		m[e.RRDP] = true
	}
}

// round returns the retrievals of the round that ended with window w.
func (r *Run) round(w *Window) []*Req {
	var out []*Req
	for i := len(r.Reqs) - 1; i >= 0; i-- {
		q := r.Reqs[i]
		if q.Proc == w.ps.p {
			if q.Round < w.N {
				break
			}
			if q.Round == w.N {
				out = append(out, q)
			}
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// state of one RRDP server in a round
type rrdpRound struct {
	srv      *RRDPServer
	asked    bool
	intact   bool // everything asked for arrived unaltered
	failed   bool // something certainly went wrong last
	oversize bool
	note     *Req
	snap     *Req
	deltas   []*Req
	reqs     []*Req
}

func (r *Run) rrdpState(reqs []*Req) map[string]*rrdpRound {
	out := map[string]*rrdpRound{}
	for _, q := range reqs {
		if q.Doc == "rsync" || q.Doc == "ct" || q.Doc == "tal" {
			continue
		}
		key := q.URL
		if q.Srv != nil {
			key = q.Srv.URL
		}
		srv := q.Srv
		if q.For != "" && q.For != key {
			// a document of another server, or of none, that an altered notification file refers to
			key, srv = q.For, r.rrdpOf(q.For)
		}
		s := out[key]
		if s == nil {
			s = &rrdpRound{srv: srv, intact: true}
			out[key] = s
		}
		s.asked = true
		s.reqs = append(s.reqs, q)
		if !q.Complete || q.Fault != "" {
			s.intact = false
		}
		s.failed = q.Bad && !q.Oversize
		s.oversize = s.oversize || q.Oversize
		switch q.Doc {
		case "notification":
			s.note = q
		case "snapshot":
			s.snap = q
		case "delta":
			s.deltas = append(s.deltas, q)
		}
	}
	return out
}

func (r *Run) rrdpOf(u string) *RRDPServer {
	for _, s := range r.w.RRDPs {
		if s.URL == u {
			return s
		}
	}
	return nil
}

// checkRound: failover (C11) and coverage (C10) of the round between two validations.
func (r *Run) checkRound(ps *procState, prev, w *Window) {
	reqs := r.round(w)
	st := r.rrdpState(reqs)
	execs := map[string]*Req{}
	for _, q := range reqs {
		if q.Doc == "rsync" {
			execs[q.Module] = q
		}
	}
	if prev.Dirty || prev.Jump {
		return
	}
	L := r.L(prev)
	taFile := func(m string) bool {
		for _, ta := range r.w.TAs {
			if ta.Rsync != "" && (ta.Rsync == m || strings.HasPrefix(ta.Rsync, m+"/")) {
				return true
			}
		}
		return false
	}
	for _, e := range sortedEnds(L.Ends) {
		if !r.usable(e) {
			continue
		}
		s := st[e.RRDP]
		ex := execs[e.Module]
		if ex == nil && (ps.failedLocally(e.Module, w.N, w.N) || ps.failedLocally(e.RRDP, w.N, w.N)) {
			continue
		}
		if e.RRDP == "" || r.Plan.NoRRDP {
			if ex == nil {
				r.violate("C10", "skipped", "round %d.%d did not fetch %s, which a valid certificate refers to", ps.idx, w.N, e.Module)
				r.violate("C11", "skipped", "round %d.%d did not fetch %s over rsync although no RRDP is in use for it", ps.idx, w.N, e.Module)
				r.starved(ps, w, prev, e)
			}
			continue
		}
		r.Exer["C11"]++
		if s == nil && ex == nil && r.Faults["hostile-trick-18"] == 0 {
			r.violate("C10", "skipped", "round %d.%d fetched neither %s nor %s, which a valid certificate refers to", ps.idx, w.N, e.RRDP, e.Module)
			r.violate("C11", "skipped", "round %d.%d fetched neither %s nor %s, which a valid certificate refers to", ps.idx, w.N, e.RRDP, e.Module)
			r.starved(ps, w, prev, e)
			continue
		}
		if s != nil && s.failed && !s.oversize && ex == nil && !r.Plan.NoFail {
			r.violate("C11", "nofailover", "in round %d.%d fetching %s failed (%s) but %s was not fetched over rsync", ps.idx, w.N, e.RRDP, lastFault(s), e.Module)
		}
	}
	// was every rsync called for?
	for _, m := range sortedKeys(execs) {
		if taFile(m) || r.Plan.NoRRDP {
			continue
		}
		pairs := ps.pairs[m]
		if len(pairs) == 0 {
			continue
		}
		why := ""
		for u := range pairs {
			s := st[u]
			switch {
			case u == "":
				why = "no rrdp"
			case s == nil:
				why = "not asked"
			case r.Plan.NoFail:
			case s.oversize && onlyOversize(s):
			case !s.intact || s.note == nil:
				why = "failed"
			}
			if s != nil && s.srv == nil {
				why = "unknown server"
			}
		}
		if why == "" && r.Faults["hostile-trick-18"] == 0 && r.Faults["disk"] == 0 && !r.writeFaultIn(prev.At) && len(r.evilRRDPs()) == 0 {
			r.violate("C11", "needless", "round %d.%d fetched %s over rsync although RRDP worked for it, failover is not allowed, or the response was merely too large", ps.idx, w.N, m)
		}
	}
}

// starved: hostile publication points kept an unrelated one from being fetched.
func (r *Run) starved(ps *procState, w, prev *Window, e Endpoint) {
	if r.Plan.Extra["static"] == 0 || len(r.hostileKey) == 0 {
		return
	}
	in := EvalIn{Files: prev.Files, T0: prev.T0, T1: prev.T0.Add(r.valSpan(prev)), Must: true, Strict: !r.Plan.NoStrict, Skip: r.skipHostile}
	if r.w.Evaluate(&in).Ends[e] {
		r.violate("C03", "starved", "round %d.%d did not fetch %s %s, which has nothing to do with the hostile publication points", ps.idx, w.N, e.Module, e.RRDP)
	}
}

func (r *Run) evilRRDPs() []*RRDPServer {
	var o []*RRDPServer
	for _, s := range r.w.RRDPs {
		if len(s.Evil)+len(s.EvilW) > 0 {
			o = append(o, s)
		}
	}
	return o
}

func onlyOversize(s *rrdpRound) bool {
	for _, q := range s.reqs {
		if q.Bad && !q.Oversize {
			return false
		}
	}
	return true
}

func (r *Run) writeFaultIn(t time.Time) bool { return r.wfSince(t) }

func lastFault(s *rrdpRound) string {
	q := s.reqs[len(s.reqs)-1]
	return q.Doc + " " + q.Fault
}

func sortedKeys[V any](m map[string]V) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// docFiles lists what a delivered RRDP document speaks about.
func docFiles(q *Req) map[string]*Obj {
	out := map[string]*Obj{}
	if q.Ver == nil {
		return out
	}
	v := q.Ver
	switch q.Doc {
	case "snapshot":
		for u, o := range v.Content {
			out[u] = o
		}
	case "delta":
		for _, u := range v.Pub {
			out[u] = v.Content[u]
		}
		for _, u := range v.Wd {
			out[u] = nil
		}
	default:
		return out
	}
	for u := range v.Raw {
		out[u] = nil
	}
	for _, u := range v.RawW {
		out[u] = nil
	}
	return out
}

func uriPath(u string) string {
	if !strings.HasPrefix(u, "rsync://") {
		return ""
	}
	return cleanRel(strings.TrimPrefix(u, "rsync://"))
}

// checkRRDP: the local copy after a round (C05).
func (r *Run) checkRRDP(ps *procState, w *Window) {
	reqs := r.round(w)
	st := r.rrdpState(reqs)
	since := ps.p.Started
	if w.N > 0 {
		since = ps.windows[w.N-1].At
	}
	wf := r.wfSince(since)
	rsynced := map[string]bool{}
	tals := map[string]bool{}
	for _, q := range reqs {
		if q.Doc == "rsync" {
			rsynced[q.Host] = true
		}
	}
	for _, ta := range r.w.TAs {
		tals[ta.CachePath] = true
	}
	if r.orphans(ps) || r.Faults["hostile-trick-18"] > 0 {
		return
	}
	for _, s := range r.w.RRDPs {
		x := st[s.URL]
		if len(s.Evil)+len(s.EvilW) > 0 || s.evilOnce {
			continue
		}
		if x != nil && x.failed && x.srv != nil {
			ps.failedIn[s.ID] = w.N
		}
		if rsynced[s.Host] {
			if x == nil || !x.failed {
				ps.mixed[s.ID] = true // rsync wrote here although RRDP did not fail
			}
			continue
		}
		if x == nil || x.note == nil || !x.note.Complete {
			continue
		}
		if wf {
			// what a write failed for now has to be there after the next intact round
			continue
		}
		if x.snap != nil && x.snap.Complete && x.snap.Fault == "" {
			delete(ps.mixed, s.ID)
		}
		if ps.mixed[s.ID] {
			continue
		}
		if !x.intact {
			r.checkNotApplied(ps, w, s, x, reqs)
			continue
		}
		v := x.note.Ver
		if v == nil {
			continue
		}
		r.Exer["C05"]++
		for _, u := range sortedKeys(v.Content) {
			p := uriPath(u)
			if p == "" || tals[p] {
				continue
			}
			d, ok := w.Files[p]
			if !ok || !bytes.Equal(d, v.Content[u].Data) {
				r.violate("C05", "differs", "after round %d.%d, in which every document of %s (session %d serial %d) arrived intact, the local copy of %s is %s", ps.idx, w.N, s.URL, v.Session, v.Serial, u, r.describe(d, ok))
				break
			}
		}
		for _, q := range x.deltas {
			for _, u := range q.Ver.Wd {
				if v.Content[u] != nil || tals[uriPath(u)] {
					continue
				}
				if d := w.Files[uriPath(u)]; len(d) > 0 {
					r.violate("C05", "withdrawn", "after round %d.%d, in which %s withdrew %s, it still holds %d bytes", ps.idx, w.N, s.URL, u, len(d))
				}
			}
		}
	}
}

func (r *Run) describe(d []byte, ok bool) string {
	if !ok {
		return "missing"
	}
	if len(d) == 0 {
		return "empty"
	}
	if o := r.w.Objs[hashes.sum(d)]; o != nil {
		return fmt.Sprintf("another published object (%s serial %d)", o.Kind, o.Serial)
	}
	return fmt.Sprintf("%d bytes nobody published", len(d))
}

// checkNotApplied: documents that arrived altered change nothing.
func (r *Run) checkNotApplied(ps *procState, w *Window, s *RRDPServer, x *rrdpRound, reqs []*Req) {
	if w.N == 0 {
		return
	}
	prev := ps.windows[w.N-1]
	bad := false
	for _, q := range x.reqs {
		bad = bad || q.Fault == "wrongcontent" || q.Fault == "garbage" || q.Fault == "badbase64" || q.Fault == "short200"
	}
	if !bad || x.note.Fault != "" {
		return
	}
	r.Exer["C05"]++
	okContent := map[string]map[[32]byte]bool{}
	wd := map[string]bool{}
	for _, q := range reqs { // other repositories may carry the same files
		if q.Complete && q.Fault == "" {
			for u, o := range docFiles(q) {
				if o == nil {
					wd[uriPath(u)] = true
					continue
				}
				m := okContent[uriPath(u)]
				if m == nil {
					m = map[[32]byte]bool{}
					okContent[uriPath(u)] = m
				}
				m[o.Hash] = true
			}
		}
	}
	for _, v := range s.Hist {
		for _, u := range sortedKeys(v.Content) {
			p := uriPath(u)
			a, aok := prev.Files[p]
			b, bok := w.Files[p]
			if aok == bok && bytes.Equal(a, b) {
				continue
			}
			if okContent[p][hashes.sum(b)] || (len(b) == 0 && wd[p]) || r.isTAPath(p) {
				continue
			}
			r.violate("C05", "badapplied", "in round %d.%d a document of %s arrived altered, yet the local copy of %s changed and is now %s", ps.idx, w.N, s.URL, u, r.describe(b, bok))
			return
		}
	}
}

func (r *Run) isTAPath(p string) bool {
	for _, ta := range r.w.TAs {
		if ta.CachePath == p {
			return true
		}
	}
	return false
}

// orphans: can an rsync of an earlier life still be writing?
func (r *Run) orphans(ps *procState) bool {
	for c, q := range r.childOf {
		if q.Proc != ps.p && (!c.Dead() || !c.Exited) {
			return true
		}
		if q.Proc != ps.p && !q.End.Before(ps.p.Started) {
			return true
		}
	}
	return false
}

// checkTA: retrieval of trust anchor certificates (C11, C13).
func (r *Run) checkTA(ps *procState, w *Window) {
	k := w.N
	reqs := r.round(w)
	since := ps.p.Started
	var prev *Window
	if k > 0 {
		prev = ps.windows[k-1]
		since = prev.At
	}
	if r.wfSince(since) || r.readFaults > 0 || w.Jump || r.skewed || r.orphans(ps) {
		return
	}
	for _, ta := range r.w.TAs {
		for _, q := range reqs {
			if q.Doc == "rsync" && q.Module == ta.Rsync && r.Plan.NoFail && len(ta.HTTP) > 0 && len(r.hostileKey) == 0 {
				r.violate("C11", "failoff", "round %d.%d fetched %s, the certificate of %s, over rsync although failover is not allowed", ps.idx, w.N, ta.Rsync, ta.Name)
			}
		}
		late := ps.failedLocally(ta.Rsync, k-1, k+1)
		for _, u := range ta.HTTP {
			late = late || ps.failedLocally(u, k-1, k+1)
		}
		if late {
			continue
		}
		var http []*Req
		var ex *Req
		for _, q := range reqs {
			if q.TA == ta && q.Doc == "tal" {
				http = append(http, q)
			}
			if q.Doc == "rsync" && ta.Rsync != "" && (q.Module == ta.Rsync || strings.HasPrefix(ta.Rsync, q.Module+"/")) {
				ex = q
			}
		}
		if k > 0 && !prev.Dirty && !prev.Jump && !r.U(prev).TAOK[ta.ID] {
			r.Exer["C13"]++
			if len(http) == 0 && ex == nil && (len(ta.HTTP) > 0 || !r.Plan.NoFail) {
				r.violate("C13", "norefetch", "there was no usable certificate for %s in validation %d.%d, yet the next round did not fetch it", ta.Name, ps.idx, k-1)
			}
		}
		if len(http) == 0 && ex == nil {
			continue
		}
		good := func(o *Obj) bool {
			return o != nil && o.KeyID == ta.Key.ID && o.SignerKey == o.KeyID && o.SigOK && !o.Bad && w.T0.After(o.NB.Add(slack)) && w.T1orNow(r).Before(o.NA.Add(-slack))
		}
		var first *Req
		tried := map[string]bool{}
		for _, q := range http {
			tried[q.URL] = true
			if first == nil && q.Complete && good(q.Cert) {
				first = q
			}
		}
		r.Exer["C11"]++
		if first != nil && (ex == nil) {
			if d := w.Files[ta.CachePath]; !bytes.Equal(d, first.Cert.Data) {
				r.violate("C11", "tadropped", "%s delivered a certificate matching the key of %s, but the cache holds %s", first.URL, ta.Name, r.describe(d, w.Files[ta.CachePath] != nil))
			}
			continue
		}
		if first == nil {
			for _, u := range ta.HTTP {
				if !tried[u] && len(http) > 0 {
					r.violate("C11", "taskipped", "no location tried so far delivered a certificate matching the key of %s, but %s was not tried", ta.Name, u)
				}
			}
			definite := len(http) > 0
			for _, q := range http {
				// a body that is no matching certificate, or no body
				if !(q.Bad || q.Cert != nil && q.Fault != "" && !good(q.Cert)) {
					definite = false
				}
			}
			if ta.Rsync != "" && ex == nil && !r.Plan.NoFail && (definite || len(ta.HTTP) == 0) {
				r.violate("C11", "tarsync", "no HTTP location delivered a certificate matching the key of %s, but %s was not tried", ta.Name, ta.Rsync)
			}
		}
		if ex != nil && ex.Complete && !r.hostTA(ta) && ex.Fault == "" && (first == nil) {
			if o := r.w.Objs[hashes.sum(w.Files[ta.CachePath])]; !good(o) && good(ta.Cert) && !ta.changedSince(ex.At) {
				r.violate("C11", "tarsyncuse", "rsync delivered the certificate of %s, but the cache holds %s", ta.Name, r.describe(w.Files[ta.CachePath], w.Files[ta.CachePath] != nil))
			}
		}
	}
}

func (r *Run) hostTA(ta *TA) bool            { return false }
func (ta *TA) changedSince(t time.Time) bool { return ta.IssuedAt.After(t.Add(-time.Second)) }

func (w *Window) T1orNow(r *Run) time.Time { return w.end(r) }

// checkForeign: content a hostile server published for foreign hosts never gets there (C07).
func (r *Run) checkForeign(w *Window) {
	if len(r.w.Evil) == 0 {
		return
	}
	r.Exer["C07"]++
	for _, f := range sortedKeys(w.Files) {
		d := w.Files[f]
		if owner, ok := r.w.Evil[hashes.sum(d)]; ok && !strings.HasPrefix(f, owner+"/") {
			r.violate("C07", "foreign", "data that the repository server of %s published ended up in %s", owner, f)
		}
	}
}

func (r *Run) stateOutside() bool {
	for _, f := range r.Plan.Flags {
		if strings.HasPrefix(f, "-rrdp.file=/work/state") {
			return true
		}
	}
	return false
}

// checkMutation: where the validator and its children change files (C07).
func (r *Run) checkMutation(t *verifsim.Task, ps *procState, op, real string) {
	if ps != nil && !ps.started {
		return
	}
	r.Exer["C07"]++
	if ps == nil {
		q := r.childOf[t.Proc]
		if q == nil {
			return
		}
		root := cacheDir + "/" + q.Host
		if !strings.HasPrefix(real, root+"/") && real != root {
			r.violate("C07", "rsync", "rsync of %q changed %s (%s)", q.URL, real, op)
		}
		return
	}
	if real == cacheDir {
		return
	}
	if !strings.HasPrefix(real, cacheDir+"/") {
		if path.Dir(real) == "/work" && (strings.Contains(path.Base(real), "output.json") || strings.Contains(path.Base(real), "state-rrdp.json") && r.stateOutside()) {
			return
		}
		r.violate("C07", "outside", "the validator changed %s (%s), outside its cache directory", real, op)
		return
	}
	rel := strings.TrimPrefix(real, cacheDir+"/")
	if op == "mkdir" || (!strings.Contains(rel, "/") && strings.Contains(rel, "rrdp.json")) {
		return
	}
	base := func(p string) bool { // p itself or a temporary name beside it
		return rel == p || (path.Dir(rel) == path.Dir(p) && strings.Contains(path.Base(rel), path.Base(p))) ||
			(path.Dir(rel) == path.Dir(p) && strings.HasPrefix(path.Base(rel), "."))
	}
	for _, ta := range r.w.TAs {
		if base(ta.CachePath) {
			return
		}
	}
	host := strings.SplitN(rel, "/", 2)[0]
	n := len(ps.windows)
	for i := len(r.Reqs) - 1; i >= 0; i-- {
		q := r.Reqs[i]
		if q.Proc != ps.p {
			continue
		}
		if q.Round < n {
			break
		}
		if q.Srv == nil || q.Srv.Host != host {
			continue
		}
		for u := range docFiles(q) {
			if base(uriPath(u)) {
				return
			}
		}
	}
	r.violate("C07", "origin", "the validator changed %s (%s), which nothing it fetched for that host in this round speaks about", rel, op)
}

// --- certificate transparency (C17) ---

func (r *Run) checkCT(ps *procState, w *Window) {
	if w.Dirty || w.Jump || !w.Closed {
		return
	}
	if !r.Plan.NoWait && !r.certainlyNothingNew(w) {
		return
	}
	if r.sim.StallProb > 0 { // a stalled sender may still be about to submit
		if time.Since(w.End) < time.Duration(r.sim.Stalls-w.stallAt0+1)*r.sim.MaxStall {
			return
		}
	}
	posted := map[string]bool{}
	n := 0
	for i := len(r.Reqs) - 1; i >= 0; i-- {
		q := r.Reqs[i]
		if q.Proc != ps.p {
			continue
		}
		if q.Round < w.N+1 {
			break
		}
		if q.Doc != "ct" || q.Round != w.N+1 {
			continue
		}
		n++
		posted[chainKey(q.Chain)] = true
	}
	L := r.L(w)
	r.Exer["C17"]++
	check := func(h [32]byte, c [][32]byte, what string) {
		for _, x := range c {
			if p, ok := L.Paths[x]; ok {
				if rd, ok := ps.readFault[p]; ok && rd >= w.N {
					return
				}
			}
		}
		if p, ok := L.Paths[h]; ok {
			if rd, ok := ps.readFault[p]; ok && rd >= w.N {
				return
			}
		}
		if !posted[chainKey(c)] {
			r.dumpFor(w, nil)
			r.violate("C17", "missing", "after validation %d.%d the chain of %s (%d certificates) was not submitted; %d submissions were made", ps.idx, w.N, what, len(c), n)
		}
	}
	for _, h := range sortedHashes(L.Chains) {
		check(h, L.Chains[h], L.Paths[h])
	}
	if len(ps.readFault) == 0 {
		for _, h := range sortedHashes(L.EE) {
			check(h, L.EE[h], "an end-entity certificate")
		}
	}
}

func sortedHashes[V any](m map[[32]byte]V) [][32]byte {
	o := make([][32]byte, 0, len(m))
	for h := range m {
		o = append(o, h)
	}
	sort.Slice(o, func(i, j int) bool { return bytes.Compare(o[i][:], o[j][:]) < 0 })
	return o
}

func chainKey(c [][32]byte) string {
	var b strings.Builder
	for _, h := range c {
		b.Write(h[:8])
	}
	return b.String()
}

// --- auxiliary endpoints (C19) ---

func (r *Run) checkResources(ps *procState, d *doc) {
	var x struct {
		Metadata struct {
			Generated int64 `json:"generated"`
		} `json:"metadata"`
		Resources []struct {
			Type string `json:"type"`
			Path string `json:"path"`
			TA   string `json:"ta"`
			Hash string `json:"hash"`
			Name string `json:"name"`
			SKI  string `json:"subject-key-id"`
			AKI  string `json:"authority-key-id"`
			From int64  `json:"validfrom"`
			To   int64  `json:"validto"`
			Num  string `json:"serial"`
			ASN  uint32 `json:"asn"`
			ROAs []struct {
				Prefix string `json:"prefix"`
				Max    int    `json:"max-length"`
			} `json:"roas"`
		} `json:"resources"`
	}
	if bytes.Equal(bytes.TrimSpace(d.Body), []byte("null")) && r.Plan.NoWait {
		return
	}
	if err := json.Unmarshal(d.Body, &x); err != nil {
		r.violate("C19", "resources", "the resources document does not parse: %v", err)
		return
	}
	cands, fuzzy := r.candidates(ps, x.Metadata.Generated)
	if fuzzy || r.readFaults > 0 {
		return
	}
	if len(cands) == 0 {
		if r.Plan.NoWait && len(x.Resources) == 0 {
			return
		}
		r.violate("C19", "origin", "the resources document says it was generated at %d, when no validation was running", x.Metadata.Generated)
		return
	}
	r.Exer["C19"]++
	msg := ""
	for _, w := range cands {
		u, l := r.U(w), r.L(w)
		msg = ""
		got := map[string]bool{}
		for _, e := range x.Resources {
			if e.Hash == "" { // no file of its own (embedded certificates)
				continue
			}
			got[e.Hash] = true
			hb, err := hex.DecodeString(e.Hash)
			var h [32]byte
			copy(h[:], hb)
			ta, ok := u.Valid[h]
			switch {
			case err != nil || len(hb) != 32:
				msg = fmt.Sprintf("entry %s has hash %q", e.Name, e.Hash)
			case !ok:
				if o := r.w.Objs[h]; !u.EEOf[h] && (o == nil || !o.Mutant && !o.RawRes) {
					msg = fmt.Sprintf("entry %s %s (%s) with hash %s was not valid in that validation", e.Type, e.Name, e.Path, e.Hash)
				}
			case ta != e.TA && !u.shared[h]:
				msg = fmt.Sprintf("entry %s (%s) is attributed to %s instead of %s", e.Name, e.Path, e.TA, ta)
			}
			if o := r.w.Objs[h]; msg == "" && o != nil && !o.Mutant && !o.Amb && !u.EEOf[h] {
				kind := map[string]string{"certificate": "cer", "roa": "roa", "manifest": "mft"}[e.Type]
				if kind != o.Kind {
					msg = fmt.Sprintf("entry %s (%s) is listed as a %s", e.Name, e.Path, e.Type)
				} else if want, have := fmt.Sprintf("%x %x %d %d %v", o.SKI, o.AKI, o.NB.Unix(), o.NA.Unix(), serialNumber(o.Serial)), fmt.Sprintf("%s %s %d %d %s", e.SKI, e.AKI, e.From, e.To, e.Num); want != have {
					msg = fmt.Sprintf("entry %s (%s) is listed with %q instead of %q", e.Name, e.Path, have, want)
				} else if kind == "roa" && !o.Odd && !slices.ContainsFunc(o.Res.V6, func(x IPR) bool { return x.Lo.Is4In6() }) {
					want, have := map[string]bool{}, map[string]bool{}
					for _, p := range o.Pfx {
						m := p.Max
						if m < 0 {
							m = p.P.Bits()
						}
						want[fmt.Sprintf("%s-%d", p.P.Masked(), m)] = true
					}
					for _, p := range e.ROAs {
						have[fmt.Sprintf("%s-%d", p.Prefix, p.Max)] = true
					}
					if w, g := strings.Join(sortedKeys(want), " "), strings.Join(sortedKeys(have), " "); w != g || int64(e.ASN) != o.ASID {
						msg = fmt.Sprintf("ROA %s (%s) is listed with AS%d %s instead of AS%d %s", e.Name, e.Path, e.ASN, g, o.ASID, w)
					}
				}
			}
			if p := uriPath(e.Path); p != "" && msg == "" {
				if fd, ok := w.Files[p]; ok && hashes.sum(fd) != h {
					msg = fmt.Sprintf("entry %s (%s) has hash %s which is not that of the cached file", e.Name, e.Path, e.Hash)
				}
			}
			if msg != "" {
				break
			}
		}
		if msg == "" {
			for _, h := range sortedHashes(l.Valid) {
				if !got[hex.EncodeToString(h[:])] {
					msg = fmt.Sprintf("%s (%s) was valid but is not listed", l.Paths[h], l.Valid[h])
				}
			}
		}
		if msg == "" {
			return
		}
	}
	r.dumpFor(cands[len(cands)-1], nil)
	r.violate("C19", "resources", "the resources document generated at %d does not match its validation: %s", x.Metadata.Generated, msg)
}

func distinct(m map[VRP]bool) int {
	s := map[VRP]bool{}
	for v := range m {
		s[v.key()] = true
	}
	return len(s)
}

func (r *Run) checkInfos(ps *procState, d *doc) {
	var x struct {
		Stable bool `json:"stable"`
		TAs    []struct {
			TA  string `json:"name"`
			Sia []struct {
				Rsync string `json:"rsync"`
				RRDP  string `json:"rrdp"`
			} `json:"sia"`
		} `json:"tas"`
		Last     int64 `json:"validation-last"`
		ROAsTALs []struct {
			TA    string `json:"ta"`
			Count int    `json:"count"`
		} `json:"roas-tal-count"`
		ROACount int `json:"roas-count"`
	}
	if err := json.Unmarshal(d.Body, &x); err != nil {
		r.violate("C19", "infos", "the information document does not parse: %v", err)
		return
	}
	if x.Last <= 0 && x.ROACount == 0 && len(ps.windows) <= 1 {
		return // before the first validation
	}
	cands, fuzzy := r.candidates(ps, x.Last)
	if fuzzy {
		return
	}
	if len(cands) == 0 {
		if x.Last <= 0 && len(x.TAs) == 0 {
			return
		}
		r.violate("C19", "infos-origin", "the information document says the last validation was at %d, when none was running", x.Last)
		return
	}
	r.Exer["C19"]++
	msg := ""
	stableOK := false
	for _, w := range cands {
		if s, _ := r.possiblyStable(w); s {
			stableOK = true
		}
	}
	for _, w := range cands {
		u, l := r.U(w), r.L(w)
		msg = ""
		if n := x.ROACount; n < distinct(l.VRP) || n > distinct(u.VRP) {
			msg = fmt.Sprintf("roas-count is %d, the validation authorised %d..%d", n, distinct(l.VRP), distinct(u.VRP))
		}
		if len(x.ROAsTALs) != len(r.w.TAs) {
			msg = fmt.Sprintf("roas-tal-count has %d entries for %d trust anchors", len(x.ROAsTALs), len(r.w.TAs))
		}
		for _, c := range x.ROAsTALs {
			if c.Count < l.Pre[c.TA] || c.Count > u.Pre[c.TA] {
				msg = fmt.Sprintf("roas-tal-count of %s is %d, the validation authorised %d..%d", c.TA, c.Count, l.Pre[c.TA], u.Pre[c.TA])
			}
		}
		got := map[string]bool{}
		for _, ta := range x.TAs {
			for _, s := range ta.Sia {
				got[s.Rsync] = true
				ok, rrdp, where := false, s.RRDP == "", ""
				for h, name := range u.Valid {
					o := r.w.Objs[h]
					if o == nil || o.Repo == "" || module(o.Repo) != s.Rsync {
						continue
					}
					if name != ta.TA && !u.shared[h] {
						where = name
						continue
					}
					ok = true
					rrdp = rrdp || o.RRDP == s.RRDP
				}
				if strings.Contains(s.Rsync, "/mx") { // of a certificate of which nothing is known
				} else if !ok && where != "" {
					msg = fmt.Sprintf("authority %s is listed below %s, it is below %s", s.Rsync, ta.TA, where)
				} else if !ok {
					msg = fmt.Sprintf("authority %s was not referred to by any valid certificate", s.Rsync)
				} else if !rrdp {
					msg = fmt.Sprintf("authority %s is listed with the RRDP address %s, which no certificate gives for it", s.Rsync, s.RRDP)
				}
				if s.RRDP == "" && len(r.hostileKey) == 0 && len(r.w.Hosts) > 0 {
					for h, name := range l.Valid {
						if o := r.w.Objs[h]; o != nil && name == ta.TA && !l.shared[h] && o.Repo != "" && module(o.Repo) == s.Rsync && o.RRDP != "" {
							msg = fmt.Sprintf("authority %s is listed without its RRDP address %s", s.Rsync, o.RRDP)
						}
					}
				}
			}
		}
		for _, e := range sortedEnds(l.Ends) {
			if r.usable(e) && !got[e.Module] && r.Faults["hostile-trick-18"] == 0 {
				msg = fmt.Sprintf("authority %s is missing", e.Module)
			}
		}
		if msg == "" {
			break
		}
	}
	if msg != "" {
		r.violate("C19", "infos", "the information document for the validation at %d does not match it: %s", x.Last, msg)
	}
	if x.Stable && !stableOK {
		w := cands[len(cands)-1]
		_, e := r.possiblyStable(w)
		r.violate("C10", "stable", "the process reports a stable state at validation %d.%d although %v had never been tried", ps.idx, w.N, e)
	}
}

func (r *Run) checkMetrics(ps *procState, d *doc) {
	if len(ps.windows) < 2 || r.skewed {
		return
	}
	n := len(ps.windows)
	r.Exer["C19"]++
	for _, line := range strings.Split(string(d.Body), "\n") {
		var val float64
		i := strings.LastIndex(line, " ")
		if i < 0 || strings.HasPrefix(line, "#") {
			continue
		}
		val, _ = strconv.ParseFloat(line[i+1:], 64)
		switch line[:i] {
		case "last_validation", "last_stable_validation", "state":
			ok := line[:i] != "last_validation" && val == 0
			for k := n - 1; k >= 0; k-- {
				w := ps.windows[k]
				if line[:i] != "last_stable_validation" && k < min(d.nWin0, n)-2 {
					break
				}
				if w.Dirty || w.Jump {
					ok = true
					break
				}
				if line[:i] != "state" {
					t := time.Unix(int64(val), 0)
					if w.T0.After(t.Add(time.Second)) || w.Closed && w.T1.Before(t.Add(-time.Second)) {
						continue
					}
				}
				if st, _ := r.possiblyStable(w); line[:i] == "last_validation" || st {
					ok = true
					break
				}
			}
			if !ok {
				r.violate("C19", "metrics", "the metric %s matches none of the validations", line)
			}
		}
		if strings.HasPrefix(line, "roas{ta=\"") {
			ta := strings.SplitN(strings.TrimPrefix(line, "roas{ta=\""), "\"", 2)[0]
			ok := false
			for k := n - 1; k >= 0 && k >= min(d.nWin0, n)-2; k-- {
				w := ps.windows[k]
				if w.Dirty || w.Jump || int(val) >= r.L(w).Pre[ta] && int(val) <= r.U(w).Pre[ta] {
					ok = true
				}
			}
			if !ok {
				r.violate("C19", "metrics", "the metric %s matches none of the latest validations", line)
			}
		}
	}
}

// --- convergence (C02, C03, C06) ---

func (r *Run) converge(ps *procState, d *doc) {
	if !r.healed || r.benignNeverEnding() {
		return
	}
	bad := ""
	if d.Code != 200 {
		bad = fmt.Sprintf("the list is not available (%d)", d.Code)
	} else if d.vrps != nil {
		bad = r.idealDiff(d.vrps, time.Duration(2*r.Plan.Refresh+180)*time.Second)
		if bad == "" && r.convAt.IsZero() {
			if r.lastBad = r.idealDiff(d.vrps, 0); r.lastBad != "" {
				return // right for the time the validation may have been made, not for now
			}
		}
	} else {
		return
	}
	if bad == "" {
		r.unreadyAt, r.divergedAt = time.Time{}, time.Time{}
		if r.convAt.IsZero() {
			r.convAt = time.Now()
			r.logf("converged")
			for _, p := range []string{"C02", "C06", "C03"} {
				r.Exer[p]++
			}
		}
		if time.Since(r.convAt) > time.Duration(r.Plan.Refresh)*1500*time.Millisecond+10*time.Second {
			r.finish()
		}
		return
	}
	r.lastBad = bad
	if !r.convAt.IsZero() {
		if d.Code != 200 { // what was found late is explored; readiness as such is judged by C08
			if r.unreadyAt.IsZero() {
				r.unreadyAt = time.Now()
			}
			if len(r.endless) > 0 || time.Since(r.unreadyAt) < 5*time.Minute {
				return
			}
		}
		now := r.wall(time.Now())
		for _, ta := range r.w.TAs {
			for _, o := range ta.Old {
				// the certificate in use expired and its successor takes a round to arrive
				if o.NA.Before(now) && now.Sub(o.NA) < time.Duration(2*r.Plan.Refresh+180)*time.Second {
					r.late()
					return
				}
			}
		}
		// A repository nobody referred to for a while can come back with an old cache
		// for the one validation that finds it: right by accident, then wrong, then right.
		if r.divergedAt.IsZero() {
			r.divergedAt = time.Now()
		}
		if time.Since(r.divergedAt) > time.Duration(2*r.Plan.Refresh+180)*time.Second {
			r.notConverged("diverged", "the published list was right after the faults had stopped and then became wrong without any change or fault, and stayed so: "+bad)
			r.finish()
		}
	}
}

func (r *Run) notConverged(key, msg string) {
	r.violate("C02", key, "%s", msg)
	if len(r.hostileKey) > 0 {
		r.violate("C03", key, "%s", msg)
	}
	if r.crashed > 0 {
		r.violate("C06", key, "%s", msg)
	}
}

// idealDiff compares with what the repositories now authorise.
func (r *Run) idealDiff(vs map[VRP]int, span time.Duration) string {
	now := r.wall(time.Now())
	ideal := r.idealFiles()
	base := EvalIn{T0: now.Add(-span), T1: now, Strict: !r.Plan.NoStrict, Filter: !r.Plan.NoFilter}
	in := base
	in.Files, in.Must, in.Skip = ideal, true, r.skipHostile
	l := r.w.Evaluate(&in)
	over := map[string][]byte{}
	for f, d := range r.fs.Files(cacheDir) {
		over[strings.TrimPrefix(f, cacheDir+"/")] = d
	}
	for f, d := range ideal {
		over[f] = d
	}
	in = base
	in.Files = over
	u := r.w.Evaluate(&in)
	have := map[VRP]bool{}
	for v := range vs {
		have[v.key()] = true
	}
	var m, x []VRP
	for v := range l.VRP {
		if !have[v.key()] {
			m = append(m, v)
		}
	}
	for v := range vs {
		if !u.VRP[v] && !r.hostileSpace(v) {
			x = append(x, v)
		}
	}
	if len(m)+len(x) == 0 {
		return ""
	}
	s := ""
	if len(m) > 0 {
		s += "missing " + vlist(m) + " "
	}
	if len(x) > 0 {
		s += "stale or unauthorised " + vlist(x)
	}
	return s
}

// hostileSpace: entries only a hostile CA can have asserted.
func (r *Run) hostileSpace(v VRP) bool {
	x := pfx(v.P)
	for _, c := range r.w.CAs {
		if !c.Hostile {
			continue
		}
		e := c.effRes()
		if ipCovers(e.V4, []IPR{x}) || ipCovers(e.V6, []IPR{x}) {
			return true
		}
	}
	return false
}

func (r *Run) benignNeverEnding() bool {
	for _, f := range r.Plan.Net {
		if f.To != 0 {
			continue
		}
		if !r.hostileTarget(f.Target) {
			return true
		}
	}
	return false
}

func (r *Run) hostileTarget(t string) bool {
	if r.evilHosts[t] {
		return true
	}
	for _, s := range r.w.RRDPs {
		if s.Name == t && r.evilHosts[s.Host] {
			return true
		}
	}
	return false
}

func (r *Run) deadlineHit() {
	if r.done {
		return
	}
	if r.Plan.Kind == "oneoff" {
		if r.oneoffOK == 0 {
			r.violate("C18", "never", "the one-off process never wrote a complete list although the faults stopped %v ago: %s", time.Since(r.healedAt), r.lastBad)
		}
		r.finish()
		return
	}
	if !r.benignNeverEnding() && r.convAt.IsZero() {
		msg := r.lastBad
		if msg == "" {
			msg = "no answer"
		}
		r.notConverged("noconvergence", fmt.Sprintf("%v after the last fault and change the published list is still wrong: %s", time.Since(r.healedAt), msg))
	}
	r.finish()
}

// --- one-off mode (C18) ---

func (r *Run) checkOneoffExit(ps *procState) {
	out, ok := r.fs.ReadRaw("/work/output.json")
	r.Exer["C18"]++
	ended := "ended"
	if ps.p.Killed {
		ended = "was killed"
	}
	normal := !ps.p.Killed && ps.p.Panic == "" && ps.p.ExitCode == 0
	if !normal && ok == r.prevOutOK && bytes.Equal(out, r.prevOut) {
		return // unchanged
	}
	if !ok {
		if r.prevOutOK || normal {
			r.violate("C18", "nofile", "the one-off process %s and there is no output file", ended)
		}
		return
	}
	l, vs, err := parseList(out)
	if err != nil {
		r.violate("C18", "torn", "the one-off process %s and left an output file of %d bytes that is not a complete list: %v", ended, len(out), err)
		return
	}
	if normal && r.prevOutOK && bytes.Equal(out, r.prevOut) && len(ps.windows) > 0 && !r.skewed && int64(l.Metadata.Generated) < ps.windows[0].T0.Unix() {
		// a normal end must have written this run's result
		r.violate("C18", "notwritten", "the one-off process ended normally without writing a list")
		return
	}
	cands, fuzzy := r.candidates(ps, int64(l.Metadata.Generated))
	if len(cands) == 0 {
		r.violate("C18", "origin", "the output file says it was generated at %d, when no validation was running", l.Metadata.Generated)
		return
	}
	if r.Plan.Sign {
		if a, b, err := l.CheckFile(&r.key.PublicKey); err != nil || !a || !b {
			r.violate("C18", "signature", "the signature of the output file does not verify")
		}
	}
	if fuzzy {
		return
	}
	r.compare(ps, cands, vs, "the output file", false)
	if !r.Plan.NoWait {
		okStable := false
		var why Endpoint
		for _, w := range cands {
			s, e := r.possiblyStable(w)
			okStable = okStable || s
			why = e
		}
		if !okStable {
			r.violate("C18", "early", "an output file was written before exploration was complete (%v not tried)", why)
		}
	}
	if normal && r.healed && ps.p.Started.After(r.healedAt) && !r.benignNeverEnding() {
		r.oneoffEnds++
		if bad := r.idealDiff(vs, time.Duration(2*r.Plan.Refresh+180)*time.Second); bad != "" {
			r.lastBad = bad
			if r.oneoffEnds == 1 && r.rsyncDamage() {
				return // a delta that came leaves the damaged copy of another file; the next run fetches a snapshot
			}
			r.violate("C18", "incomplete", "the one-off process ended normally long after the last fault with a wrong list: %s", bad)
		} else {
			r.oneoffOK++
			r.Exer["C02"]++
			if r.oneoffOK >= 2 {
				r.finish()
			}
		}
	}
}

// rsyncDamage: files were altered on their way by rsync.
func (r *Run) rsyncDamage() bool {
	for _, f := range r.Plan.Net {
		if f.Doc == "rsync" && f.Kind == "corrupt" {
			return true
		}
	}
	return false
}
