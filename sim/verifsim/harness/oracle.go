//go:build go1.22

package harness

import (
	"crypto/sha256"
	"fmt"
	"path"
	"strings"
	"time"
	"unsafe"
)

// The reference model: what a set of cached bytes authorises, by the rules the
// listed properties state. It reads object descriptors, not encoded objects.

type VRP struct {
	TA   string
	P    string
	Max  int
	ASN  int64
	Host string `json:"-"`
}

func (v VRP) key() VRP { return VRP{"", v.P, v.Max, v.ASN, ""} }
func (v VRP) String() string {
	return fmt.Sprintf("%s-%d AS%d (%s)", v.P, v.Max, v.ASN, v.TA)
}

type Endpoint struct{ Module, RRDP string }

// Result of evaluating one snapshot.
type Result struct {
	VRP    map[VRP]bool
	Pre    map[string]int // per trust anchor, entries before filtering
	Valid  map[[32]byte]string
	Paths  map[[32]byte]string // cache path of every valid object
	Ends   map[Endpoint]bool
	CAs    map[int]bool // CA id (author) valid
	Chains map[[32]byte][][32]byte
	TAOK   map[int]bool
	EE     map[[32]byte][][32]byte // embedded certificates
	EEOf   map[[32]byte]bool
	shared map[[32]byte]bool // valid under several trust anchors
}

type EvalIn struct {
	Files   map[string][]byte // path relative to the cache -> content
	T0, T1  time.Time
	Must    bool            // L: definitely valid; otherwise U: possibly valid
	Faulted map[string]bool // cache-relative paths whose read may have failed
	Strict  bool
	Filter  bool
	NoTAL   map[int]bool // TALs that could not be read
	Skip    func(o *Obj) bool
	LaxRev  bool // ignore revocation
	LaxMft  bool // ignore manifest completeness, validity and listing hashes
	LaxRes  bool // ignore resource containment
	LaxTA   bool // accept any trust anchor certificate
	Listed  bool // directories are read instead of manifests
	Why     func(string, ...any)
}

type hashCache struct {
	m map[*byte]cachedHash
}
type cachedHash struct {
	n int
	h [32]byte
}

func (c *hashCache) sum(b []byte) [32]byte {
	if len(b) == 0 {
		return sha256.Sum256(nil)
	}
	p := unsafe.SliceData(b)
	if e, ok := c.m[p]; ok && e.n == len(b) {
		return e.h
	}
	if len(c.m) > 20000 {
		c.m = map[*byte]cachedHash{}
	}
	h := sha256.Sum256(b)
	c.m[p] = cachedHash{len(b), h}
	return h
}

var hashes = hashCache{map[*byte]cachedHash{}}

const slack = time.Second

// inTime: is [nb,na] entered during (U) / throughout (L) the interval?
func (in *EvalIn) inTime(nb, na time.Time) bool {
	if in.Must {
		return !in.T0.Add(-slack).Before(nb) && !in.T1.Add(slack).After(na)
	}
	return !in.T1.Add(slack).Before(nb) && !in.T0.Add(-slack).After(na)
}

func localPath(uri string) string { return strings.TrimPrefix(uri, "rsync://") }

// cleanRel resolves a cache-relative path; "" when it leaves the cache.
func cleanRel(p string) string {
	c := path.Clean(p)
	if c == ".." || strings.HasPrefix(c, "../") {
		return ""
	}
	return strings.TrimPrefix(c, "/")
}

func (in *EvalIn) get(w *World, rel string) (data []byte, h [32]byte, o *Obj, ok bool) {
	rel = cleanRel(rel)
	data, ok = in.Files[rel]
	if !ok {
		return
	}
	if in.Must && in.Faulted[rel] {
		ok = false
		return
	}
	h = hashes.sum(data)
	o = w.Objs[h]
	if o == nil && !in.Must {
		if x, ok := sameSigned(data); ok { // altered where it does not matter
			o = w.Objs[x]
		}
	}
	if o == nil && in.Why != nil {
		in.Why("%s is unknown%s", rel, w.nearest(data))
	}
	return
}

// nearest tells which object the data differs from in a few bytes.
func (w *World) nearest(data []byte) string {
	for _, o := range w.Objs {
		if len(o.Data) != len(data) || len(data) == 0 {
			continue
		}
		var at []int
		for i := range data {
			if data[i] != o.Data[i] {
				if at = append(at, i); len(at) > 4 {
					break
				}
			}
		}
		if len(at) <= 4 {
			return fmt.Sprintf(": a %s of %d bytes altered at %v (%x instead of %x, after %x)", o.Kind, len(data), at, data[at[0]], o.Data[at[0]], data[max(0, at[0]-24):at[0]])
		}
	}
	return ""
}

type evalState struct {
	w    *World
	in   *EvalIn
	res  *Result
	keys map[string][32]byte // subject key identifiers in use, per trust anchor
	ta   *TA
}

func (w *World) Evaluate(in *EvalIn) *Result {
	res := &Result{VRP: map[VRP]bool{}, Pre: map[string]int{}, Valid: map[[32]byte]string{}, Paths: map[[32]byte]string{}, Ends: map[Endpoint]bool{},
		CAs: map[int]bool{}, Chains: map[[32]byte][][32]byte{}, TAOK: map[int]bool{}, EE: map[[32]byte][][32]byte{}, EEOf: map[[32]byte]bool{}, shared: map[[32]byte]bool{}}
	for _, ta := range w.TAs {
		if ta.Absent || in.NoTAL[ta.ID] {
			continue
		}
		st := &evalState{w: w, in: in, res: res, keys: map[string][32]byte{}, ta: ta}
		_, h, o, ok := in.get(w, ta.CachePath)
		if !ok || o == nil || o.Kind != "cer" || o.Bad || (in.Must && o.Amb) {
			continue
		}
		if !in.LaxTA && (o.KeyID != ta.Key.ID || o.SignerKey != o.KeyID || !o.SigOK || !in.inTime(o.NB, o.NA)) {
			continue
		}
		res.TAOK[ta.ID] = true
		if in.Skip != nil && in.Skip(o) {
			continue
		}
		st.ca(o, h, ta.CachePath, o.Res, [][32]byte{h}, 0)
	}
	return res
}

func module(uri string) string {
	p := strings.Split(strings.TrimPrefix(uri, "rsync://"), "/")
	if len(p) < 2 {
		return ""
	}
	return "rsync://" + p[0] + "/" + p[1]
}

func ext(n string) string {
	if len(n) > 4 {
		switch n[len(n)-4:] {
		case ".cer", ".mft", ".crl", ".roa":
			return n[len(n)-3:]
		}
	}
	return ""
}

// unlisted is the lax reading of a CA without any manifest.
func (s *evalState) unlisted(o *Obj, h [32]byte, at string, eff Res, chain [][32]byte, depth int) {
	base := localPath(o.Repo)
	for _, rel := range sortedKeys(s.in.Files) {
		d := s.in.Files[rel]
		if base == "" || !strings.HasPrefix(rel, base) || depth > 30 {
			continue
		}
		fo := s.w.Objs[hashes.sum(d)]
		if fo == nil || fo.SignerKey != o.KeyID {
			continue
		}
		if fo.Kind == "cer" && fo.CA && fo.KeyID != o.KeyID {
			s.ca(fo, hashes.sum(d), rel, fo.Res.effective(eff), chain, depth+1)
		}
		if fo.Kind == "roa" {
			for _, p := range fo.Pfx {
				m := p.Max
				if m < 0 {
					m = p.P.Bits()
				}
				s.res.VRP[VRP{TA: s.ta.Name, P: p.P.Masked().String(), Max: m, ASN: fo.ASID}] = true
			}
		}
	}
}

func (s *evalState) why(f string, a ...any) {
	if s.in.Why != nil {
		s.in.Why(f, a...)
	}
}

// listed evaluates an authority whose directory is read instead of its manifest.
func (s *evalState) listed(o *Obj, h [32]byte, at string, eff Res, chain [][32]byte, depth int) {
	base := localPath(o.Repo)
	if !strings.HasSuffix(base, "/") {
		base += "/"
	}
	if s.in.Must && o.Repo == "" {
		return
	}
	var items []entry
	users := map[string]int{} // of a key identifier
	for _, rel := range sortedKeys(s.in.Files) {
		if !strings.HasPrefix(rel, base) || strings.Contains(rel[len(base):], "/") {
			continue
		}
		_, fh, fo, ok := s.in.get(s.w, rel)
		if !ok || fo == nil || (s.in.Must && (fo.Bad || fo.Amb)) {
			continue
		}
		k := rel[strings.LastIndex(rel, ".")+1:]
		items = append(items, entry{rel[len(base):], rel, k, fh, fo})
		if fo.Kind != "crl" {
			users[fo.keyName()]++
		}
	}
	all, any := map[int64]int{}, map[int64]bool{}
	n := 0
	for _, it := range items {
		// one altered where it is not signed may be refused
		if !s.in.Must && s.in.Faulted[it.at] {
			continue
		}
		if it.kind == "crl" && it.o.Kind == "crl" && it.o.SignerKey == o.KeyID && it.o.SigOK && it.o.AKI == o.SKI && s.w.Objs[it.h] != nil {
			n++
			seen := map[int64]bool{}
			for _, x := range it.o.Revoked {
				any[x] = true
				if !seen[x] {
					all[x]++
				}
				seen[x] = true
			}
		}
	}
	if s.in.Must { // wherever it lies
		for _, rel := range sortedKeys(s.in.Files) {
			d := s.in.Files[rel]
			c := s.w.Objs[hashes.sum(d)]
			if c == nil {
				if x, ok := sameSigned(d); ok {
					c = s.w.Objs[x]
				}
			}
			if c != nil && c.Kind == "crl" && c.SignerKey == o.KeyID {
				for _, x := range c.Revoked {
					any[x] = true
				}
			}
		}
	}
	revoked := func(x int64) bool {
		if s.in.Must {
			return any[x]
		}
		return !s.in.LaxRev && n > 0 && all[x] == n
	}
	if s.in.Must {
		for _, it := range items { // nothing is valid once the manifest is revoked
			if it.kind == "mft" && it.o.Kind == "mft" && it.o.SignerKey == o.KeyID && any[it.o.Serial] {
				delete(s.res.Valid, h)
				delete(s.res.Paths, h)
				delete(s.res.Chains, h)
				return
			}
		}
	}
	if o.Author >= 0 {
		s.res.CAs[o.KeyID] = true
	}
	above := map[string]bool{} // an authority's own certificate found again below it
	for _, x := range chain {
		if c := s.w.Objs[x]; c != nil {
			above[c.SKI] = true
		}
	}
	for _, it := range items {
		s.why("listed %s: %s key %v sig %v revoked %v (serial %d) window %v..%v bad %v cms %v", it.at, it.o.Kind, it.o.SignerKey == o.KeyID, it.o.SigOK, revoked(it.o.Serial), it.o.Serial, it.o.NB, it.o.NA, it.o.Bad, it.o.CMSOK)
		if s.in.Must && it.o.Kind != "crl" && (users[it.o.keyName()] > 1 || above[it.o.keyName()]) {
			continue
		}
		s.item(o, it, eff, chain, depth, revoked)
	}
}

// keyName names the key an object introduces.
func (o *Obj) keyName() string {
	if o.Cert2 != nil {
		return o.Cert2.SKI
	}
	return o.SKI
}

// ca evaluates a valid CA certificate and everything below it.
func (s *evalState) ca(o *Obj, h [32]byte, at string, eff Res, chain [][32]byte, depth int) {
	if p, ok := s.res.Valid[h]; ok && p != s.ta.Name {
		s.res.shared[h] = true
	}
	s.res.Valid[h] = s.ta.Name
	s.res.Paths[h] = at
	s.res.Chains[h] = chain
	if o.Repo != "" {
		s.res.Ends[Endpoint{module(o.Repo), o.RRDP}] = true
	}
	if o.Mft == "" || !o.CA || depth > 60 {
		return
	}
	if s.in.Listed {
		s.listed(o, h, at, eff, chain, depth)
		return
	}
	full := false
	defer func() { // an authority whose manifest is not in order is not listed
		if s.in.Must && !full {
			delete(s.res.Valid, h)
			delete(s.res.Paths, h)
			delete(s.res.Chains, h)
		}
	}()
	_, mh, m, ok := s.in.get(s.w, localPath(o.Mft))
	if s.in.LaxMft && (!ok || m == nil || m.Kind != "mft") { // anything lying there, signed by the CA
		s.unlisted(o, h, at, eff, chain, depth)
		return
	}
	if ok && m != nil {
		s.why("manifest of %s: key %v sig %v aki %v ee %v..%v window %v..%v bad %v cms %v", at, m.SignerKey == o.KeyID, m.SigOK, m.AKI == o.SKI, m.NB, m.NA, m.This, m.Next, m.Bad, m.CMSOK)
	} else {
		s.why("manifest of %s: present %v known %v", at, ok, m != nil)
	}
	if !ok || m == nil || m.Kind != "mft" || m.Bad || (!m.CMSOK && !s.in.LaxMft) || (s.in.Must && m.Amb) {
		return
	}
	if !s.in.LaxMft && (m.SignerKey != o.KeyID || !m.SigOK || m.AKI != o.SKI || !s.in.inTime(m.NB, m.NA) || !s.in.inTime(m.This, m.Next)) {
		return
	}
	base := localPath(o.Repo)
	if !strings.HasSuffix(base, "/") {
		base += "/"
	}
	var items []entry
	complete := true
	for _, f := range m.Files {
		if strings.Contains(f.Name, "../") || strings.Contains(f.Name, "..\\") {
			return // such a manifest is not usable
		}
		p := base + f.Name
		_, fh, fo, ok := s.in.get(s.w, p)
		if !ok || fh != f.Hash && !s.in.LaxMft {
			complete = false
			s.why("%s lists %s: present %v intact %v", o.Mft, f.Name, ok, fh == f.Hash)
			continue
		}
		if s.in.Must && (fo == nil || fo.Bad || fo.Amb) {
			return // unreadable content: acceptance of the CA is not prescribed
		}
		if fo == nil {
			continue
		}
		items = append(items, entry{f.Name, p, ext(f.Name), fh, fo})
	}
	if !complete && (s.in.Strict || s.in.Must) && !s.in.LaxMft {
		return
	}
	if s.in.LaxMft {
		listed := map[string]bool{}
		for _, it := range items {
			listed[it.at] = true
		}
		for _, rel := range sortedKeys(s.in.Files) {
			d := s.in.Files[rel]
			if strings.HasPrefix(rel, base) && !listed[rel] && !strings.Contains(rel[len(base):], "/") {
				fh := hashes.sum(d)
				if fo := s.w.Objs[fh]; fo != nil {
					items = append(items, entry{rel[len(base):], rel, ext(rel), fh, fo})
				}
			}
		}
	}
	revoked := map[int64]bool{}
	for _, it := range items {
		if !s.in.Must && !s.in.Strict && s.in.Faulted[it.at] { // could not be read
			continue
		}
		if it.kind == "crl" && it.o.Kind == "crl" && it.o.SignerKey == o.KeyID && it.o.SigOK && it.o.AKI == o.SKI {
			for _, n := range it.o.Revoked {
				revoked[n] = true
			}
		}
	}
	if s.in.LaxRev {
		revoked = map[int64]bool{}
	}
	if revoked[m.Serial] {
		return
	}
	full = true
	if o.Author >= 0 {
		s.res.CAs[o.KeyID] = true
	}
	s.res.Valid[mh] = s.ta.Name
	s.res.Paths[mh] = localPath(o.Mft)
	if m.Cert2 != nil {
		s.res.EE[m.Cert2.Hash] = append([][32]byte{m.Cert2.Hash}, chain...)
	}
	for _, it := range items {
		s.item(o, it, eff, chain, depth, func(n int64) bool { return revoked[n] })
	}
}

type entry struct {
	name, at, kind string
	h              [32]byte
	o              *Obj
}

// item evaluates what a valid authority o refers to.
func (s *evalState) item(o *Obj, it entry, eff Res, chain [][32]byte, depth int, revoked func(int64) bool) {
	c := it.o
	switch {
	case it.kind == "mft" && c.Kind == "mft": // only in directories
		if c.Cert2 == nil || c.SignerKey != o.KeyID || !c.SigOK || c.AKI != o.SKI || !s.in.inTime(c.NB, c.NA) || revoked(c.Serial) {
			return
		}
		if !s.in.Must {
			s.res.EE[c.Cert2.Hash] = append([][32]byte{c.Cert2.Hash}, chain...)
		}
	case it.kind == "cer" && c.Kind == "cer":
		if c.Bad || c.SignerKey != o.KeyID || !c.SigOK || c.AKI != o.SKI || !s.in.inTime(c.NB, c.NA) || revoked(c.Serial) {
			return
		}
		ce := c.Res.effective(eff)
		s.why("cer %s res %+v eff %+v within %+v: %v", it.at, c.Res, ce, eff, eff.covers(ce))
		if (!eff.covers(ce) || !eff.covers(Res{V4: c.Res.V4, V6: c.Res.V6, AS: c.Res.AS})) && !s.in.LaxRes {
			return
		}
		if s.in.Skip != nil && s.in.Skip(c) {
			return
		}
		s.ca(c, it.h, it.at, ce, append([][32]byte{it.h}, chain...), depth+1)
	case it.kind == "roa" && c.Kind == "roa":
		if c.SignerKey != o.KeyID || !c.SigOK || c.AKI != o.SKI || !s.in.inTime(c.NB, c.NA) || revoked(c.Serial) {
			return
		}
		if c.Cert2 != nil && !s.in.Must {
			s.res.EEOf[c.Cert2.Hash] = true
		}
		if !c.CMSOK {
			return
		}
		s.why("roa %s ee %+v within %+v: %v", it.at, c.Res, eff, eff.covers(Res{V4: c.Res.V4, V6: c.Res.V6}))
		if !eff.covers(Res{V4: c.Res.V4, V6: c.Res.V6}) && !s.in.LaxRes {
			return
		}
		if s.in.Must && (c.Bad || c.Odd) {
			return
		}
		s.res.Valid[it.h] = s.ta.Name
		s.res.Paths[it.h] = it.at
		if c.Cert2 != nil {
			s.res.EE[c.Cert2.Hash] = append([][32]byte{c.Cert2.Hash}, chain...)
		}
		ee := c.Res.effective(eff)
		for _, p := range c.Pfx {
			x := pfxRange(p.P)
			in := Res{V6: []IPR{x}}
			max4, lim := 128, 48
			if p.P.Addr().Is4() {
				in = Res{V4: []IPR{x}}
				max4, lim = 32, 24
			}
			if s.in.Must && (c.Res.I4 || c.Res.I6) {
				continue
			}
			if !ee.covers(in) && !s.in.LaxRes {
				continue
			}
			m := p.Max
			if m < 0 {
				m = p.P.Bits()
			}
			if m < p.P.Bits() || m > max4 {
				continue
			}
			s.res.Pre[s.ta.Name]++
			if s.in.Filter && p.P.Bits() > lim {
				continue
			}
			s.res.VRP[VRP{TA: s.ta.Name, P: p.P.Masked().String(), Max: m, ASN: c.ASID}] = true
		}
	}
}
