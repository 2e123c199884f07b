//go:build go1.22

package harness

import (
	"bytes"
	"crypto/elliptic"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"net/netip"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

// Obj describes the meaning of one published byte string. The oracle works on
// these descriptors only; it never decodes what the program decodes.
type Obj struct {
	Hash      [32]byte
	Data      []byte
	Kind      string // cer crl mft roa other
	Author    int    // CA that made it
	Serial    int64
	NB, NA    time.Time
	SKI, AKI  string
	KeyID     int
	SignerKey int
	SigOK     bool
	CA        bool
	Res       Res
	Repo      string
	Mft       string
	RRDP      string
	CMSOK     bool
	Type      string // for cms: mft/roa
	This      time.Time
	Next      time.Time
	Files     []MftEntry
	ASID      int64
	Pfx       []ROAPfx
	Revoked   []int64
	Bad       bool // not decodable as its kind
	Amb       bool // acceptance not prescribed
	RawRes    bool // address blocks that are odd or malformed: whether they are accepted is not prescribed
	Mutant    bool // neither validity nor invalidity is known
	Odd       bool // a ROA whose acceptance as a whole is not prescribed
	Cert      []byte
	Cert2     *Obj
}

type World struct {
	Objs    map[[32]byte]*Obj
	TAs     []*TA
	CAs     []*CA
	Hosts   map[string]*Host
	RRDPs   []*RRDPServer
	r       *verifsim.Rand
	nkey    int
	routers int
	now     func() time.Time
	Gen     int
	// Published remembers, per cache-relative path, every hash ever published there.
	Evil   map[[32]byte]string // content hostile RRDP servers published for foreign hosts
	Log    func(string)
	DefVal time.Duration

	SameNames bool
	BER       bool // signed objects have the encoding that is not DER
}

type TA struct {
	ID        int
	Name      string
	Key       *Key
	CA        *CA
	TALPath   string
	HTTP      []string // http URIs (host part used as fault target)
	Rsync     string   // rsync URI ("" none)
	Order     []string
	CRLF      bool
	Absent    bool // not configured
	Cert      *Obj // current
	Old       []*Obj
	Wrong     *Obj // same URIs, different key
	Altered   *Obj // same public key, altered resources, not self-signed properly
	Expired   *Obj // right key, expired
	CachePath string
	IssuedAt  time.Time
}

type CA struct {
	ID       int
	Name     string
	TA       *TA
	Parent   *CA
	Depth    int
	Key      *Key
	Res      Res // as claimed
	Host     string
	Module   string
	Dir      string
	RRDP     *RRDPServer
	Serial   int64
	MftNum   int64
	MftKey   *Key
	Revoked  []int64
	ROAs     []*ROA
	Kids     []*CA
	Cert     *Obj // current certificate (published by parent)
	CertName string
	Extra    map[string]*Obj // extra files published and listed
	Unlisted map[string]*Obj // published but not listed
	Files    map[string]*Obj // what is currently published
	Val      time.Duration   // manifest/CRL validity
	CertVal  time.Duration
	Hostile  bool
	Gone     bool
	Flags    map[string]int64 // active tricks
	SIA      SIAOverride
	kidSeq   int
	NoCRL    bool
	OldROAs  []*Obj
	lastMft  *Obj
}

type SIAOverride struct {
	Repo, Mft, RRDP, CRLDP string
}

type ROA struct {
	Name   string
	ASID   int64
	Pfx    []ROAPfx
	EERes  Res
	Key    *Key
	Serial int64
	Val    time.Duration
	Obj    *Obj
	Mode   string // "", badsig, baddigest, overclaim-ee, outside-ee, nosigners, inherit, eebadsig, notyet, expired
	Gone   bool
}

type Host struct {
	Name string
	Tree map[string]*Obj // path relative to host (module/dir/file)
	Junk map[string][]byte
	Sym  map[string]string
}

type RRDPServer struct {
	ID       int
	Name     string // host name
	URL      string
	Host     string // rsync host it serves
	Session  int
	Serial   int64
	Cur      map[string]*Obj // uri -> content
	Hist     []*RRDPVersion
	Rolled   bool // restored from a backup, nothing published since
	Keep     int  // deltas kept
	Lag      time.Duration
	Evil     map[string][]byte // hostile additional publishes (uri -> data)
	EvilW    []string          // hostile withdraws
	Spaces   bool
	minKeep  int64
	evilOnce bool
}

type RRDPVersion struct {
	Session int
	Serial  int64
	At      time.Time
	Content map[string]*Obj
	Pub     []string // changed or new
	Wd      []string
	Raw     map[string][]byte
	RawW    []string
}

func sessionUUID(srv, n int) string {
	return fmt.Sprintf("%08x-0000-4000-8000-%012x", srv+1, n+1)
}

func NewWorld(r *verifsim.Rand, now func() time.Time) *World {
	cmsSpans = map[int][]cmsParts{}
	certSpans = map[[32]byte][]cmsSpan{}
	return &World{Objs: map[[32]byte]*Obj{}, Hosts: map[string]*Host{}, r: r, now: now,
		Evil: map[[32]byte]string{}, Log: func(string) {}, DefVal: 30 * 24 * time.Hour}
}

func (w *World) key() *Key { w.nkey++; return GetKey((w.nkey - 1) % NumKeys()) }

func (w *World) reg(o *Obj) *Obj {
	o.Hash = sha256.Sum256(o.Data)
	if p := w.Objs[o.Hash]; p != nil {
		return p
	}
	w.Objs[o.Hash] = o
	return o
}

func (w *World) host(n string) *Host {
	h := w.Hosts[n]
	if h == nil {
		h = &Host{Name: n, Tree: map[string]*Obj{}, Junk: map[string][]byte{}, Sym: map[string]string{}}
		w.Hosts[n] = h
	}
	return h
}

func (c *CA) Base() string { return "rsync://" + c.Host + "/" + c.Module + "/" + c.Dir }
func (c *CA) rel() string  { return c.Module + "/" + c.Dir }
func (c *CA) mftURI() string {
	if c.SIA.Mft != "" {
		return c.SIA.Mft
	}
	return c.Base() + c.Name + ".mft"
}
func (c *CA) repoURI() string {
	if c.SIA.Repo != "" {
		return c.SIA.Repo
	}
	return c.Base()
}
func (c *CA) rrdpURI() string {
	if c.SIA.RRDP != "" {
		return c.SIA.RRDP
	}
	if c.RRDP == nil {
		return ""
	}
	return c.RRDP.URL
}
func (c *CA) crlName() string { return c.Name + ".crl" }

// certObj builds and registers a certificate object.
func (w *World) certObj(s CertSpec, author int) *Obj {
	d := dCert(s)
	o := &Obj{Data: d, Kind: "cer", Author: author, Serial: s.Serial, NB: s.NB.Truncate(time.Second), NA: s.NA.Truncate(time.Second),
		SKI: string(s.SKI), AKI: string(s.AKI), KeyID: s.Key.ID, SignerKey: s.Signer.ID, SigOK: !s.BadSig,
		CA: s.CA, Res: s.Res, Repo: s.Repo, Mft: s.Mft, RRDP: s.RRDP}
	if s.RawIP != nil {
		// an extension with no address at all can be decoded
		o.Amb = bytes.Equal(s.RawIP, dSeq()) || bytes.Equal(s.RawIP, dSeq(dSeq(dOct([]byte{0, 1}), dSeq())))
		o.Bad = !o.Amb
		o.RawRes = true
	}
	return w.reg(o)
}

func (w *World) AddTA(host, module string, http []string, rsync bool, order string, all bool) *TA {
	id := len(w.TAs)
	ta := &TA{ID: id, Name: fmt.Sprintf("TA%d", id), Key: w.key(), TALPath: fmt.Sprintf("/work/tals/ta%d.tal", id), HTTP: http}
	ta.CA = &CA{ID: len(w.CAs), Name: fmt.Sprintf("ta%d", id), TA: ta, Key: ta.Key, Host: host, Module: module, Dir: fmt.Sprintf("ta%d/", id),
		Serial: 1, MftKey: w.key(), Extra: map[string]*Obj{}, Unlisted: map[string]*Obj{}, Files: map[string]*Obj{},
		Val: w.DefVal, CertVal: 2 * w.DefVal, Flags: map[string]int64{}}
	ta.CA.Res = Res{
		V4: []IPR{pfx(fmt.Sprintf("%d.0.0.0/8", 10+id))},
		V6: []IPR{pfx(fmt.Sprintf("2001:%x00::/24", 0x10+id))},
		AS: []ASR{{uint32(64500 + 65536*id), uint32(64500 + 65536*id + 4095)}},
	}
	if all { // like those of the registries
		ta.CA.Res = Res{V4: []IPR{pfx("0.0.0.0/0")}, V6: []IPR{pfx("::/0")}, AS: []ASR{{0, 1<<32 - 1}}}
	}
	w.CAs = append(w.CAs, ta.CA)
	w.TAs = append(w.TAs, ta)
	if rsync {
		ta.Rsync = fmt.Sprintf("rsync://%s/%s/ta%d.cer", host, "tacert", id)
		ta.CachePath = strings.TrimPrefix(ta.Rsync, "rsync://")
		w.host(host)
	} else {
		ta.CachePath = fmt.Sprintf("rfc8630/certs/%x.cer", sha1.Sum([]byte(http[len(http)-1])))
	}
	switch {
	case !rsync:
		ta.Order = append([]string{}, http...)
	case order == "rsync-first":
		ta.Order = append([]string{ta.Rsync}, http...)
	case order == "rsync-mid" && len(http) > 1:
		ta.Order = append([]string{http[0], ta.Rsync}, http[1:]...)
	default:
		ta.Order = append(append([]string{}, http...), ta.Rsync)
	}
	w.IssueTA(ta, ta.CA.CertVal)
	return ta
}

// IssueTA (re)issues the self-signed certificate.
func (w *World) IssueTA(ta *TA, val time.Duration) {
	ca := ta.CA
	ca.Serial++
	t := w.now()
	spec := CertSpec{Serial: ca.Serial, Issuer: ta.Name, Subject: ta.Name, NB: t.Add(-time.Hour), NA: t.Add(val),
		Key: ta.Key, Signer: ta.Key, SKI: ta.Key.SKI, CA: true, Res: ca.Res, Repo: ca.repoURI(), Mft: ca.mftURI(), RRDP: ca.rrdpURI()}
	if ta.ID%2 == 1 {
		spec.AKI = ta.Key.SKI
	}
	if ta.Cert != nil {
		ta.Old = append(ta.Old, ta.Cert)
	}
	ta.Cert = w.certObj(spec, ca.ID)
	ta.IssuedAt = t
	ca.Cert = ta.Cert
	if ta.Wrong == nil {
		k := w.key()
		ws := spec
		ws.Key, ws.Signer, ws.SKI = k, k, k.SKI
		if ws.AKI != nil {
			ws.AKI = k.SKI
		}
		ta.Wrong = w.certObj(ws, -1)
		as := spec
		as.Signer = k
		as.Serial += 1000
		as.Res = Res{V4: []IPR{pfx("0.0.0.0/0")}, V6: []IPR{pfx("::/0")}, AS: []ASR{{0, 4294967295}}}
		ta.Altered = w.certObj(as, -1)
		es := spec
		es.NB, es.NA = t.Add(-100*time.Hour), t.Add(-time.Hour)
		es.Serial += 2000
		ta.Expired = w.certObj(es, -1)
	}
	if ta.Rsync != "" {
		p := strings.SplitN(strings.TrimPrefix(ta.Rsync, "rsync://"), "/", 2)
		w.host(p[0]).Tree[p[1]] = ta.Cert
	}
}

// subRes carves the k-th child block out of p (effective resources of the parent).
func subRes(p Res, k int) Res {
	var o Res
	if len(p.V4) > 0 {
		if pf, ok := netip.PrefixFrom(p.V4[0].Lo, commonLen(p.V4[0])), true; ok && pf.Bits()+4 <= 24 {
			o.V4 = []IPR{carve(pf, k, 4)}
		}
	}
	if len(p.V6) > 0 {
		if pf := netip.PrefixFrom(p.V6[0].Lo, commonLen(p.V6[0])); pf.Bits()+4 <= 40 {
			o.V6 = []IPR{carve(pf, k, 4)}
		}
	}
	if len(p.AS) > 0 {
		n := uint32((uint64(p.AS[0].Hi) - uint64(p.AS[0].Lo) + 1) / 16)
		if n > 0 {
			lo := p.AS[0].Lo + n*uint32(k%16)
			o.AS = []ASR{{lo, lo + n - 1}}
		}
	}
	return o
}

func commonLen(r IPR) int {
	a, b := r.Lo.AsSlice(), r.Hi.AsSlice()
	n := 0
	for n < len(a)*8 && a[n/8]&(0x80>>(n%8)) == b[n/8]&(0x80>>(n%8)) {
		n++
	}
	return n
}

func carve(p netip.Prefix, k, bitsN int) IPR {
	b := p.Masked().Addr().AsSlice()
	for i := 0; i < bitsN; i++ {
		if k&(1<<(bitsN-1-i)) != 0 {
			pos := p.Bits() + i
			b[pos/8] |= 0x80 >> (pos % 8)
		}
	}
	a, _ := netip.AddrFromSlice(b)
	return pfxRange(netip.PrefixFrom(a, p.Bits()+bitsN))
}

// effRes is the resource set the CA really holds.
func (c *CA) effRes() Res {
	if c.Parent == nil {
		return c.Res
	}
	return c.Res.effective(c.Parent.effRes())
}

type CAOpts struct {
	Host, Module string
	RRDP         *RRDPServer
	Inherit      int // bit 0: v4, 1: v6, 2: as
	RangeRes     bool
	Multi        bool
	Hostile      bool
	CertVal      time.Duration
	Val          time.Duration
	Res          *Res
	Sub          int
}

func (w *World) AddCA(parent *CA, o CAOpts) *CA {
	id := len(w.CAs)
	c := &CA{ID: id, Name: fmt.Sprintf("ca%d", id), TA: parent.TA, Parent: parent, Depth: parent.Depth + 1, Key: w.key(),
		Host: o.Host, Module: o.Module, Dir: fmt.Sprintf("c%d/", id), RRDP: o.RRDP, Serial: 100, MftKey: w.key(),
		Extra: map[string]*Obj{}, Unlisted: map[string]*Obj{}, Files: map[string]*Obj{}, Val: o.Val, CertVal: o.CertVal,
		Hostile: o.Hostile || parent.Hostile, Flags: map[string]int64{}}
	if c.Val == 0 {
		c.Val = w.DefVal
	}
	if c.CertVal == 0 {
		c.CertVal = 2 * w.DefVal
	}
	k := parent.kidSeq
	parent.kidSeq++
	c.Res = subRes(parent.effRes(), k)
	if o.RangeRes && len(c.Res.V4) > 0 {
		// a range that is not a prefix: the first three quarters of the block
		n := commonLen(c.Res.V4[0])
		if n+2 <= 32 {
			c.Res.V4 = []IPR{{c.Res.V4[0].Lo, carve(netip.PrefixFrom(c.Res.V4[0].Lo, n), 2, 2).Hi}}
		}
	}
	if o.Multi { // a second, separate block of everything
		x := subRes(parent.effRes(), k+8)
		c.Res.V4 = canon(append(c.Res.V4, x.V4...))
		c.Res.V6 = canon(append(c.Res.V6, x.V6...))
		if len(c.Res.AS) > 0 {
			a := append(c.Res.AS, x.AS...)
			sort.Slice(a, func(i, j int) bool { return a[i].Lo < a[j].Lo })
			c.Res.AS = a
		}
	}
	if o.Inherit&1 != 0 {
		c.Res.V4, c.Res.I4 = nil, true
	}
	if o.Inherit&2 != 0 {
		c.Res.V6, c.Res.I6 = nil, true
	}
	if o.Inherit&4 != 0 {
		c.Res.AS, c.Res.A = nil, true
	}
	if o.Res != nil {
		c.Res = *o.Res
	}
	c.CertName = c.Name + ".cer"
	if w.SameNames { // files of different CAs have the same names
		used := map[string]bool{}
		for _, x := range parent.Kids {
			used[x.CertName] = true
		}
		i := w.r.Intn(3)
		for c.CertName = fmt.Sprintf("k%d.cer", i); used[c.CertName]; c.CertName = fmt.Sprintf("k%d.cer", i) {
			i++
		}
	}
	parent.Kids = append(parent.Kids, c)
	w.CAs = append(w.CAs, c)
	w.host(c.Host)
	w.IssueCA(c)
	return c
}

// IssueCA (re)issues c's certificate by its parent.
func (w *World) IssueCA(c *CA) {
	p := c.Parent
	p.Serial++
	t := w.now()
	c.Cert = w.certObj(CertSpec{Serial: p.Serial, Issuer: p.Name, Subject: c.Name, NB: t.Add(-time.Hour), NA: t.Add(c.CertVal),
		Key: c.Key, Signer: p.Key, SKI: c.Key.SKI, AKI: p.Key.SKI, CA: true, Res: c.Res,
		CRLDP: firstOf(c.SIA.CRLDP, p.Base()+p.crlName()), AIA: p.Base() + p.CertName,
		Repo: c.repoURI(), Mft: c.mftURI(), RRDP: c.rrdpURI()}, p.ID)
}

func firstOf(a ...string) string {
	for _, x := range a {
		if x != "" {
			return x
		}
	}
	return ""
}

// AddROA adds a ROA under c with n prefixes inside its resources.
func (w *World) AddROA(c *CA, mode string) *ROA {
	eff := c.effRes()
	r := &ROA{Name: fmt.Sprintf("r%d-%d.roa", c.ID, len(c.ROAs)), Key: w.key(), Val: 2 * w.DefVal, Mode: mode}
	if w.SameNames {
		r.Name = fmt.Sprintf("r%d.roa", len(c.ROAs))
	}
	if mode == "forged" {
		r.Key = weakKey()
	}
	r.ASID = int64(64000 + c.ID*10 + len(c.ROAs))
	if w.r.Chance(0.1) {
		r.ASID = 4200000000 + int64(c.ID)
	}
	if w.r.Chance(0.03) {
		r.ASID = 0
	}
	w.drawPrefixes(c, r, eff)
	c.ROAs = append(c.ROAs, r)
	w.SignROA(c, r)
	return r
}

func (w *World) drawPrefixes(c *CA, r *ROA, eff Res) {
	n := 1 + w.r.Intn(3)
	for i := 0; i < n; i++ {
		if w.r.Chance(0.6) || len(eff.V6) == 0 {
			if len(eff.V4) == 0 {
				continue
			}
			b := pickBlock(w.r, eff.V4)
			base := commonLen(b)
			l := max(base+1, 18+w.r.Intn(8)) // some longer than /24: filtered out
			if l > 32 {
				l = 32
			}
			p := randSub(w.r, b, base, l)
			m := -1
			if w.r.Chance(0.5) {
				m = min(32, l+w.r.Intn(5))
			}
			r.Pfx = append(r.Pfx, ROAPfx{p, m})
			r.EERes.V4 = append(r.EERes.V4, pfxRange(p))
		} else {
			b := pickBlock(w.r, eff.V6)
			base := commonLen(b)
			l := max(base+1, 40+w.r.Intn(11))
			p := randSub(w.r, b, base, l)
			m := -1
			if w.r.Chance(0.5) {
				m = min(128, l+w.r.Intn(9))
			}
			r.Pfx = append(r.Pfx, ROAPfx{p, m})
			r.EERes.V6 = append(r.EERes.V6, pfxRange(p))
		}
	}
	r.EERes.V4 = canon(r.EERes.V4)
	r.EERes.V6 = canon(r.EERes.V6)
}

func pickBlock(r *verifsim.Rand, l []IPR) IPR {
	if len(l) == 1 {
		return l[0]
	}
	return l[r.Intn(len(l))]
}

func canon(l []IPR) []IPR {
	sort.Slice(l, func(i, j int) bool { return l[i].Lo.Compare(l[j].Lo) < 0 })
	var o []IPR
	for _, x := range l {
		if n := len(o); n > 0 && (x.Lo.Compare(o[n-1].Hi) <= 0 || o[n-1].Hi.Next() == x.Lo) {
			if x.Hi.Compare(o[n-1].Hi) > 0 {
				o[n-1].Hi = x.Hi
			}
			continue
		}
		o = append(o, x)
	}
	return o
}

func randSub(r *verifsim.Rand, b IPR, base, l int) netip.Prefix {
	l = min(l, b.Lo.BitLen())
	for try := 0; try < 50; try++ {
		a := b.Lo.AsSlice()
		for i := base; i < l; i++ {
			if r.Intn(2) == 1 {
				a[i/8] |= 0x80 >> (i % 8)
			}
		}
		ad, _ := netip.AddrFromSlice(a)
		p := netip.PrefixFrom(ad, l)
		x := pfxRange(p)
		if b.Lo.Compare(x.Lo) <= 0 && x.Hi.Compare(b.Hi) <= 0 {
			return p.Masked()
		}
	}
	return netip.PrefixFrom(b.Lo, b.Lo.BitLen())
}

// ber: is the next signed object in BER rather than DER?
func (w *World) ber() bool { return w.BER && w.r.Chance(0.4) }

func (w *World) SignROA(c *CA, r *ROA) {
	c.Serial++
	r.Serial = c.Serial
	t := w.now()
	nb, na := t.Add(-time.Hour), t.Add(r.Val)
	if r.Mode == "notyet" {
		nb, na = t.Add(45*time.Minute), t.Add(30*24*time.Hour)
	}
	if r.Mode == "expired" {
		nb, na = t.Add(-48*time.Hour), t.Add(-time.Minute)
	}
	res := r.EERes
	pf := r.Pfx
	switch r.Mode {
	case "overclaim-ee": // EE claims resources outside the CA
		out := pfx(fmt.Sprintf("%d.200.0.0/16", 100+c.ID%50))
		res.V4 = canon(append(append([]IPR{}, res.V4...), out))
		pf = append(append([]ROAPfx{}, pf...), ROAPfx{netip.MustParsePrefix(fmt.Sprintf("%d.200.1.0/24", 100+c.ID%50)), -1})
	case "outside-ee": // ROA lists a prefix its EE certificate does not hold
		pf = append(append([]ROAPfx{}, pf...), ROAPfx{netip.MustParsePrefix(fmt.Sprintf("%d.201.1.0/24", 100+c.ID%50)), -1})
	case "inherit":
		res = Res{I4: true, I6: true}
	case "inherit-out":
		res = Res{I4: true, I6: true}
		pf = append(append([]ROAPfx{}, pf...), ROAPfx{netip.MustParsePrefix(fmt.Sprintf("%d.202.1.0/24", 100+c.ID%50)), -1})
	case "badmax":
		if len(pf) > 0 {
			pf = append([]ROAPfx{}, pf...)
			pf[0].Max = 1
		}
	}
	for _, x := range pf {
		if x.P.Addr().Is4In6() && r.Mode == "" { // may be refused
			r.Mode = "edge-out"
		}
	}
	signer := c.Key
	ee := CertSpec{Serial: r.Serial, Issuer: c.Name, Subject: fmt.Sprintf("roa-%s", r.Name), NB: nb, NA: na, Key: r.Key, Signer: signer,
		SKI: r.Key.SKI, AKI: c.Key.SKI, Res: res, CRLDP: c.Base() + c.crlName(), AIA: c.Base() + c.CertName,
		Signed: c.Base() + r.Name, BadSig: r.Mode == "eebadsig"}
	if r.Mode == "eewrongkey" {
		ee.Signer = r.Key
	}
	eeObj := w.certObj(ee, c.ID)
	cms := CMSSpec{Type: oidROA, Content: dROA(r.ASID, pf), EE: eeObj.Data, Key: r.Key, SKI: r.Key.SKI, Time: t,
		BadSig: r.Mode == "badsig", BadDigest: r.Mode == "baddigest", NoSigners: r.Mode == "nosigners", Forged: r.Mode == "forged", Indefinite: w.ber()}
	d := dCMS(cms)
	o := &Obj{Data: d, Kind: "roa", Author: c.ID, Serial: r.Serial, NB: eeObj.NB, NA: eeObj.NA, SKI: eeObj.SKI, AKI: eeObj.AKI,
		KeyID: r.Key.ID, SignerKey: eeObj.SignerKey, SigOK: eeObj.SigOK, Res: res,
		CMSOK: !cms.BadSig && !cms.BadDigest && !cms.NoSigners && !cms.Forged, ASID: r.ASID, Pfx: pf, Odd: r.Mode == "badmax" || r.Mode == "outside-ee" || r.Mode == "inherit" || r.Mode == "inherit-out" || r.Mode == "edge-out", Cert: eeObj.Data, Cert2: eeObj}
	r.Obj = w.reg(o)
}

// Commit regenerates CRL and manifest of c and updates its published files.
func (w *World) Commit(c *CA) {
	if c.Gone {
		return
	}
	t := w.now()
	files := map[string]*Obj{}
	for _, k := range c.Kids {
		if !k.Gone {
			files[k.CertName] = k.Cert
		}
	}
	for _, r := range c.ROAs {
		if !r.Gone {
			files[r.Name] = r.Obj
		}
	}
	for n, o := range c.Extra {
		files[n] = o
	}
	c.MftNum++
	this, next := t.Add(-time.Minute), t.Add(c.Val)
	if !c.NoCRL {
		spec := CRLSpec{Issuer: c.Name, Signer: c.Key, AKI: c.Key.SKI, Num: c.MftNum, This: this, Next: next, Revoked: append([]int64{}, c.Revoked...)}
		if len(spec.Revoked) > 0 { // the date does not matter
			spec.RevAt = t.Add(pick(w.r, 0, -time.Hour, -1000*time.Hour, 30*time.Minute, 900*time.Hour))
		}
		if c.Flags["crl-badsig"] != 0 {
			spec.BadSig = true
		}
		if c.Flags["mft-revoked-ee"] != 0 {
			spec.Revoked = append(spec.Revoked, c.Serial+1)
		}
		d := dCRL(spec)
		files[c.crlName()] = w.reg(&Obj{Data: d, Kind: "crl", Author: c.ID, AKI: string(c.Key.SKI), SignerKey: c.Key.ID, SigOK: !spec.BadSig, Revoked: spec.Revoked, Amb: spec.BadSig})
	}
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for i := len(names) - 1; i > 0; i-- {
		j := w.r.Intn(i + 1)
		names[i], names[j] = names[j], names[i]
	}
	var ents []MftEntry
	for _, n := range names {
		ents = append(ents, MftEntry{n, files[n].Hash})
	}
	switch {
	case c.Flags["mft-missing-file"] != 0:
		e := ".roa"
		if f := c.Flags["mft-missing-file"]; f > 1 {
			e = missingExts[int(f)%len(missingExts)]
		}
		ents = append(ents, MftEntry{"missing" + e, [32]byte{1, 2, 3}})
	case c.Flags["mft-wrong-hash"] != 0 && len(ents) > 0:
		ents[w.r.Intn(len(ents))].Hash[5] ^= 1
	case c.Flags["mft-traversal"] != 0:
		ents = append(ents, MftEntry{"../../../../../etc/passwd.roa", [32]byte{9}})
	}
	if c.Flags["mft-expired"] != 0 {
		this, next = t.Add(-3*time.Hour), t.Add(-time.Hour)
	}
	if c.Flags["mft-future"] != 0 {
		this, next = t.Add(100*time.Hour), t.Add(200*time.Hour)
	}
	c.Serial++
	ee := CertSpec{Serial: c.Serial, Issuer: c.Name, Subject: "mft-" + c.Name, NB: t.Add(-time.Hour), NA: next.Add(time.Hour), Key: c.MftKey, Signer: c.Key,
		SKI: c.MftKey.SKI, AKI: c.Key.SKI, Res: Res{I4: true, I6: true, A: true}, CRLDP: c.Base() + c.crlName(), AIA: c.Base() + c.CertName,
		Signed: c.Base() + c.Name + ".mft"}
	if c.Flags["mft-expired"] != 0 {
		ee.NA = t.Add(time.Hour)
	}
	if c.Flags["mft-ee-expired"] != 0 {
		ee.NB, ee.NA = t.Add(-48*time.Hour), t.Add(-time.Minute)
	}
	if c.Flags["mft-wrongkey"] != 0 {
		ee.Signer = c.MftKey
	}
	eeObj := w.certObj(ee, c.ID)
	cms := CMSSpec{Type: oidMFT, Content: dManifest(c.MftNum, this, next, ents), EE: eeObj.Data, Key: c.MftKey, SKI: c.MftKey.SKI, Time: t,
		BadSig: c.Flags["mft-badsig"] != 0, BadDigest: c.Flags["mft-baddigest"] != 0, NoSigners: c.Flags["mft-nosigners"] != 0, Indefinite: w.ber()}
	d := dCMS(cms)
	m := w.reg(&Obj{Data: d, Kind: "mft", Author: c.ID, Serial: c.Serial, NB: eeObj.NB, NA: eeObj.NA, SKI: eeObj.SKI, AKI: eeObj.AKI,
		KeyID: c.MftKey.ID, SignerKey: eeObj.SignerKey, SigOK: eeObj.SigOK, Res: ee.Res, This: this.Truncate(time.Second), Next: next.Truncate(time.Second), Files: ents,
		CMSOK: !cms.BadSig && !cms.BadDigest && !cms.NoSigners, Cert: eeObj.Data, Cert2: eeObj})
	c.lastMft = m
	if c.Flags["mft-garbage"] != 0 {
		m = w.reg(&Obj{Data: garble(w.r, d, int(c.Flags["mft-garbage"])), Kind: "other", Author: c.ID, Bad: true})
	}
	if c.Flags["mft-absent"] == 0 {
		files[c.Name+".mft"] = m
	}
	for n, o := range c.Unlisted {
		files[n] = o
	}
	w.publish(c, files)
}

var missingExts = []string{".roa", ".cer", ".crl", ".gbr", ".asa", ".mft", ".txt", ""}

// ecKey is the n-th key of a router.
func ecKey(n int) *Key {
	x, y := elliptic.P256().ScalarBaseMult([]byte{7, byte(n >> 8), byte(n)})
	pt := elliptic.Marshal(elliptic.P256(), x, y)
	h := sha1.Sum(pt)
	return &Key{ID: 1000000 + n, SKI: h[:], SPKI: dSeq(dSeq(dOID(1, 2, 840, 10045, 2, 1), dOID(1, 2, 840, 10045, 3, 1, 7)), dBits(pt, 0))}
}

// AddOther lists an object that has no part in origin validation.
func (w *World) AddOther(c *CA, kind int) {
	t := w.now()
	signed := func(n, kind string, typ, content []byte) {
		k := w.key()
		c.Serial++
		ee := w.certObj(CertSpec{Serial: c.Serial, Issuer: c.Name, Subject: "o-" + n, NB: t.Add(-time.Hour), NA: t.Add(1000 * time.Hour), Key: k, Signer: c.Key,
			SKI: k.SKI, AKI: c.Key.SKI, Res: Res{I4: true, I6: true, A: true}, CRLDP: c.Base() + c.crlName(), AIA: c.Base() + c.CertName, Signed: c.Base() + n}, c.ID)
		d := dCMS(CMSSpec{Type: typ, Content: content, EE: ee.Data, Key: k, SKI: k.SKI, Time: t, Indefinite: w.ber()})
		c.Extra[n] = w.reg(&Obj{Data: d, Kind: kind, Author: c.ID, Serial: c.Serial})
	}
	n := fmt.Sprintf("o%d", len(c.Extra))
	switch kind % 4 {
	case 0:
		signed(n+".gbr", "gbr", dOID(1, 2, 840, 113549, 1, 9, 16, 1, 35), []byte("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:Somebody\r\nEND:VCARD\r\n"))
	case 1:
		signed(n+".asa", "asa", dOID(1, 2, 840, 113549, 1, 9, 16, 1, 49), dSeq(tlv(0xa0, dI64(1)), dI64(64999), dSeq(dI64(65001), dI64(65002))))
	case 2:
		w.routers++
		k := ecKey(w.routers)
		c.Serial++
		c.Extra[n+".cer"] = w.certObj(CertSpec{Serial: c.Serial, Issuer: c.Name, Subject: fmt.Sprintf("ROUTER-%08X", k.ID), NB: t.Add(-time.Hour), NA: t.Add(1000 * time.Hour), Key: k, Signer: c.Key,
			SKI: k.SKI, AKI: c.Key.SKI, Res: Res{A: true}, CRLDP: c.Base() + c.crlName(), AIA: c.Base() + c.CertName}, c.ID)
	case 3: // not even encoded
		ext := pick(w.r, ".txt", ".txt", "", ".gbr", ".sig")
		d := []byte(fmt.Sprintf("# %s\nSee https://rpki.%s/ for what is here.\n", n, c.Host))
		if w.r.Chance(0.2) {
			d = nil
		}
		c.Extra[n+ext] = w.reg(&Obj{Data: d, Kind: "txt", Author: c.ID})
	}
}

// garble makes undecodable bytes out of d.
func garble(r *verifsim.Rand, d []byte, how int) []byte {
	switch how % 5 {
	case 1: // truncated
		return append([]byte{}, d[:len(d)/2]...)
	case 2: // cut inside the first header
		return append([]byte{}, d[:min(3, len(d))]...)
	case 3: // empty
		return []byte{}
	case 4: // random bytes
		b := make([]byte, 64+r.Intn(200))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	}
	// deep nesting of indefinite-length constructed values
	n := 3000
	return []byte(strings.Repeat("\x30\x80", n))
}

func (w *World) publish(c *CA, files map[string]*Obj) {
	w.Gen++
	h := w.host(c.Host)
	for n := range c.Files {
		if _, ok := files[n]; !ok {
			delete(h.Tree, c.rel()+n)
		}
	}
	for n, o := range files {
		h.Tree[c.rel()+n] = o
	}
	c.Files = files
}

// Remove withdraws everything c publishes.
func (w *World) Remove(c *CA) {
	if c.Gone {
		return
	}
	for _, k := range c.Kids {
		w.Remove(k)
	}
	w.publish(c, map[string]*Obj{})
	c.Gone = true
}

// --- RRDP ---

func (w *World) AddRRDP(host string) *RRDPServer {
	id := len(w.RRDPs)
	s := &RRDPServer{ID: id, Name: fmt.Sprintf("rrdp%d.sim", id), Host: host, Session: 0, Serial: 0, Keep: 1 + w.r.Intn(6),
		Cur: map[string]*Obj{}, Evil: map[string][]byte{}}
	s.URL = fmt.Sprintf("https://%s/rrdp/notification.xml", s.Name)
	w.RRDPs = append(w.RRDPs, s)
	return s
}

// Sync makes the RRDP server publish the current files of its CAs as a new version.
func (w *World) Sync(s *RRDPServer) {
	if s.Rolled { // versions are not numbered twice in a session
		s.NewSession()
	}
	cur := map[string]*Obj{}
	for _, c := range w.CAs {
		if c.RRDP == s && !c.Gone {
			for n, o := range c.Files {
				cur[c.Base()+n] = o
			}
		}
	}
	v := &RRDPVersion{Session: s.Session, At: w.now(), Content: cur, Raw: map[string][]byte{}}
	for _, u := range sortedKeys(cur) {
		o := cur[u]
		if p := s.Cur[u]; p == nil || p.Hash != o.Hash {
			v.Pub = append(v.Pub, u)
		}
	}
	for _, u := range sortedKeys(s.Cur) {
		if cur[u] == nil {
			v.Wd = append(v.Wd, u)
		}
	}
	for u, d := range s.Evil {
		v.Raw[u] = d
	}
	v.RawW = append(v.RawW, s.EvilW...)
	if len(v.Pub) == 0 && len(v.Wd) == 0 && s.Serial > 0 && len(v.Raw) == 0 && len(v.RawW) == 0 {
		return
	}
	sort.Strings(v.Pub)
	sort.Strings(v.Wd)
	s.Serial++
	v.Serial = s.Serial
	s.Cur = cur
	s.Hist = append(s.Hist, v)
}

func (s *RRDPServer) NewSession() {
	s.Rolled = false
	s.Session++
	s.Serial = 1 + int64(s.Session%3)*5
	if n := len(s.Hist); n > 0 {
		o := s.Hist[n-1]
		s.Hist = append(s.Hist, &RRDPVersion{Session: s.Session, Serial: s.Serial, At: o.At, Content: o.Content, Raw: o.Raw, RawW: o.RawW})
	}
}

// Rollback makes the server forget its last n versions, as after being restored from a backup.
func (s *RRDPServer) Rollback(n int) bool {
	i := len(s.Hist) - 1
	for ; n > 0 && i > 0 && s.Hist[i-1].Session == s.Session && s.Hist[i-1].Serial == s.Hist[i].Serial-1; n-- {
		i--
	}
	if i == len(s.Hist)-1 || i < 0 {
		return false
	}
	o := s.Hist[i]
	s.Serial, s.Cur, s.Rolled = o.Serial, o.Content, true
	s.Hist = append(s.Hist, o)
	return true
}

func (s *RRDPServer) Version(session int, serial int64) *RRDPVersion {
	for i := len(s.Hist) - 1; i >= 0; i-- {
		if s.Hist[i].Session == session && s.Hist[i].Serial == serial {
			return s.Hist[i]
		}
	}
	return nil
}

func b64lines(b []byte, spaces bool) string {
	s := base64.StdEncoding.EncodeToString(b)
	if !spaces {
		return s
	}
	var o strings.Builder
	for len(s) > 64 {
		o.WriteString(s[:64] + "\n")
		s = s[64:]
	}
	o.WriteString(s)
	return "\n" + o.String() + "\n"
}

func xmlEsc(s string) string {
	r := strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;")
	return r.Replace(s)
}

const rrdpNS = `xmlns="http://www.ripe.net/rpki/rrdp" version="1"`

func (s *RRDPServer) SnapshotXML(v *RRDPVersion) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "<snapshot %s session_id=\"%s\" serial=\"%d\">\n", rrdpNS, sessionUUID(s.ID, v.Session), v.Serial)
	us := make([]string, 0, len(v.Content))
	for u := range v.Content {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprintf(&b, "<publish uri=\"%s\">%s</publish>\n", xmlEsc(u), b64lines(v.Content[u].Data, s.Spaces))
	}
	s.evilXML(&b, v, false)
	b.WriteString("</snapshot>\n")
	return []byte(b.String())
}

func (s *RRDPServer) evilXML(b *strings.Builder, v *RRDPVersion, delta bool) {
	us := make([]string, 0, len(v.Raw))
	for u := range v.Raw {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprintf(b, "<publish uri=\"%s\">%s</publish>\n", xmlEsc(u), b64lines(v.Raw[u], false))
	}
	for _, u := range v.RawW {
		fmt.Fprintf(b, "<withdraw uri=\"%s\" hash=\"00\"/>\n", xmlEsc(u))
	}
}

func (s *RRDPServer) DeltaXML(v, prev *RRDPVersion) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "<delta %s session_id=\"%s\" serial=\"%d\">\n", rrdpNS, sessionUUID(s.ID, v.Session), v.Serial)
	for _, u := range v.Pub {
		h := ""
		if prev != nil && prev.Content[u] != nil {
			h = fmt.Sprintf(" hash=\"%x\"", prev.Content[u].Hash)
		}
		fmt.Fprintf(&b, "<publish uri=\"%s\"%s>%s</publish>\n", xmlEsc(u), h, b64lines(v.Content[u].Data, s.Spaces))
	}
	for _, u := range v.Wd {
		h := [32]byte{}
		if prev != nil && prev.Content[u] != nil {
			h = prev.Content[u].Hash
		}
		fmt.Fprintf(&b, "<withdraw uri=\"%s\" hash=\"%x\"/>\n", xmlEsc(u), h)
	}
	s.evilXML(&b, v, true)
	b.WriteString("</delta>\n")
	return []byte(b.String())
}

func (s *RRDPServer) docURL(kind string, v *RRDPVersion) string {
	return fmt.Sprintf("https://%s/rrdp/%d/%d/%s.xml", s.Name, v.Session, v.Serial, kind)
}

func (s *RRDPServer) NotificationXML(v *RRDPVersion) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "<notification %s session_id=\"%s\" serial=\"%d\">\n", rrdpNS, sessionUUID(s.ID, v.Session), v.Serial)
	sn := s.SnapshotXML(v)
	fmt.Fprintf(&b, "<snapshot uri=\"%s\" hash=\"%x\"/>\n", s.docURL("snapshot", v), sha256.Sum256(sn))
	for ser := v.Serial; ser > v.Serial-int64(s.Keep) && ser >= s.minKeep; ser-- {
		d := s.Version(v.Session, ser)
		if d == nil || ser <= 0 {
			break
		}
		prev := s.Version(v.Session, ser-1)
		if ser > 1 && prev == nil { // first version of a session has no delta
			break
		}
		x := s.DeltaXML(d, prev)
		hs := fmt.Sprintf("%x", sha256.Sum256(x))
		if s.ID%2 == 1 {
			hs = strings.ToUpper(hs)
		}
		fmt.Fprintf(&b, "<delta serial=\"%d\" uri=\"%s\" hash=\"%s\"/>\n", ser, s.docURL("delta", d), hs)
	}
	b.WriteString("</notification>\n")
	return []byte(b.String())
}

// Cached is the content the cache would hold if everything had been fetched.
func (w *World) Ideal() map[string][]byte {
	out := map[string][]byte{}
	for _, h := range w.Hosts {
		for p, o := range h.Tree {
			out[h.Name+"/"+p] = o.Data
		}
	}
	return out
}
