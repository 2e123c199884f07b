//go:build go1.22

package harness

import (
	"crypto/sha256"
	"fmt"
	"net/netip"
	"sort"
	"strings"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

const maxKeysUsed = 300

// benign lists the live CAs that behave.
func (r *Run) benign() []*CA {
	var out []*CA
	for _, c := range r.w.CAs {
		if !c.Hostile && !c.Gone {
			out = append(out, c)
		}
	}
	return out
}

func (r *Run) anyCA(n int) *CA { l := r.benign(); return l[n%len(l)] }
func (r *Run) nonTA(n int) *CA {
	var l []*CA
	for _, c := range r.benign() {
		if c.Parent != nil {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[n%len(l)]
}

func liveROAs(c *CA) []*ROA {
	var out []*ROA
	for _, x := range c.ROAs {
		if !x.Gone {
			out = append(out, x)
		}
	}
	return out
}

// publish commits CAs and lets their RRDP servers follow, possibly later.
func (r *Run) publish(lag int64, cas ...*CA) {
	seen := map[*RRDPServer]bool{}
	var list []*RRDPServer
	for _, c := range cas {
		if c == nil {
			continue
		}
		r.w.Commit(c)
		if c.RRDP != nil && !seen[c.RRDP] {
			seen[c.RRDP] = true
			list = append(list, c.RRDP)
		}
	}
	r.syncLater(lag, list...)
}

func (r *Run) syncLater(lag int64, list ...*RRDPServer) {
	for _, s := range list {
		if s == nil {
			continue
		}
		s := s
		if lag > 0 && !r.healed {
			r.at(r.ms()+lag, func() { r.w.Sync(s); r.late() })
		} else {
			r.w.Sync(s)
		}
	}
}

func (r *Run) event(e Event) {
	if r.healed {
		return
	}
	w := r.w
	r.logf("event %s a=%d b=%d lag=%d", e.Kind, e.A, e.B, e.Lag)
	if r.local != nil {
		if strings.HasPrefix(e.Kind, "file-") {
			r.fileEvent(e)
			return
		}
		defer r.localHistory()
	}
	r.fired("repo-" + e.Kind)
	switch e.Kind {
	case "addroa":
		c := r.anyCA(e.A)
		if w.nkey > maxKeysUsed {
			return
		}
		w.AddROA(c, "")
		r.publish(e.Lag, c)
	case "other":
		c := r.anyCA(e.A)
		if w.nkey > maxKeysUsed {
			return
		}
		w.AddOther(c, e.B)
		r.publish(e.Lag, c)
	case "delroa":
		c := r.anyCA(e.A)
		if l := liveROAs(c); len(l) > 0 {
			l[e.B%len(l)].Gone = true
		}
		r.publish(e.Lag, c)
	case "flap": // withdrawn, and back in a later serial
		c := r.anyCA(e.A)
		for i := 0; i < 8 && (c.RRDP == nil || len(liveROAs(c)) == 0); i++ {
			c = r.anyCA(e.A + i)
		}
		if l := liveROAs(c); len(l) > 0 {
			x := l[e.B%len(l)]
			x.Gone = true
			r.publish(0, c)
			if e.B%3 == 0 {
				r.publish(0, c)
			}
			x.Gone = false
		}
		r.publish(e.Lag, c)
	case "modroa":
		c := r.anyCA(e.A)
		l := liveROAs(c)
		if len(l) == 0 || w.nkey > maxKeysUsed {
			return
		}
		o := l[e.B%len(l)]
		if e.B%2 == 0 { // same file name, other content
			o.ASID += 1000
			w.SignROA(c, o)
		} else {
			o.Gone = true
			n := w.AddROA(c, "")
			if len(n.Pfx) > len(o.Pfx) {
				n.Pfx = n.Pfx[:len(o.Pfx)]
				w.SignROA(c, n)
			}
		}
		r.publish(e.Lag, c)
	case "addca":
		p := r.anyCA(e.A)
		if w.nkey > maxKeysUsed || p.Depth > 6 || len(p.effRes().V4) == 0 {
			return
		}
		o := CAOpts{Host: p.Host, Module: p.Module, RRDP: p.RRDP}
		if e.B%3 == 1 {
			o.Host, o.Module, o.RRDP = fmt.Sprintf("h%d.sim", 50+len(w.CAs)), "m0", nil
		} else if e.B%3 == 2 {
			l := r.benign()
			q := l[e.B%len(l)]
			o.Host, o.Module, o.RRDP = q.Host, q.Module, q.RRDP
		}
		if e.B%5 == 0 {
			o.Inherit = 1 + e.B%7
		}
		c := w.AddCA(p, o)
		for i := 0; i < 1+e.B%2; i++ {
			w.AddROA(c, "")
		}
		r.publish(e.Lag, c, p)
	case "delca":
		c := r.nonTA(e.A)
		if c == nil {
			return
		}
		var srv []*RRDPServer
		var rec func(x *CA)
		rec = func(x *CA) {
			srv = append(srv, x.RRDP)
			for _, k := range x.Kids {
				rec(k)
			}
		}
		rec(c)
		w.Remove(c)
		r.publish(e.Lag, c.Parent)
		r.syncLater(e.Lag, srv...)
	case "revokeca":
		c := r.nonTA(e.A)
		if c == nil {
			return
		}
		c.Parent.Revoked = append(c.Parent.Revoked, c.Cert.Serial)
		r.publish(e.Lag, c.Parent)
	case "unrevokeca": // a new certificate for a revoked CA
		c := r.nonTA(e.A)
		if c == nil {
			return
		}
		w.IssueCA(c)
		r.publish(e.Lag, c.Parent)
	case "revokeroa":
		c := r.anyCA(e.A)
		if l := liveROAs(c); len(l) > 0 {
			c.Revoked = append(c.Revoked, l[e.B%len(l)].Serial)
		}
		r.publish(e.Lag, c)
	case "revokenone": // revokes a serial that this CA never issued but others did
		c := r.anyCA(e.A)
		o := r.anyCA(e.B)
		if o == c {
			return
		}
		for _, x := range liveROAs(o) {
			used := x.Serial == c.Serial+1
			for _, y := range c.ROAs {
				used = used || y.Serial == x.Serial
			}
			for _, k := range c.Kids {
				used = used || (k.Cert != nil && k.Cert.Serial == x.Serial)
			}
			if !used && x.Serial > c.Serial+50 {
				c.Revoked = append(c.Revoked, x.Serial)
			}
		}
		r.publish(e.Lag, c)
	case "reissueca":
		c := r.nonTA(e.A)
		if c == nil {
			return
		}
		old := c.Cert.Serial
		w.IssueCA(c)
		if e.B%2 == 0 {
			c.Parent.Revoked = append(c.Parent.Revoked, old)
		}
		r.publish(e.Lag, c.Parent)
	case "recommit":
		r.publish(e.Lag, r.anyCA(e.A))
	case "newsession":
		if len(w.RRDPs) > 0 {
			w.RRDPs[e.A%len(w.RRDPs)].NewSession()
		}
	case "rollback":
		if len(w.RRDPs) > 0 {
			s := w.RRDPs[e.A%len(w.RRDPs)]
			if s.Rollback(1 + e.B%4) {
				r.fired("rrdp-rollback")
				r.at(r.ms()+e.Lag+1800000, func() {
					if s.Rolled {
						w.Sync(s)
						r.late()
					}
				})
			}
		}
	case "ta-reissue":
		ta := w.TAs[e.A%len(w.TAs)]
		w.IssueTA(ta, ta.CA.CertVal)
	case "badmft":
		c := r.anyCA(e.A)
		c.Flags[flagKinds[e.B%len(flagKinds)]] = int64(1 + (e.A+e.B)%8)
		r.publish(e.Lag, c)
	case "fixmft":
		for _, c := range r.benign() {
			if len(c.Flags) > 0 {
				c.Flags = map[string]int64{}
				r.publish(e.Lag, c)
				return
			}
		}
	case "revokemft": // the CRL revokes the end-entity certificate of the current manifest
		c := r.anyCA(e.A)
		if e.B%2 == 0 {
			c.Flags["mft-revoked-ee"] = 1
		} else if c.lastMft != nil { // or that of the previous one, which must not matter
			c.Revoked = append(c.Revoked, c.lastMft.Serial)
		}
		r.publish(e.Lag, c)
	case "ta-expire": // a trust anchor certificate is left to expire and renewed only later
		ta := w.TAs[e.A%len(w.TAs)]
		v := time.Duration(20+e.B*3) * time.Second
		w.IssueTA(ta, v)
		r.after(v+time.Duration(30+e.B)*time.Second, func() {
			if !r.done {
				w.IssueTA(ta, ta.CA.CertVal)
				r.late()
			}
		})
	case "shortval", "shortval-ta":
		c := r.anyCA(e.A)
		v := time.Duration(60+e.B*9) * time.Second
		k := e.B % 4
		if e.Kind == "shortval-ta" {
			k = 3
		}
		switch k {
		case 0: // manifest and CRL expire
			c.Val = v
			r.publish(e.Lag, c)
			c.Val = w.DefVal
		case 1: // a ROA expires
			if l := liveROAs(c); len(l) > 0 {
				o := l[e.B%len(l)]
				o.Val = v
				w.SignROA(c, o)
			}
			r.publish(e.Lag, c)
		case 2: // a CA certificate expires
			if c.Parent != nil {
				c.CertVal = v
				w.IssueCA(c)
				c.CertVal = 2 * w.DefVal
				r.publish(e.Lag, c.Parent)
			}
		case 3: // a trust anchor certificate expires and is renewed before that
			ta := w.TAs[e.A%len(w.TAs)]
			w.IssueTA(ta, v)
			r.after(v/2, func() {
				if !r.done {
					w.IssueTA(ta, ta.CA.CertVal)
					r.late()
				}
			})
		}
	case "rsynconly":
		c := r.anyCA(e.A)
		if w.nkey < maxKeysUsed {
			w.AddROA(c, "")
		}
		w.Commit(c)
		r.syncLater(e.Lag+60000, c.RRDP)
	case "oddroa":
		if w.nkey < maxKeysUsed {
			c := r.anyCA(e.A)
			w.AddROA(c, roaModes[e.B%len(roaModes)])
			r.publish(e.Lag, c)
		}
	case "unlisted": // a perfectly signed ROA that no manifest lists
		if w.nkey < maxKeysUsed {
			c := r.anyCA(e.A)
			x := w.AddROA(c, "")
			x.Gone = true
			c.Unlisted[x.Name] = x.Obj
			r.publish(e.Lag, c)
		}
	case "swapfile": // the listed file is replaced by other content under the same name, hash no longer matching
		c := r.anyCA(e.A)
		w.Commit(c)
		var ns []string
		for n := range c.Files {
			if n != c.Name+".mft" {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		if len(ns) > 0 {
			n := ns[e.B%len(ns)]
			f := map[string]*Obj{}
			for k, v := range c.Files {
				f[k] = v
			}
			switch e.B % 3 {
			case 0:
				delete(f, n)
			case 1:
				f[n] = w.reg(&Obj{Data: garble(w.r, f[n].Data, 1+e.B%4), Kind: "other", Bad: true, Author: c.ID})
			case 2:
				f[n] = c.Files[ns[(e.B+1)%len(ns)]]
			}
			w.publish(c, f)
			r.syncLater(e.Lag, c.RRDP)
		}
	case "dupserial": // two ROAs with one serial, revoked
		c := r.anyCA(e.A)
		if w.nkey > maxKeysUsed {
			return
		}
		a := w.AddROA(c, "")
		c.Serial--
		b := w.AddROA(c, "")
		if a.Serial == b.Serial && e.B%2 == 0 {
			c.Revoked = append(c.Revoked, a.Serial)
		}
		r.publish(e.Lag, c)
	case "moverrdp":
		c := r.nonTA(e.A)
		if c == nil {
			return
		}
		old := c.RRDP
		var cand []*RRDPServer
		for _, s := range w.RRDPs {
			if s.Host == c.Host && s != old {
				cand = append(cand, s)
			}
		}
		// a CA that changes its repository publishes under new names there
		w.publish(c, map[string]*Obj{})
		c.Dir = fmt.Sprintf("c%d-%d/", c.ID, w.Gen)
		c.RRDP = nil
		if len(cand) > 0 && e.B%4 != 0 {
			c.RRDP = cand[e.B%len(cand)]
		}
		for _, x := range liveROAs(c) {
			w.SignROA(c, x)
		}
		for _, k := range c.Kids {
			if !k.Gone {
				w.IssueCA(k)
			}
		}
		w.IssueCA(c)
		r.publish(e.Lag, c, c.Parent)
		r.syncLater(e.Lag, old)
	case "hostile":
		r.hostile(e.A, e.B)
	case "squat": // (not generated, a known finding) a hostile CA certifies the key of another CA
		if l := r.hostileCAs(); len(l) > 0 {
			h, v := l[e.A%len(l)], r.victim(e.B)
			h.Serial++
			c := w.certObj(CertSpec{Serial: h.Serial, Issuer: h.Name, Subject: v.Name, NB: w.now().Add(-time.Hour), NA: w.now().Add(900 * time.Hour),
				Key: v.Key, Signer: h.Key, SKI: v.Key.SKI, AKI: h.Key.SKI, CA: true, Res: h.effRes(), Repo: h.Base(), Mft: h.mftURI()}, h.ID)
			h.Extra["0-squat.cer"] = c
			w.Commit(h)
		}
	case "endless":
		r.endlessChain(e.A, e.B)
	default:
		panic("unknown event " + e.Kind)
	}
}

func (r *Run) hostileCAs() []*CA {
	var out []*CA
	for _, c := range r.w.CAs {
		if c.Hostile && c.Parent != nil && !c.Parent.Hostile {
			out = append(out, c)
		}
	}
	return out
}

// endlessChain publishes a chain of delegations longer than the iteration limit,
// every one in a repository of its own.
func (r *Run) endlessChain(a, b int) {
	l := r.hostileCAs()
	if len(l) == 0 {
		return
	}
	h := l[a%len(l)]
	if r.endless[h.Name] != nil {
		return
	}
	r.endless[h.Name] = h
	cur := h
	var cas []*CA
	for i := 0; i < r.Plan.MaxIter+6 && r.w.nkey < 280; i++ {
		c := r.w.AddCA(cur, CAOpts{Host: fmt.Sprintf("h%d.sim", 1000+a*100+i), Module: "m0", Inherit: 7, Hostile: true})
		r.hostileKey[c.Key.ID] = true
		r.evilHosts[c.Host] = true
		if b%3 == 0 { // these repositories hang
			r.Plan.Net = append(r.Plan.Net, NetFault{Target: c.Host, Kind: "hang", Doc: "rsync"})
		}
		cas = append(cas, c)
		cur = c
	}
	for i := len(cas) - 1; i >= 0; i-- {
		r.w.Commit(cas[i])
	}
	r.publish(0, h)
}

func (r *Run) victim(n int) *CA {
	l := r.benign()
	return l[n%len(l)]
}

func (r *Run) sub(h *CA, o CAOpts) *CA {
	o.Hostile = true
	if o.Host == "" {
		o.Host, o.Module = h.Host, h.Module
	}
	c := r.w.AddCA(h, o)
	r.hostileKey[c.Key.ID] = true
	return c
}

// raw lists arbitrary bytes in h's manifest.
func (r *Run) raw(h *CA, name string, d []byte) {
	o := &Obj{Data: d, Kind: "other", Bad: true, Author: h.ID}
	h.Extra[name] = r.w.reg(o)
}

const numTricks = 40

// hostile makes the a-th hostile CA misbehave in one more way.
func (r *Run) hostile(a, b int) {
	l := r.hostileCAs()
	if len(l) == 0 {
		return
	}
	w := r.w
	h := l[a%len(l)]
	k := b % numTricks
	v := r.victim(b / numTricks)
	if w.nkey > maxKeysUsed {
		return
	}
	r.fired(fmt.Sprintf("hostile-trick-%d", k))
	victimFile := func(ext string) *Obj {
		var ns []string
		for n := range v.Files {
			if strings.HasSuffix(n, ext) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		if len(ns) == 0 {
			return nil
		}
		return v.Files[ns[b%len(ns)]]
	}
	list := func(name string, o *Obj) {
		if o != nil {
			h.Extra[name] = o
		}
	}
	n := fmt.Sprintf("x%d-%d", h.ID, w.nkey)
	switch k {
	case 0: // child claiming a victim's resources, with ROAs for them
		res := v.effRes()
		c := r.sub(h, CAOpts{Res: &res})
		w.AddROA(c, "")
		w.AddROA(c, "")
		w.Commit(c)
	case 1: // the same behind two inheriting levels
		c1 := r.sub(h, CAOpts{Inherit: 7})
		c2 := r.sub(c1, CAOpts{Inherit: 7})
		res := v.effRes()
		c3 := r.sub(c2, CAOpts{Res: &res})
		w.AddROA(c3, "")
		w.Commit(c3)
		w.Commit(c2)
		w.Commit(c1)
	case 2:
		w.AddROA(h, roaModes[(b/7)%len(roaModes)])
	case 3:
		h.Flags[flagKinds[(b/7)%len(flagKinds)]] = int64(1 + b%5)
	case 4: // undecodable files of every type
		ext := pick(r.evr, ".cer", ".roa", ".crl", ".mft", ".gbr", ".xyz", "")
		src := h.Cert.Data
		if o := victimFile(".roa"); o != nil && b%2 == 0 {
			src = o.Data
		}
		r.raw(h, n+ext, garble(r.evr, src, b%5))
	case 5: // a victim's files listed here
		list(n+".roa", victimFile(".roa"))
		list(n+".cer", victimFile(".cer"))
	case 6:
		list(n+".crl", victimFile(".crl"))
		list(n+".mft", victimFile(".mft"))
	case 7: // a victim's file under its own name
		for _, e := range []string{".roa", ".cer", ".crl"} {
			if o := victimFile(e); o != nil {
				for _, nm := range sortedKeys(v.Files) {
					if v.Files[nm] == o {
						list(nm, o)
					}
				}
			}
		}
	case 8: // CRL of an unknown issuer
		d := dCRL(CRLSpec{Issuer: "nobody", Signer: h.Key, AKI: []byte("01234567890123456789"), Num: 1, This: w.now().Add(-time.Minute), Next: w.now().Add(time.Hour), Revoked: []int64{1, 2, 3, 100, 101, 102, 103, 104}})
		list(n+".crl", w.reg(&Obj{Data: d, Kind: "crl", Author: h.ID, AKI: "01234567890123456789", SignerKey: h.Key.ID, SigOK: true}))
	case 9: // CRL that pretends to be the victim's
		var rev []int64
		for i := int64(1); i < 140; i++ {
			rev = append(rev, i)
		}
		d := dCRL(CRLSpec{Issuer: v.Name, Signer: h.Key, AKI: v.Key.SKI, Num: 99, This: w.now().Add(-time.Minute), Next: w.now().Add(time.Hour), Revoked: rev})
		list(n+".crl", w.reg(&Obj{Data: d, Kind: "crl", Author: h.ID, AKI: string(v.Key.SKI), SignerKey: h.Key.ID, SigOK: true, Revoked: rev}))
	case 10: // a CRL that revokes everything, signed by the hostile CA itself, naming its own key
		var rev []int64
		for i := int64(1); i < 140; i++ {
			rev = append(rev, i)
		}
		d := dCRL(CRLSpec{Issuer: h.Name, Signer: h.Key, AKI: h.Key.SKI, Num: 99, This: w.now().Add(-time.Minute), Next: w.now().Add(time.Hour), Revoked: rev})
		list(n+".crl", w.reg(&Obj{Data: d, Kind: "crl", Author: h.ID, AKI: string(h.Key.SKI), SignerKey: h.Key.ID, SigOK: true, Revoked: rev}))
	case 11: // children whose access descriptions point at the victim
		c := r.sub(h, CAOpts{})
		c.SIA.Mft = v.mftURI()
		if b%2 == 0 {
			c.SIA.Repo = v.repoURI()
		}
		w.IssueCA(c)
	case 12:
		c := r.sub(h, CAOpts{})
		c.SIA.CRLDP = pick(r.evr, v.Base()+v.crlName(), v.Base()+v.Name+".mft", v.TA.Rsync, "rsync://h100.sim/../../x.crl", "rsync://"+v.Host+"/")
		w.IssueCA(c)
	case 13: // malformed IP resource extensions
		raw := [][]byte{
			dSeq(dSeq(dOct([]byte{0, 9}), dSeq(dBits([]byte{10}, 0)))),
			dSeq(dSeq(dOct([]byte{0}), dSeq(dBits([]byte{10}, 0)))),
			dSeq(dSeq(dOct([]byte{}), dSeq(dBits([]byte{10}, 0)))),
			dSeq(dSeq(dOct([]byte{0, 1}), dSeq(dBits([]byte{10, 1, 2, 3, 4, 5, 6, 7}, 0)))),
			dSeq(dSeq(dOct([]byte{0, 2}), dSeq(dBits([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}, 0)))),
			dSeq(dSeq(dOct([]byte{0, 9}), dSeq(dSeq(dBits([]byte{10}, 0), dBits([]byte{11}, 0))))),
			dSeq(dSeq(dOct([]byte{0, 1}), dSeq(dSeq(dBits([]byte{10, 0, 0, 0, 1, 1}, 0), dBits([]byte{11}, 0))))),
			dSeq(dSeq(dOct([]byte{0, 1}), dSeq(dSeq(dBits([]byte{11}, 0), dBits([]byte{10}, 0))))),
			dSeq(dSeq(dOct([]byte{0, 1}), dSeq(dSeq(dBits([]byte{}, 0), dBits([]byte{}, 0))))),
			dSeq(dSeq(dOct([]byte{0, 1}), dSeq(dSeq(dBits([]byte{10}, 0))))),
			{0x30, 0x80}, {0x04, 0x01}, {}, dSeq(), dSeq(dSeq()), dSeq(dSeq(dOct([]byte{0, 1}))),
			dSeq(dSeq(dOct([]byte{0, 1}), dSeq())),
		}
		rr := raw[(b/7)%len(raw)]
		key := w.key()
		h.Serial++
		list(n+".cer", w.certObj(CertSpec{Serial: h.Serial, Issuer: h.Name, Subject: n, NB: w.now().Add(-time.Hour), NA: w.now().Add(time.Hour * 900),
			Key: key, Signer: h.Key, SKI: key.SKI, AKI: h.Key.SKI, CA: true, RawIP: rr, Repo: h.Base(), Mft: h.mftURI()}, h.ID))
	case 14: // repository URIs that are not text or not URIs
		c := r.sub(h, CAOpts{})
		c.SIA.Repo = pick(r.evr, "rsync://h\xff\xfe.sim/m\xfd/", "rsync://"+h.Host+"/\xff/", "rsync://", "rsync:///", "rsync://"+h.Host, "http://"+h.Host+"/m0/", "", "rsync://"+h.Host+"/m 0/ x/", "rsync:/x/y", "\x00", "rsync://"+h.Host+"/-e/", "rsync://"+h.Host+"/m0/\x00/", "rsync://"+strings.Repeat("a", 300)+"/m0/", "rsync://"+h.Host+"/"+strings.Repeat("b/", 1200))
		w.IssueCA(c)
	case 15: // RRDP URLs that are not
		c := r.sub(h, CAOpts{})
		c.SIA.RRDP = pick(r.evr, "https://h\xff.sim/n.xml", "ftp://x/", "https://", "https://[::1", "not a url", "http://a\x00b/", "https://user:pw@h100.sim:99999/x", "file:///etc/passwd", "https://"+strings.Repeat("z", 3000))
		w.IssueCA(c)
	case 16: // repositories that climb out of the cache
		c := r.sub(h, CAOpts{})
		c.SIA.Repo = pick(r.evr, "rsync://"+h.Host+"/../", "rsync://../m0/", "rsync://"+h.Host+"/../../x/", "rsync://./m0/", "rsync://"+h.Host+"/./", "rsync://../../work/", "rsync://"+h.Host+"/..")
		c.SIA.Mft = c.SIA.Repo + "x.mft"
		w.IssueCA(c)
		hh := w.host(h.Host)
		evil := []byte("evil-climb-" + n)
		for _, m := range []string{"../", "./", "", "x/"} {
			hh.Junk["any:"+m+v.Host+"/"+v.rel()+"evil.roa"] = evil
			hh.Junk["any:"+m+"rrdp.json"] = []byte("null")
		}
		w.Evil[sha256.Sum256(evil)] = h.Host
		for _, hn := range []string{"..", "."} {
			if w.Hosts[hn] == nil {
				x := w.host(hn)
				x.Junk["any:"+v.Host+"/"+v.rel()+"evil.roa"] = evil
			}
		}
	case 17: // manifest entries that climb
		h.Flags["mft-traversal"] = 1
	case 18: // shares the victim's notification URL
		c := r.sub(h, CAOpts{})
		c.SIA.RRDP = v.rrdpURI()
		if c.SIA.RRDP == "" && len(w.RRDPs) > 0 {
			c.SIA.RRDP = w.RRDPs[b%len(w.RRDPs)].URL
		}
		w.IssueCA(c)
	case 19: // end-entity certificate with a repository
		key := w.key()
		h.Serial++
		c := r.sub(h, CAOpts{})
		w.AddROA(c, "")
		c.Cert = w.certObj(CertSpec{Serial: h.Serial, Issuer: h.Name, Subject: n, NB: w.now().Add(-time.Hour), NA: w.now().Add(time.Hour * 900),
			Key: c.Key, Signer: h.Key, SKI: c.Key.SKI, AKI: h.Key.SKI, CA: false, Res: c.Res, Repo: c.repoURI(), Mft: c.mftURI()}, h.ID)
		_ = key
		w.Commit(c)
	case 20: // its own certificate below itself
		list("loop.cer", h.Cert)
		if h.Parent.Cert != nil {
			list("up.cer", h.Parent.Cert)
		}
		list("ta.cer", h.TA.Cert)
	case 21: // router certificate and other things
		key := w.key()
		h.Serial++
		list(n+".cer", w.certObj(CertSpec{Serial: h.Serial, Issuer: h.Name, Subject: n, NB: w.now().Add(-time.Hour), NA: w.now().Add(time.Hour * 900),
			Key: key, Signer: h.Key, SKI: key.SKI, AKI: h.Key.SKI, Res: Res{AS: h.effRes().AS}}, h.ID))
		r.raw(h, n+".gbr", []byte("BEGIN:VCARD"))
	case 22: // types that do not match file names
		if o := victimFile(".roa"); o != nil {
			list(n+".mft", o)
			list(n+".crl", o)
			list(n+"b.cer", o)
		}
		list(n+".roa", h.Cert)
		if h.lastMft != nil {
			list(n+"c.roa", h.lastMft)
			list(n+"c.cer", h.lastMft)
		}
	case 23: // valid envelope, nonsense content
		content := [][]byte{{}, {0x30}, {0x30, 0x80}, dSeq(), dSeq(dI64(-5)), dSeq(dI64(1<<40), dSeq(dSeq(dOct([]byte{0, 1}), dSeq(dSeq(dBits([]byte{10}, 0)))))),
			dSeq(dI64(1), dSeq(dSeq(dOct([]byte{0, 7}), dSeq(dSeq(dBits([]byte{10}, 0)))))),
			dSeq(dI64(1), dSeq(dSeq(dOct([]byte{0, 1}), dSeq(dSeq(dBits([]byte{10, 1, 1, 1, 1, 1, 1}, 0), dI64(99999)))))),
			dSeq(dI64(1), dSeq(dSeq(dOct([]byte{}), dSeq(dSeq(dBits([]byte{10}, 0)))))),
			dSeq(dI64(1), dSeq(dSeq(dOct([]byte{0, 1}), dSeq(dSeq()))))}[(b/7)%10]
		typ := oidROA
		ext := ".roa"
		if b%3 == 0 {
			typ, ext = oidMFT, ".mft"
		}
		key := w.key()
		h.Serial++
		ee := w.certObj(CertSpec{Serial: h.Serial, Issuer: h.Name, Subject: n, NB: w.now().Add(-time.Hour), NA: w.now().Add(time.Hour * 900),
			Key: key, Signer: h.Key, SKI: key.SKI, AKI: h.Key.SKI, Res: Res{V4: h.effRes().V4}}, h.ID)
		r.raw(h, n+ext, dCMS(CMSSpec{Type: typ, Content: content, EE: ee.Data, Key: key, SKI: key.SKI, Time: w.now()}))
		if ext == ".mft" {
			c := r.sub(h, CAOpts{})
			c.SIA.Mft = h.Base() + n + ".mft"
			w.IssueCA(c)
		}
	case 24: // an envelope without certificate, signer, or with a bad one
		key := w.key()
		ee := [][]byte{{}, {0x30}, {0x30, 0x00}, h.Cert.Data[:len(h.Cert.Data)/2], v.Cert.Data, append(append([]byte{}, h.Cert.Data...), v.Cert.Data...)}[(b/7)%6]
		r.raw(h, n+pick(r.evr, ".roa", ".mft"), dCMS(CMSSpec{Type: oidROA, Content: dROA(1, []ROAPfx{{netip.MustParsePrefix("10.0.0.0/24"), -1}}), EE: ee, Key: key, SKI: key.SKI, Time: w.now(), NoSigners: b%2 == 0}))
	case 25: // symbolic links in the rsync tree
		hh := w.host(h.Host)
		hh.Sym[h.Module+"/link"] = pick(r.evr, "/work/keep", "../../../../work/keep/secret.txt", "/work/cache/"+v.Host, "../../"+v.Host, "/etc/passwd", "../rrdp.json", "../../../private.pem")
		hh.Sym[h.rel()+"s.roa"] = "/work/keep/secret.txt"
		hh.Junk[h.Module+"/link/evil.roa"] = []byte("evil-link-" + n)
		w.Evil[sha256.Sum256(hh.Junk[h.Module+"/link/evil.roa"])] = h.Host
	case 26: // junk where directories should be
		hh := w.host(h.Host)
		hh.Junk[h.Module+"/"+strings.TrimSuffix(h.Dir, "/")+"x"] = []byte("junk")
		hh.Junk[h.rel()+"sub/dir/file.roa"] = []byte("junk")
		hh.Junk[h.rel()+".hidden"] = []byte("junk")
	case 27: // replays: an older manifest is put back
		if h.lastMft != nil {
			f := map[string]*Obj{}
			for nm, o := range h.Files {
				f[nm] = o
			}
			f[h.Name+".mft"] = h.lastMft
			w.publish(h, f)
			r.syncLater(0, h.RRDP)
			return
		}
	case 28: // indefinite-length encoding
		key := w.key()
		h.Serial++
		p := h.effRes().V4
		if len(p) > 0 {
			ee := w.certObj(CertSpec{Serial: h.Serial, Issuer: h.Name, Subject: n, NB: w.now().Add(-time.Hour), NA: w.now().Add(time.Hour * 900),
				Key: key, Signer: h.Key, SKI: key.SKI, AKI: h.Key.SKI, Res: Res{V4: p}}, h.ID)
			pf := []ROAPfx{{netip.PrefixFrom(p[0].Lo, 24), -1}}
			d := dCMS(CMSSpec{Type: oidROA, Content: dROA(65000, pf), EE: ee.Data, Key: key, SKI: key.SKI, Time: w.now(), Indefinite: true})
			if b%2 == 0 {
				d = d[:len(d)-1-b%20]
			}
			list(n+".roa", w.reg(&Obj{Data: d, Kind: "roa", Author: h.ID, Serial: h.Serial, NB: ee.NB, NA: ee.NA, SKI: ee.SKI, AKI: ee.AKI, KeyID: key.ID, SignerKey: h.Key.ID, SigOK: true,
				Res: ee.Res, CMSOK: true, ASID: 65000, Pfx: pf, Amb: true, Odd: true, Cert: ee.Data, Cert2: ee}))
		}
	case 29: // many children with one name, or none
		for i := 0; i < 3; i++ {
			c := r.sub(h, CAOpts{})
			c.SIA.Mft = h.mftURI()
			c.SIA.Repo = h.repoURI()
			w.IssueCA(c)
		}
	case 30: // file and directory conflicts over RRDP
		if h.RRDP != nil {
			h.RRDP.evilOnce = true
			h.RRDP.Evil["rsync://"+h.Host+"/m0/clash"] = []byte("file")
			h.RRDP.Evil["rsync://"+h.Host+"/m0/clash/inner.roa"] = []byte("inner")
			h.RRDP.Evil["rsync://"+h.Host+"/m0"] = []byte("module as file")
		}
	case 31: // names the file system refuses
		if h.RRDP != nil {
			h.RRDP.evilOnce = true
			h.RRDP.Evil[pick(r.evr, "rsync://"+h.Host+"/m0/"+strings.Repeat("n", 300)+"/x.roa", "rsync://"+h.Host+"/"+strings.Repeat("d/", 2500)+"x.roa", "rsync://"+h.Host+"/m0/", "rsync://"+h.Host, "rsync://", "", "x", "/", "rsync://"+h.Host+"//", "rsync://"+h.Host+"/m0/sub/.", "RSYNC://"+h.Host+"/m0/x.roa", "rsync://"+h.Host+"/m0/\x01y.roa")] = []byte("evil-name-" + n)
		}
	case 32: // RRDP publishes and withdraws what is not its own
		r.evilRRDP(h.RRDP, v, b)
	case 34, 35, 36, 37, 38, 39: // correctly signed nonsense
		r.mutants(h, k-34, n)
	case 33: // no CRL, or empty manifest
		h.NoCRL = true
		if b%2 == 0 {
			for _, x := range h.ROAs {
				x.Gone = true
			}
		}
	}
	r.publish(0, h)
}

// mutants publishes objects whose encoding is altered before they are signed.
func (r *Run) mutants(h *CA, k int, n string) {
	w, rg := r.w, r.evr
	mut := func(b []byte) []byte { return mutateDER(rg, b) }
	list := func(name string, d []byte) {
		h.Extra[name] = w.reg(&Obj{Data: d, Kind: "other", Bad: true, Mutant: true, Author: h.ID})
	}
	t := w.now()
	key := w.key()
	fresh := fmt.Sprintf("rsync://%s/mx%d/", h.Host, w.nkey) // a module that does not exist
	cert := func(ca bool, f func([]byte) []byte) []byte {
		h.Serial++
		s := CertSpec{Serial: h.Serial, Issuer: h.Name, Subject: n, NB: t.Add(-time.Hour), NA: t.Add(900 * time.Hour), Key: key, Signer: h.Key,
			SKI: key.SKI, AKI: h.Key.SKI, CA: ca, CRLDP: h.Base() + h.crlName(), AIA: h.Base() + h.CertName, Mut: f}
		if ca {
			s.Res, s.Repo, s.Mft = h.effRes(), fresh, fresh+"x.mft"
		} else {
			s.Signed = h.Base() + n
			if v4 := h.effRes().V4; len(v4) > 0 { // one address: what it authorises is filtered out
				s.Res.V4 = []IPR{{v4[0].Lo, v4[0].Lo}}
			}
		}
		return dCert(s)
	}
	crl := func(f func([]byte) []byte) []byte {
		return dCRL(CRLSpec{Issuer: h.Name, Signer: h.Key, AKI: h.Key.SKI, Num: 99, This: t.Add(-time.Minute), Next: t.Add(time.Hour), Revoked: []int64{100000, 100001, 100002}, Mut: f})
	}
	times := 1 + rg.Intn(4)
	for i := 0; i < times; i++ {
		x := fmt.Sprintf("%s-%d", n, i)
		switch k {
		case 0:
			list(x+".cer", cert(true, mut))
		case 1:
			list(x+".crl", crl(mut))
		case 2, 3: // the signed content, or the end-entity certificate, or everything else
			typ, ext, content := oidROA, ".roa", dROA(65000, []ROAPfx{{netip.MustParsePrefix("198.51.100.0/24"), 24}, {netip.MustParsePrefix("203.0.113.0/24"), -1}, {netip.MustParsePrefix("2001:db8::/32"), 48}})
			if r.Plan.NoFilter || rg.Chance(0.5) {
				typ, ext = oidMFT, ".mft"
				content = dManifest(7, t.Add(-time.Hour), t.Add(100*time.Hour), []MftEntry{{"a.roa", [32]byte{1}}, {"b.cer", [32]byte{2}}})
			}
			ee := cert(false, nil)
			c := CMSSpec{Type: typ, Content: content, EE: ee, Key: key, SKI: key.SKI, Time: t}
			how := rg.Intn(3)
			switch how {
			case 0:
				c.Content = mut(content)
			case 1:
				c.EE = cert(false, mut)
			}
			d := dCMS(c)
			if how == 2 {
				d = mut(d)
			}
			list(x+ext, d)
			if ext == ".mft" && w.nkey < maxKeysUsed {
				s := r.sub(h, CAOpts{})
				s.SIA.Mft = h.Base() + x + ext
				w.IssueCA(s)
			}
		case 4: // the whole, without a new signature
			src := pick(rg, cert(true, nil), crl(nil), h.Cert.Data)
			list(x+pick(rg, ".cer", ".crl"), mut(src))
		case 5: // extensions of revocation lists, that nothing else uses
			ext := pick(rg, dSeq(), dSeq(tlv(0x80)), dSeq(tlv(0x80, []byte{1})), dSeq(tlv(0x80, []byte{1, 2, 3})), []byte{}, []byte{0x30}, []byte{0x30, 0x80}, dOct(h.Key.SKI), dSeq(tlv(0x82, []byte{1})), dSeq(tlv(0x81, h.Key.SKI)))
			list(x+".crl", dCRL(CRLSpec{Issuer: h.Name, Signer: h.Key, AKI: h.Key.SKI, RawAKI: ext, Num: 99, This: t.Add(-time.Minute), Next: t.Add(time.Hour), Revoked: []int64{100000}}))
		}
	}
}

// evilRRDP makes a hostile RRDP server publish objects of foreign hosts.
func (r *Run) evilRRDP(s *RRDPServer, v *CA, b int) {
	if s == nil {
		return
	}
	w := r.w
	s.evilOnce = true
	evil := []byte(fmt.Sprintf("evil-%d-%d", s.ID, w.r.Intn(1<<30)))
	w.Evil[sha256.Sum256(evil)] = s.Host
	var names []string
	for n := range v.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	victimURI := v.Base() + "none.roa"
	if len(names) > 0 {
		victimURI = v.Base() + names[b%len(names)]
	}
	vp := strings.TrimPrefix(victimURI, "rsync://")
	uris := []string{
		victimURI,
		v.Base() + "evil.roa",
		"rsync://" + s.Host + "/../" + vp,
		"rsync://" + s.Host + ".evil/m0/x.roa",
		"rsync://x" + s.Host + "/m0/x.roa",
		"rsync://evil.sim/rsync://" + s.Host + "/x.roa",
		"rsync://" + v.Host + "/" + s.Host + "/x.roa",
		"rsync://" + s.Host + "/m0/../../../../keep/evil",
		"rsync://" + s.Host + "/../rrdp.json",
		"rsync://" + s.Host + "/m0/./../../" + vp,
		"rsync://../" + s.Host + "/x.roa",
		"rsync://" + s.Host + "/../../output.json",
		"rsync:///" + vp,
		vp,
		"rsync://" + s.Host + "/m0/..%2f..%2fevil.roa",
		v.TA.Rsync,
		"rsync://" + s.Host + "\\..\\" + vp,
		"rsync://" + s.Host + "/m0/..\\..\\x.roa",
		"rsync://rrdp.json",
		"rsync://" + v.Host + "?" + s.Host + "/x.roa",
		"rsync://" + v.Host + "#rsync://" + s.Host + "/x.roa",
	}
	for i := 0; i < 2+b%3; i++ {
		u := uris[w.r.Intn(len(uris))]
		if u == "" {
			continue
		}
		if w.r.Chance(0.3) {
			s.EvilW = append(s.EvilW, u)
		} else {
			s.Evil[u] = evil
		}
	}
	w.Sync(s)
}

func (r *Run) installEvil() {
	for i, sp := range r.Plan.RRDPs {
		if sp.Evil {
			r.fired("evil-rrdp")
			r.evilRRDP(r.w.RRDPs[i], r.victim(r.evr.Intn(64)), r.evr.Intn(64))
		}
	}
}

// shapeWorld adds the constructions a property is especially about.
func (r *Run) shapeWorld() {
	for i := int64(0); i < r.Plan.Extra["others"]; i++ {
		r.w.AddOther(r.anyCA(r.evr.Intn(64)), r.evr.Intn(4))
	}
	n := int(r.Plan.Extra["claims"])
	for i := 0; i < n; i++ {
		if r.Plan.Extra["mapped"] != 0 && r.evr.Chance(0.4) {
			r.claimMapped()
			continue
		}
		r.claim()
	}
}

// mappedRange is the range of IPv6 addresses that stand for the IPv4 ones.
func mappedRange(b IPR) IPR {
	return IPR{netip.AddrFrom16(b.Lo.As16()), netip.AddrFrom16(b.Hi.As16())}
}

// claimMapped uses IPv4-mapped IPv6 addresses as if they were IPv4 addresses, or
// the other way around.
func (r *Run) claimMapped() {
	w, rg := r.w, r.evr
	if w.nkey > maxKeysUsed-10 {
		return
	}
	c := r.anyCA(rg.Intn(64))
	if rg.Chance(0.3) { // whoever holds most
		c = w.TAs[0].CA
	}
	if c.Depth > 6 {
		return
	}
	o := CAOpts{Host: c.Host, Module: c.Module, RRDP: c.RRDP}
	if rg.Chance(0.3) {
		o.Inherit = pick(rg, 7, 1, 2)
		c = w.AddCA(c, o)
		o.Inherit = 0
	}
	v4 := pfx(fmt.Sprintf("%d.0.0.0/8", 10+rg.Intn(4)))
	if e := c.effRes(); len(e.V4) > 0 && rg.Chance(0.7) {
		v4 = e.V4[rg.Intn(len(e.V4))]
	}
	if rg.Chance(0.7) {
		res := Res{V6: []IPR{mappedRange(v4)}}
		if rg.Chance(0.3) {
			res.I4 = true
		} else if rg.Chance(0.3) {
			res.AS = c.effRes().AS
		}
		if rg.Chance(0.2) { // all of it
			res.V6 = []IPR{pfx("::ffff:0.0.0.0/96")}
		}
		o.Res = &res
		c = w.AddCA(c, o)
		o.Res = nil
		if rg.Chance(0.3) && c.Depth < 6 { // back to IPv4 a level below
			o.Res = &Res{V4: []IPR{v4}}
			c = w.AddCA(c, o)
		}
	}
	x := w.AddROA(c, "")
	base := commonLen(v4)
	p := randSub(rg, v4, base, min(32, max(base+1, 16+rg.Intn(9))))
	x.Pfx = []ROAPfx{{p, -1}}
	x.EERes = Res{V4: []IPR{pfxRange(p)}}
	m := mappedRange(pfxRange(p))
	switch rg.Intn(5) {
	case 0:
		x.EERes = Res{V6: []IPR{m}}
	case 1:
		x.EERes = Res{V6: []IPR{mappedRange(v4)}}
	case 2:
		x.Pfx[0].P = netip.PrefixFrom(m.Lo, 96+p.Bits())
	}
	if !x.Pfx[0].P.Addr().Is4() {
		x.Mode = "edge-out"
	}
	w.SignROA(c, x)
	r.Exer["C16"]++
	r.fired("mapped-addresses")
}

func nextAddr(a netip.Addr) netip.Addr { return a.Next() }

// claim adds a CA whose resource claim sits on an edge of what it may claim, or
// a ROA on an edge of its end-entity certificate.
func (r *Run) claim() {
	w := r.w
	rg := r.evr
	if w.nkey > maxKeysUsed-10 {
		return
	}
	par := r.anyCA(rg.Intn(64))
	eff := par.effRes()
	if rg.Chance(0.3) { // separate blocks
		if par = w.AddCA(par, CAOpts{Host: par.Host, Module: par.Module, RRDP: par.RRDP, Multi: true}); par.Depth > 6 {
			return
		}
		eff = par.effRes()
	}
	if rg.Chance(0.3) {
		r.edgeROA(par)
		return
	}
	if par.Depth > 6 {
		return
	}
	// levels of inheritance between the holder and the claimant
	lv := pick(rg, 0, 0, 0, 1, 2, 3)
	cur := par
	var made []*CA
	for i := 0; i < lv; i++ {
		cur = w.AddCA(cur, CAOpts{Host: par.Host, Module: par.Module, RRDP: par.RRDP, Inherit: pick(rg, 7, 7, 7, 1, 3, 5)})
		made = append(made, cur)
	}
	eff = cur.effRes()
	var res Res
	edge := func(b IPR) IPR {
		switch rg.Intn(8) {
		case 0: // one past the end
			if b.Hi.Next().IsValid() {
				return IPR{b.Lo, b.Hi.Next()}
			}
		case 1:
			if b.Lo.Prev().IsValid() {
				return IPR{b.Lo.Prev(), b.Hi}
			}
		case 2: // entirely outside, adjacent
			if b.Hi.Next().IsValid() {
				return pfxRange(netip.PrefixFrom(b.Hi.Next(), b.Lo.BitLen()))
			}
		case 3: // last address only
			return IPR{b.Hi, b.Hi}
		case 4:
			return IPR{b.Lo, b.Lo}
		case 5: // twice the block
			l := commonLen(b)
			if l > 1 {
				return pfxRange(netip.PrefixFrom(b.Lo, l-1).Masked())
			}
		}
		return b
	}
	fam := rg.Intn(8)
	if fam&1 == 0 && len(eff.V4) > 0 {
		res.V4 = []IPR{edge(eff.V4[rg.Intn(len(eff.V4))])}
		if n := len(eff.V4); n > 1 && rg.Chance(0.5) { // from one block to another
			res.V4 = []IPR{{eff.V4[0].Lo, eff.V4[n-1].Hi}}
		}
	}
	if fam&2 == 0 && len(eff.V6) > 0 {
		res.V6 = []IPR{edge(eff.V6[rg.Intn(len(eff.V6))])}
		if n := len(eff.V6); n > 1 && rg.Chance(0.5) {
			res.V6 = []IPR{{eff.V6[0].Lo, eff.V6[n-1].Hi}}
		}
	}
	if rg.Chance(0.6) {
		if len(eff.AS) > 0 {
			a := eff.AS[rg.Intn(len(eff.AS))]
			switch rg.Intn(6) {
			case 0:
				if a.Hi+1 != 0 {
					a.Hi++
				}
			case 1:
				if a.Lo != 0 {
					a.Lo--
				}
			case 2:
				a = ASR{a.Hi, a.Hi}
			case 3:
				a = ASR{a.Hi + 1, a.Hi + 1}
			case 4:
				a = ASR{a.Lo, a.Lo}
			}
			res.AS = []ASR{a}
			if n := len(eff.AS); n > 1 && rg.Chance(0.5) {
				res.AS = []ASR{{eff.AS[0].Lo, eff.AS[n-1].Hi}}
			}
		} else {
			res.AS = []ASR{{65000, 65000}}
		}
	}
	if rg.Chance(0.2) && len(res.V4) > 0 { // a second block that is not held
		x := pfx(fmt.Sprintf("%d.%d.0.0/16", 10+rg.Intn(200), rg.Intn(256)))
		res.V4 = canon(append(res.V4, x))
	}
	if rg.Chance(0.15) {
		res.V6, res.I6 = nil, true
	}
	if rg.Chance(0.1) && len(res.AS) > 0 {
		res.V4, res.I4 = nil, true
	}
	if len(res.V4)+len(res.V6)+len(res.AS) == 0 && !res.I4 && !res.I6 {
		res.V4 = eff.V4
		if len(res.V4) == 0 {
			return
		}
	}
	c := w.AddCA(cur, CAOpts{Host: par.Host, Module: par.Module, RRDP: par.RRDP, Res: &res})
	e := c.effRes()
	if len(e.V4) > 0 || len(e.V6) > 0 {
		w.AddROA(c, "")
		if rg.Chance(0.5) {
			r.edgeROA(c)
		}
	}
	if rg.Chance(0.4) && len(e.V4) > 0 { // and a level below
		d := w.AddCA(c, CAOpts{Host: par.Host, Module: par.Module, RRDP: par.RRDP, Inherit: pick(rg, 0, 7, 1)})
		w.AddROA(d, "")
	}
	r.Exer["C16"]++
}

// edgeROA adds a ROA whose prefixes or end-entity resources are off by one.
func (r *Run) edgeROA(c *CA) {
	w, rg := r.w, r.evr
	eff := c.effRes()
	if len(eff.V4) == 0 {
		return
	}
	b := eff.V4[rg.Intn(len(eff.V4))]
	x := w.AddROA(c, "")
	l := max(commonLen(b)+1, 20)
	if l > 28 {
		return
	}
	p := randSub(rg, b, commonLen(b), l)
	pr := pfxRange(p)
	x.Pfx = []ROAPfx{{p, pick(rg, -1, l, min(32, l+2))}}
	x.EERes = Res{V4: []IPR{pr}}
	switch rg.Intn(10) {
	case 9: // end-entity certificate claims what lies between two blocks
		if n := len(eff.V4); n > 1 {
			x.EERes.V4 = []IPR{{eff.V4[0].Lo, eff.V4[n-1].Hi}}
		}
	case 0: // end-entity certificate misses the last address
		x.EERes.V4 = []IPR{{pr.Lo, pr.Hi.Prev()}}
		x.Mode = "edge-out"
	case 1:
		x.EERes.V4 = []IPR{{pr.Lo.Next(), pr.Hi}}
		x.Mode = "edge-out"
	case 2: // the ROA asks for the covering prefix
		x.Pfx[0].P = netip.PrefixFrom(p.Addr(), l-1).Masked()
		x.Mode = "edge-out"
	case 3: // end-entity certificate claims one address more than the CA holds
		if b.Hi.Next().IsValid() {
			x.EERes.V4 = []IPR{{b.Lo, b.Hi.Next()}}
		}
	case 4:
		if b.Lo.Prev().IsValid() {
			x.EERes.V4 = []IPR{{b.Lo.Prev(), b.Hi}}
		}
	case 5: // exactly everything
		x.EERes.V4 = []IPR{b}
	case 6: // two prefixes, one outside
		q := netip.PrefixFrom(pr.Hi.Next(), l).Masked()
		if q.IsValid() && !ipCovers(x.EERes.V4, []IPR{pfxRange(q)}) {
			x.Pfx = append(x.Pfx, ROAPfx{q, -1})
			x.Mode = "edge-out"
		}
	case 7: // neighbouring block only
		q := pr.Hi.Next()
		if q.IsValid() {
			x.EERes.V4 = []IPR{pfxRange(netip.PrefixFrom(q, l).Masked())}
			x.Mode = "edge-out"
		}
	case 8: // v6 resources only
		if len(eff.V6) > 0 {
			x.EERes = Res{V6: eff.V6}
			x.Mode = "edge-out"
		}
	}
	w.SignROA(c, x)
}

var _ = verifsim.NewRand
