//go:build go1.22

package harness

import (
	"fmt"
	"net"
	"net/netip"
	"os"
	"sort"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

// Route origin validation (C22): validators shared by tasks that look routes up
// while others look up and build more of them, against a model that compares
// every route with every payload.

// OVPayload is a validated ROA payload. Reading it is a scheduling point.
type OVPayload struct {
	ID     int
	prefix *net.IPNet
	p      netip.Prefix
	asn    uint32
	max    int
}

func (v *OVPayload) GetASN() uint32        { verifsim.Y(); return v.asn }
func (v *OVPayload) GetMaxLen() int        { verifsim.Y(); return v.max }
func (v *OVPayload) GetPrefix() *net.IPNet { verifsim.Y(); return v.prefix }

type OVRoute struct {
	prefix *net.IPNet
	p      netip.Prefix
	asn    uint32
}

func (v *OVRoute) GetASN() uint32        { verifsim.Y(); return v.asn }
func (v *OVRoute) GetPrefix() *net.IPNet { verifsim.Y(); return v.prefix }

// OVTask is what one task does: look the routes up, in a validator of its own or
// in the shared one of a set.
type OVTask struct {
	Set    int
	Own    bool
	Routes []*OVRoute
}

type OVRun struct {
	r     *Run
	Sets  [][]*OVPayload
	Tasks []*OVTask
	Late  bool // the shared validators are built while others are in use already

	held  map[string][]int
	n, nn int
}

func OV() *OVRun { return current.ov }

func ovPlan(p *Plan, r *verifsim.Rand) *Plan {
	p.Horizon = 1000
	x := map[string]int64{}
	p.Extra = x
	x["sets"] = int64(pick(r, 1, 1, 1, 2, 3))
	x["late"] = int64(r.Intn(2))
	x["host"] = int64(r.Intn(3)) / 2
	x["form"] = int64(r.Intn(2))
	x["mapped"] = int64(r.Intn(2))
	x["deep"] = int64(r.Intn(3)) // bits that differ
	p.Sched = SchedSpec{Seed: r.U64(), MeanGap: pick(r, 2, 5, 20, 100, 500)}
	if r.Chance(0.2) {
		p.Sched.StallProb, p.Sched.MaxStall = 0.01, 500
	}
	sets := int(x["sets"])
	for s := 0; s < sets; s++ {
		n := r.Intn(12)
		if r.Chance(0.03) {
			p.Events = append(p.Events, Event{Kind: "vrps", A: r.Intn(1 << 30), B: 300 + r.Intn(1500), Lag: int64(s)})
		}
		for i := 0; i < n; i++ {
			p.Events = append(p.Events, Event{Kind: "vrps", A: r.Intn(1 << 30), B: 1 + r.Intn(5), Lag: int64(s)})
		}
	}
	tasks := 1 + r.Intn(6)
	for t := 0; t < tasks; t++ {
		n := 1 + r.Intn(8)
		for i := 0; i < n; i++ {
			p.Events = append(p.Events, Event{Kind: "route", A: r.Intn(1 << 30), B: 1 + r.Intn(6), Lag: int64(t)})
		}
	}
	return p
}

// ovPrefix makes a prefix near others. The pool of addresses is small, so that
// prefixes contain each other.
func (r *Run) ovPrefix(g *verifsim.Rand) netip.Prefix {
	x := r.Plan.Extra
	v6 := g.Chance(0.4)
	var a [16]byte
	size := 32
	if v6 {
		size = 128
		switch {
		case x["mapped"] != 0 && g.Chance(0.15):
			a[10], a[11], a[12] = 255, 255, 10
		case g.Chance(0.85):
			a[0], a[1], a[2], a[3] = 0x20, 0x01, 0x0d, 0xb8
		}
	} else if g.Chance(0.9) {
		a[0] = 10
	}
	flips := g.Intn(4)
	if x["deep"] == 2 {
		flips = g.Intn(40)
	}
	for i := 0; i < flips; i++ {
		b := g.Intn(size)
		if x["deep"] == 0 {
			b = g.Intn(4) * size / 4
		}
		a[b/8] ^= 0x80 >> (b % 8)
	}
	bits := g.Intn(size + 1)
	switch g.Intn(8) {
	case 0:
		bits = 0
	case 1:
		bits = size
	case 2:
		bits = pick(g, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31)
	case 3:
		if v6 {
			bits = pick(g, 31, 32, 33, 47, 48, 63, 64, 65, 96, 104, 127)
		}
	}
	var ad netip.Addr
	if v6 {
		ad = netip.AddrFrom16(a)
	} else {
		ad = netip.AddrFrom4([4]byte(a[:4]))
	}
	return netip.PrefixFrom(ad, bits).Masked()
}

// related makes a prefix around another one.
func ovRelated(g *verifsim.Rand, p netip.Prefix) netip.Prefix {
	n := p.Addr().BitLen()
	a := p.Addr().AsSlice()
	switch g.Intn(6) {
	case 0: // less specific
		return netip.PrefixFrom(p.Addr(), g.Intn(p.Bits()+1)).Masked()
	case 1, 2: // more specific
		b := p.Bits() + g.Intn(n-p.Bits()+1)
		for i := p.Bits(); i < b; i++ {
			if g.Chance(0.5) {
				a[i/8] ^= 0x80 >> (i % 8)
			}
		}
		ad, _ := netip.AddrFromSlice(a)
		return netip.PrefixFrom(ad, b).Masked()
	case 3: // beside
		if p.Bits() > 0 {
			i := g.Intn(p.Bits())
			if g.Chance(0.5) {
				i = p.Bits() - 1
			}
			a[i/8] ^= 0x80 >> (i % 8)
			ad, _ := netip.AddrFromSlice(a)
			return netip.PrefixFrom(ad, p.Bits()).Masked()
		}
	}
	return p
}

func (r *Run) ovNet(g *verifsim.Rand, p netip.Prefix) *net.IPNet {
	ip := net.IP(p.Addr().AsSlice())
	if r.Plan.Extra["host"] != 0 && g.Chance(0.3) { // an address of the network
		ip = append(net.IP(nil), ip...)
		for i := p.Bits(); i < p.Addr().BitLen(); i++ {
			if g.Chance(0.5) {
				ip[i/8] ^= 0x80 >> (i % 8)
			}
		}
	}
	m := net.CIDRMask(p.Bits(), p.Addr().BitLen())
	if p.Addr().Is4() && r.Plan.Extra["form"] != 0 && g.Chance(0.5) {
		ip = ip.To16() // as net.ParseIP gives it
	}
	return &net.IPNet{IP: ip, Mask: m}
}

func ovCovers(v, p netip.Prefix) bool {
	return v.Addr().BitLen() == p.Addr().BitLen() && v.Addr().Is4() == p.Addr().Is4() && v.Bits() <= p.Bits() &&
		netip.PrefixFrom(p.Addr(), v.Bits()).Masked() == v
}

func (r *Run) ovStart() {
	o := &OVRun{r: r, Late: r.Plan.Extra["late"] != 0, held: map[string][]int{}}
	r.ov = o
	n := int(max(1, r.Plan.Extra["sets"]))
	o.Sets = make([][]*OVPayload, n)
	asns := []uint32{1, 64500, 64501, 65535, 65536, 4200000000, 4294967295}
	for _, e := range r.Plan.Events {
		if e.Kind != "vrps" {
			continue
		}
		g := verifsim.NewRand(uint64(e.A))
		s := int(e.Lag) % n
		for i := 0; i < e.B; i++ {
			v := &OVPayload{ID: len(o.Sets[s]), asn: pick(g, asns...)}
			v.p = r.ovPrefix(g)
			if k := len(o.Sets[s]); k > 0 && g.Chance(0.5) {
				v.p = ovRelated(g, o.Sets[s][g.Intn(k)].p)
			}
			if g.Chance(0.08) {
				v.asn = 0
			}
			v.max = v.p.Bits() + g.Intn(v.p.Addr().BitLen()-v.p.Bits()+1)
			switch g.Intn(6) {
			case 0, 1, 2:
				v.max = v.p.Bits()
			case 3:
				v.max = v.p.Addr().BitLen()
			case 4:
				v.max = min(v.p.Bits()+1+g.Intn(3), v.p.Addr().BitLen())
			}
			v.prefix = r.ovNet(g, v.p)
			o.Sets[s] = append(o.Sets[s], v)
		}
	}
	tasks := map[int]*OVTask{}
	var ids []int
	for _, e := range r.Plan.Events {
		if e.Kind != "route" {
			continue
		}
		g := verifsim.NewRand(uint64(e.A))
		t := tasks[int(e.Lag)]
		if t == nil {
			h := verifsim.NewRand(r.Plan.Seed*64 + uint64(e.Lag))
			t = &OVTask{Set: h.Intn(n), Own: h.Chance(0.25)}
			tasks[int(e.Lag)] = t
			ids = append(ids, int(e.Lag))
		}
		set := o.Sets[t.Set]
		for i := 0; i < e.B; i++ {
			rt := &OVRoute{p: r.ovPrefix(g), asn: pick(g, asns...)}
			if len(set) > 0 && g.Chance(0.85) {
				v := set[g.Intn(len(set))]
				rt.p = ovRelated(g, v.p)
				if v.asn != 0 && g.Chance(0.6) {
					rt.asn = v.asn
				}
			}
			rt.prefix = r.ovNet(g, rt.p)
			t.Routes = append(t.Routes, rt)
		}
	}
	sort.Ints(ids)
	for _, i := range ids {
		o.Tasks = append(o.Tasks, tasks[i])
	}
	for s, set := range o.Sets {
		for _, v := range set {
			r.logf("payload %d.%d: %s-%d AS%d (%d byte address)", s, v.ID, v.p, v.max, v.asn, len(v.prefix.IP))
		}
	}
	os.Args = []string{"ov"}
	p := r.sim.NewProc("ov")
	r.proc = p
	r.sim.Spawn(p, "main", func() {
		r.main()
		verifsim.Exit(0)
	})
	r.after(6*time.Hour, func() {
		if !p.Dead() {
			r.violate("C22", "stuck", "the lookups have not ended after six hours; waiting: %v", r.sim.Blocked(p))
			r.finish()
		}
	})
}

func (r *Run) ovExit(p *verifsim.Proc) {
	o := r.ov
	r.logf("%d lookups, %d with covering payloads, code %d panic %q", o.n, o.nn, p.ExitCode, p.Panic)
	if p.Panic != "" {
		r.violate("C22", "exit:"+panicKey(p), "a lookup panicked: %s\n%s", p.Panic, trimStack(p.Stack))
	}
	if o.nn > 0 {
		r.Exer["C22"]++
		r.Exer["C22-lookups"] += o.n
		r.Exer["C22-covered"] += o.nn
	}
	if len(o.Tasks) > 1 {
		r.fired("ov-concurrent-lookups")
	}
	r.finish()
}

// Answer takes what the validator says about a route.
func (o *OVRun) Answer(task, i int, ids []int, state string, err error) {
	r, t := o.r, o.Tasks[task]
	rt := t.Routes[i]
	var want []int
	st := "NotFound"
	for _, v := range o.Sets[t.Set] {
		if !ovCovers(v.p, rt.p) {
			continue
		}
		want = append(want, v.ID)
		if v.asn == rt.asn && v.max >= rt.p.Bits() {
			st = "Valid"
		} else if st == "NotFound" {
			st = "Invalid"
		}
	}
	o.n++
	if len(want) > 0 {
		o.nn++
	}
	got := append([]int(nil), ids...)
	o.held[fmt.Sprintf("%d/%d", task, i)] = got
	got = append([]int(nil), got...)
	sort.Ints(got)
	r.logf("task %d: %s AS%d: %s %v", task, rt.p, rt.asn, state, ids)
	what := fmt.Sprintf("%s from AS%d among %d payloads (own %v, %d tasks)", rt.p, rt.asn, len(o.Sets[t.Set]), t.Own, len(o.Tasks))
	if err != nil {
		r.violate("C22", "error", "%s: %v", what, err)
		return
	}
	if state != st {
		r.violate("C22", "state", "%s is %s, reported %s", what, st, state)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		r.violate("C22", "payloads", "%s is covered by %v, reported %v", what, want, got)
	}
}

// Again takes the payloads of an earlier answer as they are at the end.
func (o *OVRun) Again(task, i int, ids []int) {
	if h := o.held[fmt.Sprintf("%d/%d", task, i)]; fmt.Sprint(h) != fmt.Sprint(ids) {
		o.r.violate("C22", "changed", "the answer about %s changed after it was given: %v, now %v", o.Tasks[task].Routes[i].p, h, ids)
	}
}
