//go:build go1.22

package harness

import (
	"fmt"

	"github.com/cloudflare/cfrpki/verifsim"
)

// Plan is everything that decides one simulated execution. A replay file is a
// plan; the same plan on the same code gives the same execution.
type Plan struct {
	Prop     string   `json:"prop"`
	Seed     uint64   `json:"seed"`
	Kind     string   `json:"kind"` // server oneoff localrpki ctrpki api ov
	Profile  string   `json:"profile"`
	Flags    []string `json:"flags"`
	Refresh  int64    `json:"refresh_s"`
	RsyncTO  int64    `json:"rsync_timeout_s"`
	MaxConc  int      `json:"max_concurrent"`
	MaxIter  int      `json:"max_iterations"`
	Sign     bool     `json:"sign"`
	NoFail   bool     `json:"failover_off,omitempty"`
	NoRRDP   bool     `json:"rrdp_off,omitempty"`
	NoWait   bool     `json:"nowait,omitempty"`
	NoStrict bool     `json:"nonstrict,omitempty"`
	NoFilter bool     `json:"nofilter,omitempty"`
	CT       int      `json:"ct_threads,omitempty"`
	Validity int64    `json:"validity_s,omitempty"`
	Horizon  int64    `json:"horizon_ms"`

	TAs     []TASpec         `json:"tas"`
	RRDPs   []RRDPSpec       `json:"rrdps"`
	CAs     []CASpec         `json:"cas"`
	Events  []Event          `json:"events"`
	Net     []NetFault       `json:"net"`
	Disk    []DiskFault      `json:"disk"`
	Crashes []Crash          `json:"crashes"`
	Clients []Client         `json:"clients"`
	Clock   []ClockStep      `json:"clock"`
	Sched   SchedSpec        `json:"sched"`
	Extra   map[string]int64 `json:"extra,omitempty"`
}

type TASpec struct {
	Host  int    `json:"host"`
	HTTP  int    `json:"http"`
	Rsync bool   `json:"rsync"`
	Order string `json:"order,omitempty"`
	CRLF  bool   `json:"crlf,omitempty"`
	ROAs  int    `json:"roas"`
	RRDP  int    `json:"rrdp"`
	OwnCA bool   `json:"own_ca,omitempty"` // the anchor publishes in another host
	All   bool   `json:"all,omitempty"`    // holds every number
}

type RRDPSpec struct {
	Host   int  `json:"host"`
	Spaces bool `json:"spaces,omitempty"`
	Evil   bool `json:"evil,omitempty"`
}

type CASpec struct {
	Parent  int      `json:"parent"` // >=0: TA index; <0: -(1+index in CAs)
	Host    int      `json:"host"`
	Module  int      `json:"module"`
	RRDP    int      `json:"rrdp"` // -1 none
	ROAs    int      `json:"roas"`
	Inherit int      `json:"inherit,omitempty"`
	Range   bool     `json:"range,omitempty"`
	Multi   bool     `json:"multi,omitempty"`
	Hostile bool     `json:"hostile,omitempty"`
	Modes   []string `json:"modes,omitempty"` // additional odd ROAs
}

type Event struct {
	At   int64  `json:"at_ms"`
	Kind string `json:"kind"`
	A    int    `json:"a"`
	B    int    `json:"b,omitempty"`
	Lag  int64  `json:"lag_ms,omitempty"` // the RRDP server publishes this much later
}

type DiskFault struct {
	From  int64  `json:"from_ms"`
	To    int64  `json:"to_ms"`
	Op    string `json:"op"`
	Match string `json:"match"`
	Every int    `json:"every"`
	Err   string `json:"err"`
	Short int    `json:"short,omitempty"`
	n     int
}

type Crash struct {
	At      int64 `json:"at_ms"`
	Op      int   `json:"op"` // at the Op-th file system mutation after At (0: at once)
	Restart int64 `json:"restart_ms"`
}

type Client struct {
	At    int64  `json:"at_ms"`
	Path  string `json:"path"`
	Slow  int    `json:"slow,omitempty"` // 1: stops reading for Dur; 2: reads slowly
	Dur   int64  `json:"dur_ms,omitempty"`
	ETag  bool   `json:"etag,omitempty"`
	Every int64  `json:"every_ms,omitempty"`
}

type ClockStep struct {
	At int64 `json:"at_ms"`
	By int64 `json:"by_ms"`
}

type SchedSpec struct {
	Seed      uint64  `json:"seed"`
	MeanGap   int     `json:"mean_gap"`
	StallProb float64 `json:"stall_prob"`
	MaxStall  int64   `json:"max_stall_ms"`
	Window    float64 `json:"window,omitempty"` // probability of a preemption right before a map access
}

// Profile weights what a plan contains for one property.
type Profile struct {
	Net, Disk, Crash, Clock, Events, Hostile, Clients, ShortVal, OddROA float64
	Stall                                                               float64
	CT, Oneoff                                                          bool
	NoHealHostile                                                       bool // faults on hostile hosts never end
	StaticBenign                                                        bool
	Endless                                                             float64
	Evil                                                                float64
	MinTA, MaxCA                                                        int
	DeepCA                                                              float64
	FailOff, RRDPOff, NoWait, Sign                                      float64
	Hang                                                                float64 // hang-type faults that never heal
	TALFaults                                                           float64
	Restart                                                             float64
	Kinds                                                               []string // repository events to draw from
	Claims                                                              int
	Preseed                                                             float64
	Aux                                                                 float64 // clients of the other endpoints
	SlowClients                                                         float64
	NoStrict                                                            float64
	CTFaults                                                            float64
	Blip                                                                float64 // writes fail for about one round
	Oversize                                                            float64 // a response of more than a gigabyte
}

var eventKinds = []string{"addroa", "addroa", "delroa", "modroa", "modroa", "addca", "delca", "revokeca", "unrevokeca", "revokeroa", "revokenone", "reissueca", "recommit", "newsession", "rollback", "ta-reissue", "badmft", "fixmft", "shortval", "rsynconly", "oddroa", "dupserial", "moverrdp", "unlisted", "swapfile", "flap", "other"}

// Profiles weight the search for each property.
func ProfileFor(prop string) (string, Profile) {
	b := Profile{Net: 0.55, Disk: 0.15, Crash: 0.12, Clock: 0.03, Events: 0.88, Hostile: 0.3, Clients: 0.6, ShortVal: 0.6, OddROA: 0.25, Stall: 0.15,
		MaxCA: 6, DeepCA: 0.3, FailOff: 0.06, RRDPOff: 0.05, NoWait: 0.07, Sign: 0.3, TALFaults: 0.12, Evil: 0.3, Endless: 0.03, Preseed: 0.1, Aux: 0.4, SlowClients: 0.25, NoStrict: 0.03}
	kind := "server"
	switch prop {
	case "C01":
		b.OddROA, b.Hostile, b.Disk = 0.45, 0.5, 0.2
	case "C02":
		b.NoStrict, b.Crash = 0, 0.2
	case "C03":
		b.Hostile, b.StaticBenign, b.Events, b.Disk, b.Net, b.Endless, b.FailOff, b.Evil, b.TALFaults, b.NoStrict, b.Clock = 1, true, 0, 0, 0.7, 0.1, 0, 0.6, 0, 0, 0
	case "C04":
		b.Hostile, b.Disk, b.Net, b.Clients, b.TALFaults = 0.85, 0.55, 0.7, 0.85, 0.3
	case "C05":
		b.Net, b.Disk, b.RRDPOff, b.Hostile, b.Events, b.NoStrict, b.Blip = 0.75, 0.15, 0, 0.1, 0.93, 0, 0.4
		b.Kinds = []string{"addroa", "delroa", "modroa", "modroa", "addca", "delca", "recommit", "newsession", "newsession", "rollback", "rollback", "rsynconly", "moverrdp", "reissueca", "flap", "flap"}
	case "C06":
		b.Crash, b.Net = 0.95, 0.4
	case "C07":
		b.Hostile, b.Evil = 1, 0.9
	case "C08":
		b.DeepCA, b.Endless, b.NoWait, b.Aux, b.Clients = 0.6, 0.2, 0.03, 0.7, 0.9
		b.Kinds = []string{"addroa", "modroa", "addca", "addca", "delca", "moverrdp", "recommit", "reissueca"}
	case "C09":
		b.Clients, b.Sign, b.Events, b.Stall, b.Aux = 0.95, 0.7, 0.92, 0.3, 0.1
	case "C10":
		b.DeepCA, b.Endless, b.NoWait, b.Hostile, b.Aux, b.Clients = 0.7, 0.5, 0.03, 0.7, 0.8, 0.8
		b.Kinds = []string{"addroa", "modroa", "addca", "addca", "addca", "delca", "moverrdp", "recommit", "reissueca"}
	case "C11":
		b.Net, b.TALFaults, b.FailOff, b.Disk, b.Crash, b.RRDPOff = 0.9, 0.5, 0.2, 0.05, 0.05, 0.1
		b.Oversize = 0.03
	case "C12":
		b.Hang, b.Clients, b.SlowClients, b.Aux, b.Stall = 0.7, 0.9, 0.7, 0.6, 0
	case "C13":
		b.TALFaults, b.Events = 0.95, 0.93
		b.Kinds = append(append([]string{}, eventKinds...), "ta-reissue", "ta-reissue", "shortval-ta", "shortval-ta", "shortval-ta", "shortval-ta", "ta-expire", "ta-expire")
	case "C14":
		b.Events, b.Net, b.Disk = 0.95, 0.3, 0.05
		b.Kinds = []string{"addroa", "addca", "modroa", "revokeca", "revokeca", "unrevokeca", "revokeroa", "revokeroa", "revokenone", "reissueca", "reissueca", "dupserial", "dupserial", "recommit", "badmft", "fixmft", "revokemft"}
	case "C15":
		b.Events, b.Net, b.Disk, b.NoStrict = 0.95, 0.3, 0.05, 0.02
		b.Kinds = []string{"addroa", "addca", "modroa", "badmft", "badmft", "badmft", "fixmft", "fixmft", "swapfile", "swapfile", "unlisted", "unlisted", "recommit", "shortval", "addroa", "other"}
	case "C16":
		b.Claims, b.OddROA, b.Net, b.Disk, b.Crash, b.Events, b.DeepCA = 8, 0.4, 0.1, 0, 0, 0.6, 0.5
	case "C17":
		b.CT, b.NoWait, b.Net, b.Disk, b.CTFaults = true, 0.15, 0.3, 0.2, 0.6
	case "C18":
		kind = "oneoff"
		b.Crash, b.Disk, b.NoWait, b.Endless = 0.6, 0.35, 0.1, 0.05
	case "C22":
		kind = "ov"
	case "C20", "C21", "C23":
		kind = map[string]string{"C20": "localrpki", "C21": "api", "C23": "ctrpki"}[prop]
		b.Events, b.Hostile, b.NoStrict, b.Stall, b.TALFaults = 0.92, 0.25, 0, 0.1, 0
		b.Kinds = append(append([]string{}, eventKinds...), "shortval", "shortval-ta", "revokeca", "revokeroa", "dupserial")
	case "C19":
		b.Aux, b.Clients, b.Events, b.Stall = 0.95, 0.95, 0.92, 0.3
	}
	return kind, b
}

func pick[T any](r *verifsim.Rand, l ...T) T { return l[r.Intn(len(l))] }

var httpKinds = []string{"refuse", "dns", "status", "hang", "hangafter", "drip", "slow", "trunc", "short200", "empty200", "html200", "garbage", "badbase64", "wrongcontent", "stale", "redirect"}
var rsyncKinds = []string{"refuse", "hang", "hangmid", "partial", "slow", "flood", "longline", "exitcode", "execfail", "corrupt"}
var talKinds = []string{"refuse", "dns", "status", "hang", "hangafter", "slow", "trunc", "short200", "empty200", "html200", "garbage", "wrongcert", "altered", "oldcert", "redirect"}
var hangKinds = []string{"hang", "hangafter", "drip", "slow"}
var flagKinds = []string{"mft-missing-file", "mft-wrong-hash", "mft-expired", "mft-future", "mft-ee-expired", "mft-wrongkey", "mft-badsig", "mft-baddigest", "mft-nosigners", "mft-garbage", "mft-absent", "mft-revoked-ee", "crl-badsig", "mft-traversal"}
var roaModes = []string{"overclaim-ee", "outside-ee", "inherit", "inherit-out", "badmax", "badsig", "forged", "baddigest", "nosigners", "eebadsig", "eewrongkey", "notyet", "expired"}

func (p *Plan) hosts() int {
	n := 0
	for _, t := range p.TAs {
		n = max(n, t.Host+1)
	}
	for _, c := range p.CAs {
		if !c.Hostile {
			n = max(n, c.Host+1)
		}
	}
	return n
}

func MakePlan(prop, kind string, seed uint64, pf Profile) *Plan {
	h := uint64(14695981039346656037)
	for _, c := range prop {
		h = (h ^ uint64(c)) * 1099511628211
	}
	r := verifsim.NewRand(seed ^ h)
	p := &Plan{Prop: prop, Seed: seed, Kind: kind}
	if kind == "ov" {
		return ovPlan(p, r)
	}
	p.Refresh = int64(pick(r, 30, 60, 60, 90, 120))
	p.RsyncTO = int64(pick(r, 20, 30, 60))
	p.MaxConc = pick(r, 1, 2, 2, 3, 5, 20)
	p.MaxIter = pick(r, 8, 12, 32, 32)
	if pf.Endless >= 0.1 {
		p.MaxIter = pick(r, 6, 8, 12, 12)
	}
	p.Extra = map[string]int64{}
	if r.Chance(0.35) {
		p.Extra["samenames"] = 1
	}
	if r.Chance(0.2) {
		p.Extra["ber"] = 1
	}
	if r.Chance(0.25) {
		p.Extra["others"] = int64(1 + r.Intn(6))
	}
	if pf.Claims > 0 {
		p.Extra["claims"] = int64(1 + r.Intn(pf.Claims))
		if r.Chance(0.3) {
			p.Extra["mapped"] = int64(1 + r.Intn(2))
		}
	}
	if r.Chance(pf.Preseed) {
		p.Extra["preseed"] = 1
	}
	if pf.StaticBenign {
		p.Extra["static"] = 1
	}
	p.NoStrict = r.Chance(pf.NoStrict)
	p.Sign = r.Chance(pf.Sign)
	p.NoFail = r.Chance(pf.FailOff)
	p.NoRRDP = r.Chance(pf.RRDPOff)
	p.NoWait = r.Chance(pf.NoWait)
	p.NoFilter = r.Chance(0.1)
	p.Validity = int64(pick(r, 300, 900, 3600, 3600))
	if p.Extra["ber"] == 0 && r.Chance(0.06) {
		p.Flags = append(p.Flags, "-strict.cms=true")
	}
	if r.Chance(0.05) {
		p.Flags = append(p.Flags, "-http.cache=false")
	}
	if r.Chance(0.04) {
		p.Flags = append(p.Flags, "-rrdp.file=")
	} else if r.Chance(0.04) {
		p.Flags = append(p.Flags, "-rrdp.file=/work/state-rrdp.json")
	}
	if r.Chance(0.08) {
		p.Flags = append(p.Flags, pick(r, "-cache=cache", "-cache=/work/cache/", "-cache=/work//cache", "-cache=./cache/", "-cache=/work/tals/../cache"))
	}
	if pf.CT {
		p.CT = pick(r, 1, 2, 4, 8)
	}
	p.Horizon = p.Refresh * 1000 * int64(4+r.Intn(10))
	p.Sched = SchedSpec{Seed: r.U64(), MeanGap: pick(r, 30, 100, 200, 500, 2000), StallProb: 0}
	if r.Chance(pf.Stall) {
		p.Sched.StallProb = pick(r, 0.001, 0.003, 0.01)
		p.Sched.MaxStall = int64(pick(r, 20, 500, 5000, 30000))
	}

	nta := max(pf.MinTA, 1+r.Intn(3))
	nh := 0 // benign hosts
	for i := 0; i < nta; i++ {
		t := TASpec{Host: nh, HTTP: r.Intn(3), Rsync: r.Chance(0.8), Order: pick(r, "", "", "rsync-first", "rsync-mid"), CRLF: r.Chance(0.3), ROAs: r.Intn(2), RRDP: -1}
		t.All = r.Chance(0.25)
		if t.HTTP == 0 {
			t.Rsync = true
			if p.NoFail { // such an anchor is reachable over rsync failover only
				t.HTTP = 1
			}
		}
		nh++
		if r.Chance(0.5) {
			p.RRDPs = append(p.RRDPs, RRDPSpec{Host: t.Host, Spaces: r.Chance(0.3)})
			t.RRDP = len(p.RRDPs) - 1
		}
		p.TAs = append(p.TAs, t)
	}
	nca := 1 + r.Intn(max(1, pf.MaxCA))
	for i := 0; i < nca; i++ {
		c := CASpec{RRDP: -1, ROAs: r.Intn(4), Range: r.Chance(0.15), Multi: r.Chance(0.2)}
		if i > 0 && r.Chance(0.4+pf.DeepCA/2) {
			c.Parent = -(1 + r.Intn(i))
			if r.Chance(pf.DeepCA) {
				c.Parent = -i
			}
		} else {
			c.Parent = r.Intn(nta)
		}
		if r.Chance(0.35) {
			c.Inherit = 1 + r.Intn(7)
			c.Range = false
		}
		if r.Chance(0.5) && nh > 0 {
			c.Host = r.Intn(nh)
		} else {
			c.Host = nh
			nh++
		}
		c.Module = r.Intn(2)
		if r.Chance(0.65) {
			// an RRDP server of this host, or a new one
			found := -1
			for j, s := range p.RRDPs {
				if s.Host == c.Host && r.Chance(0.75) {
					found = j
				}
			}
			if found < 0 {
				p.RRDPs = append(p.RRDPs, RRDPSpec{Host: c.Host, Spaces: r.Chance(0.3)})
				found = len(p.RRDPs) - 1
			}
			c.RRDP = found
		}
		for r.Chance(pf.OddROA) && len(c.Modes) < 3 {
			c.Modes = append(c.Modes, pick(r, roaModes...))
		}
		p.CAs = append(p.CAs, c)
	}
	// hostile CAs have hosts and RRDP servers of their own
	nhost := 0
	if r.Chance(pf.Hostile) {
		nhost = 1 + r.Intn(2)
	}
	for i := 0; i < nhost; i++ {
		c := CASpec{RRDP: -1, ROAs: r.Intn(3), Hostile: true, Host: 100 + i}
		if r.Chance(0.3) {
			c.Parent = -(1 + r.Intn(nca))
		} else {
			c.Parent = r.Intn(nta)
		}
		if r.Chance(0.4) {
			c.Inherit = 1 + r.Intn(7)
		}
		if r.Chance(0.7) {
			p.RRDPs = append(p.RRDPs, RRDPSpec{Host: c.Host, Evil: r.Chance(pf.Evil)})
			c.RRDP = len(p.RRDPs) - 1
		}
		p.CAs = append(p.CAs, c)
	}

	hz := p.Horizon
	at := func() int64 { return int64(r.U64() % uint64(hz)) }
	kinds := eventKinds
	if pf.Kinds != nil {
		kinds = pf.Kinds
	}
	if !pf.StaticBenign {
		n := 0
		for r.Chance(pf.Events) && n < 14 {
			n++
			e := Event{At: at(), A: r.Intn(64), B: r.Intn(64)}
			e.Kind = pick(r, kinds...)
			if e.Kind == "shortval" && !r.Chance(pf.ShortVal) {
				e.Kind = "recommit"
			}
			if r.Chance(0.3) {
				e.Lag = int64(1+r.Intn(120)) * 1000
			}
			p.Events = append(p.Events, e)
		}
	}
	for i := 0; i < nhost; i++ {
		n := 1 + r.Intn(4)
		for j := 0; j < n; j++ {
			e := Event{At: at(), Kind: "hostile", A: i, B: r.Intn(1 << 16)}
			if r.Chance(0.5) {
				e.At = 0
			}
			p.Events = append(p.Events, e)
		}
		if r.Chance(pf.Endless) && p.MaxIter <= 12 {
			p.Events = append(p.Events, Event{At: 0, Kind: "endless", A: i, B: r.Intn(1 << 16)})
		}
	}
	// network faults
	n := 0
	for r.Chance(pf.Net) && n < 10 {
		n++
		f := NetFault{From: at(), P: r.Intn(1 << 16)}
		f.To = f.From + int64(1+r.Intn(int(hz/2)))
		if f.To > hz {
			f.To = hz
		}
		if r.Chance(0.15) {
			f.From = 0
		}
		if r.Chance(0.35) {
			f.Every = 2 + r.Intn(3)
		}
		switch r.Intn(3) {
		case 0:
			f.Target = fmt.Sprintf("h%d.sim", r.Intn(nh))
			f.Kind = pick(r, rsyncKinds...)
			f.Doc = "rsync"
		case 1:
			if len(p.RRDPs) == 0 {
				continue
			}
			f.Target = fmt.Sprintf("rrdp%d.sim", r.Intn(len(p.RRDPs)))
			f.Kind = pick(r, httpKinds...)
			f.Doc = pick(r, "", "", "notification", "snapshot", "delta")
			if r.Chance(0.01) {
				f.Kind = "oversize"
			}
		case 2:
			f.Target = fmt.Sprintf("tal%d-%d.sim", r.Intn(nta), r.Intn(2))
			f.Kind = pick(r, talKinds...)
		}
		if pf.StaticBenign && (f.Target[0] != 'r' || !p.RRDPs[targetIdx(f.Target)].Evil && p.RRDPs[targetIdx(f.Target)].Host < 100) {
			continue
		}
		p.Net = append(p.Net, f)
	}
	if r.Chance(pf.TALFaults) {
		for i := 0; i < 1+r.Intn(3); i++ {
			f := NetFault{From: 0, P: r.Intn(1 << 16), Target: fmt.Sprintf("tal%d-%d.sim", r.Intn(nta), r.Intn(2)), Kind: pick(r, talKinds...)}
			if r.Chance(0.3) {
				f.Kind = pick(r, "wrongcert", "altered", "oldcert")
			}
			if r.Chance(0.4) {
				f.From = at()
			}
			f.To = f.From + int64(1+r.Intn(int(hz)))
			if f.To > hz {
				f.To = hz
			}
			p.Net = append(p.Net, f)
		}
	}
	if pf.Oversize > 0 && r.Chance(pf.Oversize) && len(p.RRDPs) > 0 {
		p.Net = append(p.Net, NetFault{To: hz, P: r.Intn(1 << 16), Kind: "oversize",
			Target: fmt.Sprintf("rrdp%d.sim", r.Intn(len(p.RRDPs))),
			Doc:    pick(r, "", "notification", "snapshot", "delta")})
	}
	for n := 0; r.Chance(pf.CTFaults) && n < 4; n++ {
		f := NetFault{From: at(), P: r.Intn(1 << 16), Target: "ct.sim", Kind: pick(r, "refuse", "dns", "status", "hang", "hangafter", "drip", "slow", "trunc", "empty200", "html200", "redirect")}
		f.To = f.From + int64(1+r.Intn(int(hz)))
		if r.Chance(0.5) {
			f.From = 0
		}
		if f.To > hz {
			f.To = hz
		}
		if r.Chance(0.35) {
			f.Every = 2 + r.Intn(3)
		}
		p.Net = append(p.Net, f)
	}
	for i := 0; i < nhost; i++ {
		for r.Chance(0.5) {
			f := NetFault{From: 0, To: 0, P: r.Intn(1 << 16), Target: fmt.Sprintf("h%d.sim", 100+i), Kind: pick(r, rsyncKinds...), Doc: "rsync"}
			if r.Chance(0.6) && len(p.RRDPs) > 0 {
				for j, s := range p.RRDPs {
					if s.Host == 100+i {
						f.Target = fmt.Sprintf("rrdp%d.sim", j)
						f.Kind = pick(r, httpKinds...)
						f.Doc = pick(r, "", "notification", "snapshot", "delta")
						if r.Chance(0.02) {
							f.Kind = "oversize"
						}
					}
				}
			}
			p.Net = append(p.Net, f)
			if len(p.Net) > 14 {
				break
			}
		}
	}
	if pf.StaticBenign && r.Chance(0.3) {
		// few threads, and hostile repositories that take all the time they get
		p.MaxConc = 1 + r.Intn(2)
		for i := 0; i < nhost; i++ {
			p.Net = append(p.Net, NetFault{P: r.Intn(1 << 16), Target: fmt.Sprintf("h%d.sim", 100+i), Kind: pick(r, "hang", "hang", "hangmid"), Doc: "rsync"})
		}
	}
	if r.Chance(pf.Hang) {
		for i := 0; i < 1+r.Intn(3); i++ {
			f := NetFault{From: at() / 2, P: r.Intn(1 << 16)}
			if r.Chance(0.5) || len(p.RRDPs) == 0 {
				f.Target, f.Doc = fmt.Sprintf("h%d.sim", r.Intn(nh)), "rsync"
				f.Kind = pick(r, "hang", "hangmid")
			} else {
				f.Target = fmt.Sprintf("rrdp%d.sim", r.Intn(len(p.RRDPs)))
				f.Kind = pick(r, hangKinds...)
			}
			if r.Chance(0.2) {
				f.Target, f.Kind, f.Doc = fmt.Sprintf("tal%d-%d.sim", r.Intn(nta), r.Intn(2)), pick(r, "hang", "hangafter", "drip"), ""
			}
			p.Net = append(p.Net, f)
		}
	}
	n = 0
	for r.Chance(pf.Disk) && n < 6 {
		n++
		d := DiskFault{From: at(), Every: 1 + r.Intn(6), Err: pick(r, "EIO", "ENOSPC", "EMFILE", "EACCES", "EDQUOT")}
		d.To = min(hz, d.From+int64(1+r.Intn(int(hz/3))))
		d.Op = pick(r, "open-r", "read", "open-w", "write", "mkdir", "rename", "stat", "close", "open-w", "write", "full")
		d.Match = pick(r, "", "", ".roa", ".mft", ".cer", ".crl", "rrdp.json", "/work/tals", "cache/", "h0.sim", "h1.sim")
		if d.Op == "write" {
			d.Short = r.Intn(400)
		}
		p.Disk = append(p.Disk, d)
	}
	for i := 0; i < 4 && r.Chance(pf.Blip); i++ { // writes that fail for about one round
		d := DiskFault{From: at(), Every: 1 + r.Intn(5), Err: "EIO", Op: pick(r, "open-w", "write", "open-w"), Match: pick(r, "cache/", "h0.sim", "h1.sim", ".mft", ".roa", ".crl"), Short: r.Intn(400)}
		d.To = min(hz, d.From+int64(p.Refresh)*(500+int64(r.Intn(2500))))
		p.Disk = append(p.Disk, d)
	}
	n = 0
	for r.Chance(pf.Crash) && n < 4 {
		n++
		c := Crash{At: at(), Restart: int64(100 + r.Intn(30000))}
		if r.Chance(0.75) {
			c.Op = 1 + r.Intn(60)
		}
		p.Crashes = append(p.Crashes, c)
	}
	if r.Chance(pf.Clock) {
		for i := 0; i < 1+r.Intn(2); i++ {
			p.Clock = append(p.Clock, ClockStep{At: at(), By: int64(pick(r, 1, -1)) * int64(pick(r, 500, 5000, 60000, 1800000, 7200000))})
		}
	}
	// clients
	p.Clients = append(p.Clients, Client{At: int64(r.Intn(2000)), Path: "/output.json", Every: 1000 * int64(3+r.Intn(int(p.Refresh/2))), ETag: r.Chance(0.5)})
	for r.Chance(pf.Clients) && len(p.Clients) < 12 {
		c := Client{At: at(), Path: "/output.json", ETag: r.Chance(0.3)}
		if r.Chance(pf.Aux) {
			c.Path = pick(r, "/resources.json", "/resources.json", "/infos", "/infos", "/health", "/metrics")
			c.ETag = false
		}
		if r.Chance(pf.SlowClients) {
			c.Slow = 1 + r.Intn(2)
			c.Dur = int64(1+r.Intn(600)) * 1000
		}
		if r.Chance(0.4) {
			c.Every = 1000 * int64(2+r.Intn(int(p.Refresh)))
		}
		p.Clients = append(p.Clients, c)
	}
	if r.Chance(pf.Aux) {
		// requests around the moments when validations happen
		for i := 0; i < 3; i++ {
			p.Clients = append(p.Clients, Client{At: int64(r.Intn(4000)), Path: pick(r, "/resources.json", "/infos", "/metrics", "/health"), Every: int64(700 + r.Intn(int(p.Refresh)*300))})
		}
	}
	if localKind(kind) {
		localPlan(p, r)
	}
	return p
}

func targetIdx(t string) int {
	var n int
	fmt.Sscanf(t, "rrdp%d.sim", &n)
	return n
}
