//go:build go1.22

package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

// Summary is what a worker reports.
type Summary struct {
	Prop       string            `json:"property"`
	Runs       int               `json:"runs"`
	Nontrivial int               `json:"nontrivial"`
	SimSeconds float64           `json:"sim_seconds"`
	Wall       float64           `json:"wall_s"`
	Faults     map[string]int    `json:"faults"`
	Exer       map[string]int    `json:"exercised"`
	Hashes     map[string]string `json:"hashes"` // seed -> interleaving hash / event hash
	Windows    int               `json:"validations"`
	Docs       int               `json:"responses"`
	Retrievals int               `json:"retrievals"`
	Yields     uint64            `json:"scheduling_points"`
	Switches   uint64            `json:"task_switches"`
	Preempts   uint64            `json:"preemptions"`
	Stalls     uint64            `json:"stalls"`
	MapOrders  uint64            `json:"map_orders"`
	Accesses   uint64            `json:"map_accesses"`
	HeldUp     uint64            `json:"held_up"`
	Found      []Found           `json:"found"`
	Samples    []Sample          `json:"samples"`
	Next       uint64            `json:"next_seed"`
	Other      map[string]int    `json:"other_violations,omitempty"`
}

type Found struct {
	Seed uint64    `json:"seed"`
	V    Violation `json:"violation"`
	Plan *Plan     `json:"plan"`
	Hash string    `json:"hash"`
}

type Sample struct {
	Seed       uint64 `json:"seed"`
	Windows    int    `json:"validations"`
	Events     int    `json:"repository_events"`
	NetFaults  int    `json:"network_faults"`
	DiskFaults int    `json:"disk_faults"`
	Crashes    int    `json:"crashes"`
	Docs       int    `json:"responses"`
	SimSec     int64  `json:"simulated_s"`
	Hash       string `json:"interleaving"`
}

func (s *Summary) add(r *Run, seed uint64, prop string) {
	s.Runs++
	s.SimSeconds += time.Duration(r.ms() * 1e6).Seconds()
	for k, v := range r.Faults {
		s.Faults[k] += v
	}
	for k, v := range r.Exer {
		s.Exer[k] += v
	}
	wins := 0
	for _, ps := range r.all {
		wins += len(ps.windows)
	}
	if r.local != nil {
		wins += r.local.n
	}
	s.Windows += wins
	s.Docs += r.docs
	s.Retrievals += len(r.Reqs)
	s.Yields += r.sim.Yields
	s.Switches += r.sim.Switches
	s.Preempts += r.sim.Preempts
	s.Accesses += r.sim.Accesses
	s.HeldUp += r.sim.Windows
	s.MapOrders += r.sim.Shuffles
	s.Stalls += r.sim.Stalls
	h := fmt.Sprintf("%016x", r.sim.Hash)
	nt := r.Exer[prop] > 0 && (wins >= 2 || r.Plan.Kind != "server" && r.Plan.Kind != "oneoff")
	if nt {
		s.Nontrivial++
		s.Hashes[strconv.FormatUint(seed, 10)] = fmt.Sprintf("%s/%016x", h, r.sim.EvHash)
	}
	if len(s.Samples) < 3 && nt {
		s.Samples = append(s.Samples, Sample{seed, wins, len(r.Plan.Events), len(r.Plan.Net), len(r.Plan.Disk), len(r.Plan.Crashes), r.docs, r.ms() / 1000, h})
	}
	for _, v := range r.Viol {
		if v.Prop != prop {
			s.Other[v.Prop+":"+v.Key]++
		}
	}
}

func newSummary(prop string) *Summary {
	return &Summary{Prop: prop, Faults: map[string]int{}, Exer: map[string]int{}, Hashes: map[string]string{}, Other: map[string]int{}}
}

// one runs a plan in a bubble of its own.
func one(t *testing.T, p *Plan, main func(), want string, keep bool) *Run {
	done := make(chan *Run)
	never := make(chan struct{})
	// the plan is part of the run: give it a private copy
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	cryptotest.SetGlobalRandom(t, p.Seed)
	go func() {
		synctest.Test(t, func(t *testing.T) {
			r := Execute(q, main, want, keep)
			done <- r
			<-never
		})
	}()
	return <-done
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envInt(k string, def int64) int64 {
	n, err := strconv.ParseInt(os.Getenv(k), 10, 64)
	if err != nil {
		return def
	}
	return n
}

func out(v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if f := os.Getenv("VERIFSIM_OUT"); f != "" {
		if err := os.WriteFile(f+".tmp", b, 0644); err != nil {
			panic(err)
		}
		os.Rename(f+".tmp", f)
		return
	}
	fmt.Println(string(b))
}

// lockBig keeps the runs that serve documents of more than a gigabyte (which
// take some 5 GB of memory each) from running side by side.
func lockBig(p *Plan, end time.Time) func() {
	big := false
	for _, f := range p.Net {
		big = big || f.Kind == "oversize"
	}
	prog := os.Getenv("VERIFSIM_PROGRESS")
	if !big || prog == "" {
		return func() {}
	}
	f, err := os.OpenFile(filepath.Join(filepath.Dir(prog), "big.lock"), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		return func() {}
	}
	for syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) != nil {
		if time.Now().After(end) {
			f.Close()
			return nil
		}
		time.Sleep(50 * time.Millisecond)
		os.Chtimes(prog, time.Time{}, time.Now()) // not hung
	}
	os.Chtimes(prog, time.Time{}, time.Now())
	return func() {
		debug.FreeOSMemory()
		f.Close()
	}
}

func memMB() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.Sys / (1 << 20)
}

func PlanFor(prop string, seed uint64) *Plan {
	kind, pf := ProfileFor(prop)
	if k := os.Getenv("VERIFSIM_KIND"); k != "" {
		kind = k
	}
	p := MakePlan(prop, kind, seed, pf)
	r := verifsim.NewRand(p.Sched.Seed).Fork(9)
	p.Sched.Window = pick(r, 0, 0.003, 0.02, 0.1)
	if kind == "ov" {
		p.Sched.Window = pick(r, 0, 0.1, 0.3)
	}
	return p
}

func readPlan() *Plan {
	b, err := os.ReadFile(os.Getenv("VERIFSIM_PLAN"))
	if err != nil {
		panic(err)
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		panic(err)
	}
	return p
}

// Main drives the simulation of one program.
func Main(t *testing.T, kind string, main func()) {
	prop := os.Getenv("VERIFSIM_PROP")
	known := loadKnown()
	switch env("VERIFSIM_MODE", "search") {
	case "search":
		s := newSummary(prop)
		start := time.Now()
		seed := uint64(envInt("VERIFSIM_SEED", 1))
		step := uint64(envInt("VERIFSIM_STEP", 1))
		n := envInt("VERIFSIM_N", 10)
		budget := time.Duration(envInt("VERIFSIM_BUDGET_MS", 60000)) * time.Millisecond
		for i := int64(0); i < n && time.Since(start) < budget; i++ {
			p := PlanFor(prop, seed)
			want := prop
			if os.Getenv("VERIFSIM_ALL") != "" {
				want = ""
			}
			t0 := time.Now()
			if f := os.Getenv("VERIFSIM_PROGRESS"); f != "" {
				os.WriteFile(f, []byte(strconv.FormatUint(seed, 10)), 0644)
			}
			unlock := lockBig(p, start.Add(budget))
			if unlock == nil {
				break
			}
			r := one(t, p, main, want, false)
			unlock()
			if os.Getenv("VERIFSIM_VERBOSE") != "" {
				fmt.Fprintf(os.Stderr, "seed %d: %v sim %ds windows %d docs %d hash %016x viol %d mem %dMB yields %d\n", seed, time.Since(t0).Round(time.Millisecond), r.ms()/1000, nwin(r), r.docs, r.sim.Hash, len(r.Viol), memMB(), r.sim.Yields)
			}
			s.add(r, seed, prop)
			for _, v := range r.Viol {
				if (v.Prop == prop || want == "") && !known.match(v) {
					s.Found = append(s.Found, Found{seed, v, p, fmt.Sprintf("%016x", r.sim.Hash)})
				}
			}
			seed += step
			if len(s.Found) > 0 && want != "" || memMB() > uint64(envInt("VERIFSIM_MEM_MB", 2500)) {
				break
			}
		}
		s.Next = seed
		s.Wall = time.Since(start).Seconds()
		out(s)
	case "replay":
		p := readPlan()
		r := one(t, p, main, prop, true)
		for _, l := range r.Lines {
			fmt.Println(l)
		}
		if os.Getenv("VERIFSIM_CONSOLE") != "" {
			fmt.Println(r.Console.String())
		}
		fmt.Printf("HASH %016x %016x\n", r.sim.Hash, r.sim.EvHash)
		for _, v := range r.Viol {
			fmt.Printf("FOUND %s [%s] at %d ms: %s\n", v.Prop, v.Key, v.At, v.Msg)
		}
	case "determinism":
		// the same plans twice in one process and in another order
		n := int(envInt("VERIFSIM_N", 5))
		seed := uint64(envInt("VERIFSIM_SEED", 1))
		var hs []string
		for i := 0; i < n; i++ {
			r := one(t, PlanFor(prop, seed+uint64(i)), main, "", false)
			hs = append(hs, fmt.Sprintf("%d %016x %016x %d", seed+uint64(i), r.sim.Hash, r.sim.EvHash, r.ms()))
		}
		for i := n - 1; i >= 0; i-- {
			r := one(t, PlanFor(prop, seed+uint64(i)), main, "", false)
			h := fmt.Sprintf("%d %016x %016x %d", seed+uint64(i), r.sim.Hash, r.sim.EvHash, r.ms())
			if h != hs[i] {
				fmt.Println("NONDETERMINISTIC", hs[i], "vs", h)
			}
		}
		for _, h := range hs {
			fmt.Println("DET", h)
		}
	case "minimise":
		p := readPlan()
		m := &minimiser{t: t, main: main, prop: prop, key: os.Getenv("VERIFSIM_KEY"), end: time.Now().Add(time.Duration(envInt("VERIFSIM_BUDGET_MS", 60000)) * time.Millisecond)}
		p = m.run(p)
		out(map[string]any{"plan": p, "tried": m.tried, "kept": m.kept})
	case "plan":
		out(PlanFor(prop, uint64(envInt("VERIFSIM_SEED", 1))))
	}
}

func nwin(r *Run) int {
	n := 0
	for _, ps := range r.all {
		n += len(ps.windows)
	}
	return n
}

// --- known findings ---

type knownList []struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Match    string `json:"match"`
}

func loadKnown() knownList {
	var k knownList
	if b, err := os.ReadFile(os.Getenv("VERIFSIM_KNOWN")); err == nil {
		json.Unmarshal(b, &k)
	}
	return k
}

func (k knownList) match(v Violation) bool {
	for _, x := range k {
		if x.Property == v.Prop && x.Key == v.Key && (x.Match == "" || strings.Contains(v.Msg, x.Match)) {
			return true
		}
	}
	return false
}

// --- minimisation ---

type minimiser struct {
	t           *testing.T
	main        func()
	prop, key   string
	end         time.Time
	tried, kept int
}

func (m *minimiser) fails(p *Plan) bool {
	if time.Now().After(m.end) || memMB() > 6000 {
		return false
	}
	m.tried++
	ok := false
	func() {
		defer func() { recover() }()
		r := one(m.t, p, m.main, m.prop, false)
		for _, v := range r.Viol {
			ok = ok || v.Prop == m.prop && v.Key == m.key
		}
	}()
	if ok {
		m.kept++
	}
	return ok
}

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

// shrink removes chunks of a list while the violation persists.
func shrink[T any](m *minimiser, p *Plan, get func(*Plan) *[]T) *Plan {
	for size := len(*get(p)); size > 0; size /= 2 {
		for i := 0; i < len(*get(p)); {
			q := clonePlan(p)
			l := get(q)
			j := min(len(*l), i+size)
			*l = append(append([]T{}, (*l)[:i]...), (*l)[j:]...)
			if m.fails(q) {
				p = q
			} else {
				i = j
			}
		}
	}
	return p
}

func (m *minimiser) run(p *Plan) *Plan {
	p = shrink(m, p, func(p *Plan) *[]Event { return &p.Events })
	p = shrink(m, p, func(p *Plan) *[]NetFault { return &p.Net })
	p = shrink(m, p, func(p *Plan) *[]DiskFault { return &p.Disk })
	p = shrink(m, p, func(p *Plan) *[]Crash { return &p.Crashes })
	p = shrink(m, p, func(p *Plan) *[]ClockStep { return &p.Clock })
	p = shrink(m, p, func(p *Plan) *[]Client { return &p.Clients })
	// leaf CAs nobody refers to
	for i := len(p.CAs) - 1; i >= 0; i-- {
		used := false
		for _, c := range p.CAs {
			used = used || c.Parent == -(i+1)
		}
		if used || len(p.CAs) == 1 {
			continue
		}
		q := clonePlan(p)
		q.CAs = append(q.CAs[:i:i], q.CAs[i+1:]...)
		for j := range q.CAs {
			if q.CAs[j].Parent < -(i + 1) {
				q.CAs[j].Parent++
			}
		}
		if m.fails(q) {
			p = q
		}
	}
	try := func(f func(*Plan)) {
		q := clonePlan(p)
		f(q)
		if m.fails(q) {
			p = q
		}
	}
	try(func(p *Plan) { p.Sched.StallProb = 0 })
	try(func(p *Plan) { p.Sched.Window = 0 })
	try(func(p *Plan) { p.Sched.MeanGap = 1 << 20 })
	try(func(p *Plan) { p.Sign = false })
	try(func(p *Plan) { p.NoFail = false })
	try(func(p *Plan) { p.NoRRDP = false })
	try(func(p *Plan) { p.NoFilter = false })
	try(func(p *Plan) { p.NoStrict = false })
	try(func(p *Plan) { delete(p.Extra, "preseed") })
	try(func(p *Plan) {
		for i := range p.CAs {
			p.CAs[i].Modes = nil
		}
	})
	try(func(p *Plan) {
		for i := range p.CAs {
			p.CAs[i].ROAs = min(1, p.CAs[i].ROAs)
		}
	})
	if localKind(p.Kind) {
		try(func(p *Plan) { p.Extra["runs"] = 1 })
		for _, k := range []string{"map", "slash", "listed", "debug", "vt", "stdout", "vtform"} {
			if p.Extra[k] != 0 {
				try(func(p *Plan) { delete(p.Extra, k) })
			}
		}
	}
	for i := range p.Events {
		try(func(p *Plan) { p.Events[i].Lag = 0 })
	}
	return p
}

var _ = sort.Strings
var _ = verifsim.NewRand
