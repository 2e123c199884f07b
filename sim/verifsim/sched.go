//go:build go1.22

// Package verifsim is a deterministic simulator: a cooperative scheduler on top
// of a testing/synctest bubble (virtual time), a simulated file system, process
// table and network, and the seams that instrumented code is rewritten to use.
//
// Exactly one task runs at any time: the holder of the token. Every other task
// is parked at a yield point, natively blocked inside the bubble (channel, timer,
// WaitGroup), or dead. A controller picks the next holder with the run's PRNG.
package verifsim

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"reflect"
	"runtime/debug"
	_ "runtime/pprof" // for the linkname below
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

//go:linkname setProfLabel runtime/pprof.runtime_setProfLabel
func setProfLabel(p unsafe.Pointer)

// Rand is a splitmix64 generator: tiny, fast and independent of Go's versions.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Chance(p float64) bool { return float64(r.U64()>>11)/float64(1<<53) < p }
func (r *Rand) Fork(tag uint64) *Rand { return NewRand(r.s ^ (tag+1)*0xD1342543DE82EF95) }

// Proc is a simulated operating-system process.
type Proc struct {
	ID       int
	Name     string
	dead     atomic.Bool
	Exited   bool
	ExitCode int
	Panic    string
	Stack    string
	Killed   bool
	Started  time.Time
	sim      *Sim
	Data     any // harness data (HTTP handler, ...)
}

func (p *Proc) Dead() bool { return p.dead.Load() }

type Task struct {
	ID     int
	Name   string
	Proc   *Proc
	sim    *Sim
	wake   chan struct{}
	waitOn any // non-nil: parked on a simulated lock
	done   bool

	slow, slowGap, slowNext int // stalls left for a task that is slow, and when
	fp                      uint64
}

func cur() *Task { return (*Task)(getProfLabel()) }

// Cur returns the current task or nil.
func Cur() *Task { return cur() }

type Sim struct {
	mu       sync.Mutex
	tasks    []*Task
	runnable []*Task
	wakeCh   chan struct{}
	stopped  bool
	stopCh   chan struct{}
	holder   atomic.Pointer[Task]
	nprocs   int

	Sched *Rand // scheduling decisions
	Order *Rand // map iteration order

	Yields      uint64
	nextPreempt uint64
	MeanGap     int // mean number of yields between voluntary preemptions; 0: never
	Switches    uint64
	Choices     uint64
	Hash        uint64
	EvHash      uint64
	Trace       io.Writer // debugging: every scheduling decision
	Preempts    uint64
	Stalls      uint64
	StallProb   float64 // probability that a preempted task stalls instead of just yielding
	MaxStall    time.Duration
	StallUntil  time.Time
	MapOrder    bool    // shuffle map iteration
	WindowProb  float64 // probability of a preemption right before a map access
	windows     []window
	sites       map[int]*site // of map accesses
	SlowTasks   uint64
	Shuffles    uint64 // map iterations in an order of the simulator's choice
	Accesses    uint64 // map accesses observed
	Windows     uint64 // map accesses that were held up for others to collide with
	MaxYields   uint64

	OnExit func(p *Proc)
	OnOp   func(t *Task, kind, detail string) // called under the token

	Disk      *FS
	HTTP      func(t *Task, req *http.Request, body []byte) *HTTPOutcome
	Exec      func(e *ExecReq) int
	ExecStart func(t *Task, e *ExecReq) error
	Late      func(t *Task, what []string) // the deadline of an operation had passed before it began
	ExecEnd   func(e *ExecReq, code int)
	Listen    func(t *Task, addr string, h http.Handler) error
	Console   io.Writer
	Clock     func(now time.Time) time.Time // wall clock of the simulated host

	opaque any
}

var current atomic.Pointer[Sim]

func NewSim(seed uint64) *Sim {
	r := NewRand(seed)
	s := &Sim{
		wakeCh: make(chan struct{}, 1),
		stopCh: make(chan struct{}),
		Sched:  r.Fork(1), Order: r.Fork(2),
		Hash: 14695981039346656037, EvHash: 14695981039346656037,
		MapOrder: true,
	}
	return s
}

func S() *Sim { return current.Load() }

func (s *Sim) mix(h *uint64, v uint64) {
	x := *h
	for i := 0; i < 8; i++ {
		x ^= v & 0xff
		x *= 1099511628211
		v >>= 8
	}
	*h = x
}

// Mix adds an event to the run's event hash.
func (s *Sim) Mix(str string) {
	x := s.EvHash
	for i := 0; i < len(str); i++ {
		x ^= uint64(str[i])
		x *= 1099511628211
	}
	s.EvHash = x
}

func (s *Sim) NewProc(name string) *Proc {
	s.nprocs++
	return &Proc{ID: s.nprocs, Name: name, sim: s, Started: time.Now()}
}

// Run is called in the bubble's root goroutine; it returns when Stop was called.
func (s *Sim) Run(director func()) {
	current.Store(s)
	s.setGap()
	s.spawn(s.NewProc("sim"), "director", director)
	for {
		synctest.Wait()
		s.mu.Lock()
		if s.stopped {
			s.mu.Unlock()
			s.holder.Store(nil)
			return
		}
		// drop tasks of dead processes
		k := 0
		for _, t := range s.runnable {
			if !t.Proc.dead.Load() {
				s.runnable[k] = t
				k++
			}
		}
		s.runnable = s.runnable[:k]
		if k == 0 {
			s.holder.Store(nil)
			s.mu.Unlock()
			select {
			case <-s.wakeCh:
			case <-s.stopCh:
			}
			continue
		}
		sort.Slice(s.runnable, func(i, j int) bool { return s.runnable[i].ID < s.runnable[j].ID })
		i := 0
		if k > 1 {
			i = s.Sched.Intn(k)
			s.Choices++
		}
		t := s.runnable[i]
		s.runnable = append(s.runnable[:i], s.runnable[i+1:]...)
		s.Switches++
		s.mix(&s.Hash, uint64(t.ID)<<32|s.Yields&0xffffffff)
		if s.Trace != nil {
			fmt.Fprintf(s.Trace, "%d y%d of %d: #%d %s\n", time.Now().UnixMilli(), s.Yields, k, t.ID, t.Name)
		}
		s.holder.Store(t)
		s.mu.Unlock()
		select { // drain a stale wake-up
		case <-s.wakeCh:
		default:
		}
		t.wake <- struct{}{}
	}
}

func (s *Sim) Stop() {
	s.mu.Lock()
	if !s.stopped {
		s.stopped = true
		close(s.stopCh)
	}
	s.mu.Unlock()
}

func (s *Sim) setGap() {
	if s.MeanGap <= 0 {
		s.nextPreempt = ^uint64(0)
		return
	}
	s.nextPreempt = s.Yields + 1 + uint64(s.Sched.Intn(2*s.MeanGap))
}

func block() { select {} }

func (s *Sim) spawn(p *Proc, name string, f func()) *Task {
	s.mu.Lock()
	t := &Task{ID: len(s.tasks) + 1, Name: name, Proc: p, sim: s, wake: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	s.mu.Unlock()
	if s.StallProb > 0 && p.Name != "sim" && s.Sched.Chance(0.15) {
		s.SlowTasks++
		t.slow = 1 + s.Sched.Intn(4)
		t.slowGap = []int{4, 20, 100, 1000}[s.Sched.Intn(4)]
		t.slowNext = 1 + s.Sched.Intn(2*t.slowGap)
	}
	go func() {
		setProfLabel(unsafe.Pointer(t))
		s.park(t)
		defer func() {
			if e := recover(); e != nil {
				s.crash(t, fmt.Sprint(e), string(debug.Stack()))
			}
			t.done = true
		}()
		f()
	}()
	return t
}

// ownFault tells whether the innermost frame of this project's code is the harness's.
func ownFault(stack string) bool {
	ls := strings.Split(stack, "\n")
	from := 0
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			from = i
		}
	}
	for _, l := range ls[from:] {
		if strings.HasPrefix(l, "github.com/cloudflare/cfrpki/") || strings.HasPrefix(l, "main.") {
			return strings.Contains(l, "/verifsim/harness.")
		}
	}
	return false
}

func (s *Sim) crash(t *Task, msg, stack string) {
	p := t.Proc
	if p.Name == "sim" || ownFault(stack) {
		// a bug of the harness must never look like a verdict
		fmt.Fprintf(os.Stderr, "HARNESS PANIC: %s\n%s\n", msg, stack)
		os.Exit(97)
	}
	if os.Getenv("VERIFSIM_PANIC") != "" {
		fmt.Fprintf(os.Stderr, "task %s panic: %s\n%s\n", t.Name, msg, stack)
	}
	if p.dead.Load() {
		return
	}
	p.Panic, p.Stack, p.ExitCode = msg, stack, 2
	p.Exited = true
	p.dead.Store(true)
	if s.OnExit != nil {
		s.OnExit(p)
	}
}

// park makes t runnable and waits for the token.
func (s *Sim) park(t *Task) {
	if t.Proc.dead.Load() {
		block()
	}
	s.mu.Lock()
	s.runnable = append(s.runnable, t)
	s.mu.Unlock()
	select {
	case s.wakeCh <- struct{}{}:
	default:
	}
	<-t.wake
	if t.Proc.dead.Load() {
		block()
	}
}

// parkOn parks without being runnable until Unpark.
func (s *Sim) parkOn(t *Task, on any) {
	t.waitOn = on
	<-t.wake
	if t.Proc.dead.Load() {
		block()
	}
}

func (s *Sim) unpark(t *Task) {
	t.waitOn = nil
	s.mu.Lock()
	s.runnable = append(s.runnable, t)
	s.mu.Unlock()
	select {
	case s.wakeCh <- struct{}{}:
	default:
	}
}

// Y is a yield point: inserted before every statement of instrumented code.
func Y() {
	t := cur()
	if t == nil {
		return
	}
	if t.Proc.dead.Load() {
		block()
	}
	s := t.sim
	if s.holder.Load() != t {
		s.park(t)
		return
	}
	s.Yields++
	if t.slow > 0 {
		t.slowNext--
		if t.slowNext <= 0 {
			t.slow--
			t.slowNext = 1 + s.Sched.Intn(2*t.slowGap)
			s.stall(t)
			return
		}
	}
	if s.Yields >= s.nextPreempt {
		s.preempt(t)
	} else if s.MaxYields != 0 && s.Yields > s.MaxYields {
		s.MaxYields = 0
		panic("verifsim: step limit exceeded (no progress in simulated time)")
	}
}

func (s *Sim) preempt(t *Task) {
	s.Preempts++
	s.setGap()
	if s.StallProb > 0 && s.Sched.Chance(s.StallProb) {
		s.stall(t)
		return
	}
	s.park(t)
}

// stall keeps a task off the processor for a while.
func (s *Sim) stall(t *Task) {
	if s.StallUntil.IsZero() || time.Now().Before(s.StallUntil) {
		s.Stalls++
		time.Sleep(time.Duration(1 + s.Sched.Intn(int(s.MaxStall))))
	}
	s.park(t)
}

// site is a place in the code where a map is used.
type site struct {
	n     int
	first *Task
	multi bool // by several tasks
}

// window is a task held up right before it uses a map.
type window struct {
	t *Task
	p unsafe.Pointer
	w bool
}

// access is called right before a map is used, with nothing in between that
// could order it after what another task does: two tasks that are there at
// once, one of them to write, race, and the Go runtime would end the process.
func access(p unsafe.Pointer, write bool, at int) {
	t := cur()
	if t == nil || p == nil {
		return
	}
	t = Enter()
	s := t.sim
	s.Accesses++
	for _, o := range s.windows {
		if o.p == p && o.t != t && o.t.Proc == t.Proc && (o.w || write) {
			what := "fatal error: concurrent map read and map write"
			if o.w && write {
				what = "fatal error: concurrent map writes"
			}
			s.crash(t, what, string(debug.Stack()))
			block()
		}
	}
	hold := s.WindowProb > 0 && s.Sched.Chance(s.WindowProb)
	stall := false
	if s.StallProb > 0 {
		// where several tasks come by, hold one up until the others arrive
		if s.sites == nil {
			s.sites = map[int]*site{}
		}
		x := s.sites[at]
		if x == nil {
			x = &site{first: t}
			s.sites[at] = x
		}
		x.n++
		x.multi = x.multi || x.first != t
		stall = x.multi && s.Sched.Chance(min(0.3, 4/float64(x.n)))
	}
	if !hold && !stall {
		return
	}
	s.Windows++
	s.windows = append(s.windows, window{t, p, write})
	if stall {
		s.stall(t)
	} else {
		s.preempt(t)
	}
	for i, o := range s.windows {
		if o.t == t {
			s.windows = append(s.windows[:i], s.windows[i+1:]...)
			break
		}
	}
}

// MR and MW announce that the caller is about to read or write a map.
func MR[M ~map[K]V, K comparable, V any](m M, at int) {
	access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, at)
}
func MW[M ~map[K]V, K comparable, V any](m M, at int) {
	access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, at)
}

// Id is put between the two halves of a statement that updates a variable.
func Id[T any](v T) T {
	Y()
	return v
}

// Enter makes sure the caller holds the token; it returns the task or nil when
// the caller is not simulated.
func Enter() *Task {
	t := cur()
	if t == nil {
		return nil
	}
	if t.Proc.dead.Load() {
		block()
	}
	s := t.sim
	if s.holder.Load() != t {
		s.park(t)
	}
	return t
}

// Op marks an externally visible operation: a scheduling point that is always
// counted and where faults are decided.
func Op(kind, detail string) *Task {
	t := Enter()
	if t == nil {
		return nil
	}
	s := t.sim
	s.Yields++
	if s.Yields >= s.nextPreempt {
		s.preempt(t)
	}
	s.Mix(kind)
	s.Mix(detail)
	if s.Trace != nil {
		fmt.Fprintf(s.Trace, "y%d op %s %s by #%d\n", s.Yields, kind, detail, t.ID)
	}
	if s.OnOp != nil {
		s.OnOp(t, kind, detail)
		if t.Proc.dead.Load() {
			block()
		}
	}
	return t
}

// Sleep sleeps in virtual time and re-acquires the token.
func Sleep(d time.Duration) {
	time.Sleep(d)
	Enter()
}

// GoCall starts a task of the current process running f(args...).
func GoCall(f any, args ...any) {
	goCall(f, args, false)
}

// GoCallSlice is GoCall for calls whose last argument is spread with "...".
func GoCallSlice(f any, args ...any) {
	goCall(f, args, true)
}

func goCall(f any, args []any, slice bool) {
	t := cur()
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && !slice && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if v.Type() != pt && v.Type().ConvertibleTo(pt) && pt.Kind() != reflect.Interface {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	run := func() {
		if slice {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	}
	if f0, ok := f.(func()); ok {
		run = f0
	}
	if t == nil {
		go run()
		return
	}
	Enter()
	t.sim.spawn(t.Proc, "go", run)
}

// Spawn starts a task in the given process.
func (s *Sim) Spawn(p *Proc, name string, f func()) *Task { return s.spawn(p, name, f) }

// Kill ends a process at once: no deferred function of it runs any more.
func (s *Sim) Kill(p *Proc) {
	if p.dead.Load() {
		return
	}
	p.Killed = true
	p.Exited = true
	p.ExitCode = 137
	p.dead.Store(true)
	if s.OnExit != nil {
		s.OnExit(p)
	}
	if t := cur(); t != nil && t.Proc == p {
		block()
	}
}

// Exit ends the current process.
func Exit(code int) {
	t := cur()
	if t == nil {
		panic(fmt.Sprintf("exit %d outside the simulation", code))
	}
	p := t.Proc
	if !p.dead.Load() {
		p.Exited = true
		p.ExitCode = code
		p.dead.Store(true)
		if t.sim.OnExit != nil {
			t.sim.OnExit(p)
		}
	}
	block()
}

// Blocked lists the tasks of p that wait for a simulated lock.
func (s *Sim) Blocked(p *Proc) []string {
	var out []string
	for _, t := range s.tasks {
		if t.Proc == p && t.waitOn != nil {
			out = append(out, fmt.Sprintf("%s#%d on %T", t.Name, t.ID, t.waitOn))
		}
	}
	return out
}

// --- package variable re-initialisation (process restart) ---

type resetFn struct {
	order int
	f     func()
}

var resets = map[string][]resetFn{}
var resetPkgs []string

func OnReset(pkg string, order int, f func()) {
	if _, ok := resets[pkg]; !ok {
		resetPkgs = append(resetPkgs, pkg)
	}
	resets[pkg] = append(resets[pkg], resetFn{order, f})
}

func ResetGlobals() {
	for _, p := range resetPkgs {
		l := resets[p]
		sort.SliceStable(l, func(i, j int) bool { return l[i].order < l[j].order })
		for _, r := range l {
			r.f()
		}
	}
}

func Zero[T any](p *T) {
	var z T
	*p = z
}

// --- map iteration in seeded order ---

type MapIter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
}

func keysOf[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		rv := reflect.ValueOf(keys[0])
		switch rv.Kind() {
		case reflect.String:
			sort.Slice(keys, func(i, j int) bool {
				return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String()
			})
		case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Interface:
		default:
			strs := make(map[K]string, len(keys))
			for _, k := range keys {
				strs[k] = fmt.Sprint(k)
			}
			sort.Slice(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
		}
	}
	if t := cur(); t != nil && t.sim.MapOrder {
		r := t.sim.Order
		t.sim.Shuffles++
		for i := len(keys) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

func Iter[M ~map[K]V, K comparable, V any](m M) *MapIter[M, K, V] {
	return &MapIter[M, K, V]{m: m, keys: keysOf(m)}
}
func IterK[M ~map[K]V, K comparable, V any](m M) (it *MapIter[M, K, V], k K) { return Iter(m), k }
func IterV[M ~map[K]V, K comparable, V any](m M) (it *MapIter[M, K, V], v V) { return Iter(m), v }
func IterKV[M ~map[K]V, K comparable, V any](m M) (it *MapIter[M, K, V], k K, v V) {
	return Iter(m), k, v
}

func (it *MapIter[M, K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		MR(it.m, -1)
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Random is what math/rand returns to the simulated program.
func Random() uint64 {
	if t := Enter(); t != nil {
		return t.sim.Order.U64()
	}
	return 0
}
