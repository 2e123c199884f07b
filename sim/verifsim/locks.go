//go:build go1.22

package verifsim

import "sync"

// Simulated locks. Outside the simulation they fall back to real ones.

type Mutex struct {
	real    sync.Mutex
	locked  bool
	waiters []*Task
}

func (m *Mutex) Lock() {
	t := Enter()
	if t == nil {
		m.real.Lock()
		return
	}
	Y()
	for m.locked {
		m.waiters = append(m.waiters, t)
		t.sim.parkOn(t, m)
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	t := Enter()
	if t == nil {
		return m.real.TryLock()
	}
	Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	t := Enter()
	if t == nil {
		m.real.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	w := m.waiters
	m.waiters = nil
	for _, x := range w {
		if !x.Proc.Dead() {
			t.sim.unpark(x)
		}
	}
}

type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	wwait   int // writers waiting: block new readers, as sync.RWMutex does
	waiters []*Task
}

func (m *RWMutex) wakeAll(t *Task) {
	w := m.waiters
	m.waiters = nil
	for _, x := range w {
		if !x.Proc.Dead() {
			t.sim.unpark(x)
		}
	}
}

func (m *RWMutex) Lock() {
	t := Enter()
	if t == nil {
		m.real.Lock()
		return
	}
	Y()
	for m.writer || m.readers > 0 {
		m.wwait++
		m.waiters = append(m.waiters, t)
		t.sim.parkOn(t, m)
		m.wwait--
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	t := Enter()
	if t == nil {
		return m.real.TryLock()
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	t := Enter()
	if t == nil {
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wakeAll(t)
}

func (m *RWMutex) RLock() {
	t := Enter()
	if t == nil {
		m.real.RLock()
		return
	}
	Y()
	for m.writer || m.wwait > 0 {
		m.waiters = append(m.waiters, t)
		t.sim.parkOn(t, m)
		if !m.writer { // after a wait the reader is admitted even if writers queue
			break
		}
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	t := Enter()
	if t == nil {
		return m.real.TryRLock()
	}
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	t := Enter()
	if t == nil {
		m.real.RUnlock()
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wakeAll(t)
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()                 { r.m.RLock() }
func (r rlocker) Unlock()               { r.m.RUnlock() }
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if Cur() == nil {
		o.m.real.Lock()
		defer o.m.real.Unlock()
		if !o.done {
			defer func() { o.done = true }()
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct{ sync.WaitGroup }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	GoCall(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	Y()
	w.WaitGroup.Wait()
	Enter()
}
