//go:build go1.22

package vsync

import "github.com/cloudflare/cfrpki/verifsim"

type Mutex = verifsim.Mutex
type RWMutex = verifsim.RWMutex
type Once = verifsim.Once
type WaitGroup = verifsim.WaitGroup

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Map keeps its keys in the order of insertion, so that what Range visits
// depends on the seed alone.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) find(k any) (any, bool) {
	verifsim.Y()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(key any) (any, bool) { return m.find(key) }
func (m *Map) Store(key, value any)     { m.Swap(key, value) }
func (m *Map) Clear()                   { verifsim.Y(); m.m, m.keys = nil, nil }
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	if v, ok := m.find(key); ok {
		return v, true
	}
	m.set(key, value)
	return value, false
}
func (m *Map) LoadAndDelete(key any) (any, bool) {
	v, ok := m.find(key)
	m.del(key)
	return v, ok
}
func (m *Map) Delete(key any) { m.LoadAndDelete(key) }
func (m *Map) Swap(key, value any) (any, bool) {
	v, ok := m.find(key)
	m.set(key, value)
	return v, ok
}
func (m *Map) CompareAndSwap(key, old, new any) bool {
	if v, ok := m.find(key); !ok || v != old {
		return false
	}
	m.set(key, new)
	return true
}
func (m *Map) CompareAndDelete(key, old any) bool {
	if v, ok := m.find(key); !ok || v != old {
		return false
	}
	m.del(key)
	return true
}
func (m *Map) Range(f func(key, value any) bool) {
	verifsim.Y()
	keys := append([]any(nil), m.keys...)
	for i := len(keys) - 1; i > 0; i-- {
		j := int(verifsim.Random() % uint64(i+1))
		keys[i], keys[j] = keys[j], keys[i]
	}
	for _, k := range keys {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Pool hands out what was returned last: what is still in use shows at once.
type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	verifsim.Y()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	verifsim.Y()
	if v != nil {
		p.l = append(p.l, v)
	}
}
