// Package sync provides simulated locks. Only one task runs at a time, so their state needs no protection.
package sync

import "verif/sim/simrt"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      simrt.WaitQ
}

func (m *Mutex) Lock() {
	if simrt.Dying() {
		return
	}
	simrt.Point()
	for m.locked {
		m.q.Wait("mutex", -1)
		if simrt.Dying() {
			return
		}
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	if simrt.Dying() {
		return true
	}
	simrt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if simrt.Dying() {
		// an unwinding task releases what it holds
		m.locked = false
		m.q.WakeOne()
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.WakeOne()
	simrt.Point()
}

func fatal(msg string) { panic("fatal error: " + msg) }

type RWMutex struct {
	w        bool
	readers  int
	wwaiting int
	q        simrt.WaitQ
}

func (m *RWMutex) Lock() {
	if simrt.Dying() {
		return
	}
	simrt.Point()
	m.wwaiting++
	for m.w || m.readers > 0 {
		m.q.Wait("rwmutex", -1)
		if simrt.Dying() {
			return
		}
	}
	m.wwaiting--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	simrt.Point()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if simrt.Dying() {
		m.w = false
		m.q.WakeAll()
		return
	}
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.WakeAll()
	simrt.Point()
}
func (m *RWMutex) RLock() {
	if simrt.Dying() {
		return
	}
	simrt.Point()
	for m.w || m.wwaiting > 0 {
		m.q.Wait("rwmutex read", -1)
		if simrt.Dying() {
			return
		}
	}
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	simrt.Point()
	if m.w || m.wwaiting > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	if simrt.Dying() {
		if m.readers > 0 {
			m.readers--
		}
		m.q.WakeAll()
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.q.WakeAll()
	simrt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n int
	q simrt.WaitQ
}

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		if simrt.Dying() {
			w.n = 0
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
	simrt.Point()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Point()
	for w.n > 0 && !simrt.Dying() {
		w.q.Wait("waitgroup", -1)
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.GoCall(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

type Cond struct {
	L Locker
	q simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.L.Unlock()
	c.q.Wait("cond", -1)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.q.WakeOne(); simrt.Point() }
func (c *Cond) Broadcast() { c.q.WakeAll(); simrt.Point() }

// Pool hands back pooled values in an order the schedule chooses, or none.
type Pool struct {
	New  func() any
	list []any
}

func (p *Pool) Get() any {
	simrt.Point()
	if s := simrt.Active(); s != nil && len(p.list) > 0 {
		if i := s.Src.S.N(len(p.list) + 1); i < len(p.list) {
			i = len(p.list) - 1 - i
			v := p.list[i]
			p.list = append(p.list[:i:i], p.list[i+1:]...)
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	simrt.Point()
	if v != nil {
		p.list = append(p.list, v)
	}
}

type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) { simrt.Point(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	simrt.Point()
	m.put(k, v)
}
func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Point()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Point()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { simrt.Point(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Point()
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.Point()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.Point()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		simrt.Point()
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.m, m.keys = nil, nil }

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}
