package rt

import (
	"runtime"
	"sync"
)

// lockQ holds waiters and happens-before state of one lock; it belongs to the address of the lock, so a
// copy of a lock copies its state but not its waiters, as with the real ones.
type lockQ struct {
	owner any
	gen   *Sim
	wait  []*Task
	rwait []*Task
	vc    VC
	rvc   VC
}

func fatalLock(msg string) {
	s := S
	s.finish("crash", "fatal error: "+msg, s.Dump())
	s.park(s.cur)
}

// lockTask is the task on whose behalf a lock operation runs; nil if locks do not matter here.
func lockTask() *Task {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		return nil
	}
	return s.cur
}

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	q    *lockQ
}

func (m *Mutex) queue() *lockQ {
	if m.q == nil || m.q.owner != any(m) || m.q.gen != S {
		if m.q != nil && m.q.gen != S {
			m.held = false
		}
		m.q = &lockQ{owner: m, gen: S}
	}
	return m.q
}

// Lock blocks until the mutex is free. The first waiter may be overtaken once, as in Go.
func (m *Mutex) Lock() {
	t := lockTask()
	if t == nil {
		return
	}
	s := S
	s.point()
	q := m.queue()
	if m.held {
		q.wait = append(q.wait, t)
		s.block(t, "mutex")
		gone(t)
		if m.held && t.wake == nil { // overtaken: now it is handed over
			t.wake = m
			q.wait = append([]*Task{t}, q.wait...)
			s.block(t, "mutex")
			gone(t)
		} else {
			m.held = true
		}
		t.wake = nil
		s.acquire(q.vc)
		return
	}
	m.held = true
	s.acquire(q.vc)
}

// TryLock does not block.
func (m *Mutex) TryLock() bool {
	t := lockTask()
	if t == nil {
		return false
	}
	S.point()
	q := m.queue()
	if m.held {
		return false
	}
	m.held = true
	S.acquire(q.vc)
	return true
}

// Unlock wakes the first waiter.
func (m *Mutex) Unlock() {
	t := lockTask()
	if t == nil {
		return
	}
	s := S
	s.point()
	q := m.queue()
	if !m.held {
		fatalLock("sync: unlock of unlocked mutex")
	}
	s.release(&q.vc)
	for len(q.wait) > 0 {
		w := q.wait[0]
		q.wait = q.wait[1:]
		if w.state != stBlocked || w.killed {
			continue
		}
		if w.wake == any(m) { // hand over
			s.ready(w)
			return
		}
		m.held = false
		s.ready(w)
		return
	}
	m.held = false
}

// RWMutex is sync.RWMutex, including the preference for waiting writers.
type RWMutex struct {
	w           Mutex
	readerCount int
	readerWait  int
	q           *lockQ
}

const rwMax = 1 << 30

func (m *RWMutex) queue() *lockQ {
	if m.q == nil || m.q.owner != any(m) || m.q.gen != S {
		if m.q != nil && m.q.gen != S {
			m.readerCount, m.readerWait = 0, 0
			m.w = Mutex{}
		}
		m.q = &lockQ{owner: m, gen: S}
	}
	return m.q
}

func (m *RWMutex) RLock() {
	t := lockTask()
	if t == nil {
		return
	}
	s := S
	s.point()
	q := m.queue()
	m.readerCount++
	if m.readerCount <= 0 {
		q.rwait = append(q.rwait, t)
		s.block(t, "rwmutex (read)")
		gone(t)
	}
	s.acquire(q.vc)
}

func (m *RWMutex) TryRLock() bool {
	t := lockTask()
	if t == nil {
		return false
	}
	S.point()
	q := m.queue()
	if m.readerCount < 0 {
		return false
	}
	m.readerCount++
	S.acquire(q.vc)
	return true
}

func (m *RWMutex) RUnlock() {
	t := lockTask()
	if t == nil {
		return
	}
	s := S
	s.point()
	q := m.queue()
	s.release(&q.rvc)
	m.readerCount--
	if m.readerCount < 0 {
		if m.readerCount+1 == 0 || m.readerCount+1 == -rwMax {
			fatalLock("sync: RUnlock of unlocked RWMutex")
		}
		m.readerWait--
		if m.readerWait == 0 {
			for len(q.wait) > 0 {
				w := q.wait[0]
				q.wait = q.wait[1:]
				if w.state == stBlocked && !w.killed {
					s.ready(w)
					break
				}
			}
		}
	}
}

func (m *RWMutex) Lock() {
	t := lockTask()
	if t == nil {
		return
	}
	s := S
	m.queue()
	m.w.Lock()
	q := m.queue()
	r := m.readerCount
	m.readerCount -= rwMax
	if r != 0 {
		m.readerWait += r
		if m.readerWait != 0 {
			q.wait = append(q.wait, t)
			s.block(t, "rwmutex (write)")
			gone(t)
		}
	}
	s.acquire(q.vc)
	s.acquire(q.rvc)
}

func (m *RWMutex) TryLock() bool {
	t := lockTask()
	if t == nil {
		return false
	}
	m.queue()
	if !m.w.TryLock() {
		return false
	}
	q := m.queue()
	if m.readerCount != 0 {
		m.w.Unlock()
		return false
	}
	m.readerCount = -rwMax
	S.acquire(q.vc)
	S.acquire(q.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	t := lockTask()
	if t == nil {
		return
	}
	s := S
	s.point()
	q := m.queue()
	m.readerCount += rwMax
	if m.readerCount >= rwMax {
		fatalLock("sync: Unlock of unlocked RWMutex")
	}
	s.release(&q.vc)
	for i := 0; i < m.readerCount && len(q.rwait) > 0; {
		w := q.rwait[0]
		q.rwait = q.rwait[1:]
		if w.state == stBlocked && !w.killed {
			s.ready(w)
			i++
		}
	}
	m.w.Unlock()
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n  int
	nt Notifier
	vc VC
}

func (w *WaitGroup) Add(d int) {
	if lockTask() == nil {
		return
	}
	S.point()
	if d < 0 {
		S.release(&w.vc)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.nt.Wake()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if lockTask() == nil {
		return
	}
	S.point()
	for w.n > 0 {
		w.nt.Wait("waitgroup")
	}
	S.acquire(w.vc)
}

// Go is WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(0, func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
	vc   VC
}

func (o *Once) Do(f func()) {
	s := S
	if s == nil || s.cur == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if s.cur.killed {
		return
	}
	s.point()
	if o.done {
		s.acquire(o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; s.release(&o.vc) }()
		f()
	}
}

// OnceFunc, OnceValue.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q []*condW
	v VC
}
type condW struct {
	n    Notifier
	woke bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if lockTask() == nil {
		runtime.Goexit()
	}
	w := &condW{}
	c.q = append(c.q, w)
	c.L.Unlock()
	if !w.woke {
		w.n.Wait("cond")
	}
	S.acquire(c.v)
	c.L.Lock()
}
func (c *Cond) Signal() {
	if lockTask() == nil {
		return
	}
	S.point()
	S.release(&c.v)
	if len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		w.woke = true
		w.n.Wake()
	}
}
func (c *Cond) Broadcast() {
	if lockTask() == nil {
		return
	}
	S.point()
	S.release(&c.v)
	q := c.q
	c.q = nil
	for _, w := range q {
		w.woke = true
		w.n.Wake()
	}
}

// Map is sync.Map, in insertion order.
type Map struct {
	m    map[any]any
	keys []any
	vc   VC
}

func (m *Map) pt() {
	if lockTask() != nil {
		S.point()
		S.acquire(m.vc)
		S.release(&m.vc)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Load(k any) (any, bool) { m.pt(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.pt(); m.set(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.pt(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.pt()
	if c, ok := m.m[k]; ok && c == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.pt()
	if c, ok := m.m[k]; ok && c == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.pt(); m.m = map[any]any{}; m.keys = nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		m.pt()
	}
}

// Pool is sync.Pool.
type Pool struct {
	New func() any
	p   []any
}

func (p *Pool) Get() any {
	if n := len(p.p); n > 0 {
		v := p.p[n-1]
		p.p = p.p[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) { p.p = append(p.p, v) }

// Gosched is runtime.Gosched: somebody else runs, or a moment passes.
func Gosched() {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		return
	}
	t := s.cur
	if len(s.runnable) == 0 {
		s.after(1000, t.Lib, func() { s.ready(t) })
		s.block(t, "gosched")
		return
	}
	t.state = stRunnable
	next := s.takeRunnable(0)
	s.runnable = append(s.runnable, t)
	s.switchTo(next)
	s.park(t)
}

// NumGoroutine is runtime.NumGoroutine.
func NumGoroutine() int {
	if S == nil {
		return runtime.NumGoroutine()
	}
	n := 0
	for _, t := range S.tasks {
		if t.state != stDone {
			n++
		}
	}
	return n
}
