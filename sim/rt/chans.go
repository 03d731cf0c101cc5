package rt

import (
	"runtime"
	"unsafe"
)

// Channels of the program stay real Go channels but serve as identities only: buffers and waiters live
// in these shadows.
type hchan struct {
	keep   unsafe.Pointer
	cap    int
	buf    []citem
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	closeV VC
	slotV  []VC // knowledge of the receiver that freed each slot
	nsend  int
	nrecv  int
}
type citem struct {
	v  any
	vc VC
}
type waiter struct {
	task *Task
	sel  *selState // nil for plain operations
	idx  int
	v    any
	vc   VC
	ok   bool
	done bool
	from *hchan
}
type selState struct {
	fired bool
	idx   int
	w     *waiter
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (plainError) RuntimeError()   {}

func chanPtr[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func (s *Sim) ch(p unsafe.Pointer, capacity int) *hchan {
	k := uintptr(p)
	c := s.chans[k]
	if c == nil {
		c = &hchan{keep: p, cap: capacity}
		s.chans[k] = c
	}
	return c
}

func (w *waiter) live() bool {
	return !w.done && (w.sel == nil || !w.sel.fired) && w.task.state == stBlocked && !w.task.killed
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}
func peekWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		if (*q)[0].live() {
			return (*q)[0]
		}
		*q = (*q)[1:]
	}
	return nil
}

func (s *Sim) complete(w *waiter) {
	w.done = true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.w = w
	}
	s.ready(w.task)
}

func (s *Sim) curVC() VC {
	if s.cur == nil {
		return nil
	}
	v := s.cur.vc.copy()
	s.cur.vc = s.cur.vc.tick(s.cur.ID)
	return v
}

// ChanLen returns how many items are buffered in the channel.
func ChanLen(p unsafe.Pointer) int {
	if c := S.chans[uintptr(p)]; c != nil {
		return len(c.buf)
	}
	return 0
}

// trySend attempts a send without blocking.
func (s *Sim) trySend(c *hchan, v any) bool {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.v, w.ok = v, true
		w.vc = s.curVC()
		if s.cur != nil && c.cap == 0 {
			s.cur.vc = s.cur.vc.join(w.task.vc)
		}
		s.complete(w)
		return true
	}
	if len(c.buf) < c.cap {
		if s.cur != nil && c.nsend-c.cap >= 0 && c.nsend-c.cap < len(c.slotV) {
			s.acquire(c.slotV[c.nsend-c.cap])
			c.slotV[c.nsend-c.cap] = nil
		}
		c.nsend++
		c.buf = append(c.buf, citem{v, s.curVC()})
		return true
	}
	return false
}

// tryRecv attempts a receive without blocking.
func (s *Sim) tryRecv(c *hchan) (v any, ok, did bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		s.acquire(it.vc)
		c.slotV = append(c.slotV, s.curVC())
		if w := popWaiter(&c.sendq); w != nil {
			c.nsend++
			c.buf = append(c.buf, citem{w.v, w.vc})
			s.complete(w)
		}
		return it.v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		s.acquire(w.vc)
		w.vc = s.curVC()
		w.ok = true
		s.complete(w)
		return w.v, true, true
	}
	if c.closed {
		s.acquire(c.closeV)
		return nil, false, true
	}
	return nil, false, false
}

func gone(t *Task) {
	if t.killed {
		runtime.Goexit()
	}
}

// SendTo returns the send function of a channel (two steps, so that the value converts to T).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := S
		if s == nil {
			ch <- v
			return
		}
		t := s.cur
		if t == nil {
			panic("HarnessBug: channel send in event context")
		}
		if t.killed {
			return
		}
		s.point()
		if ch == nil {
			s.block(t, "send on nil channel")
			gone(t)
			return
		}
		c := s.ch(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
		if s.trySend(c, v) {
			return
		}
		w := &waiter{task: t, v: v, vc: s.curVC()}
		c.sendq = append(c.sendq, w)
		s.block(t, "chan send")
		if !w.ok && c.closed && !w.done {
			panic(plainError("send on closed channel"))
		}
		if w.done && c.cap == 0 {
			s.acquire(w.vc)
		}
	}
}

func recv[T any](ch <-chan T) (v T, ok bool) {
	s := S
	if s == nil {
		v, ok = <-ch
		return
	}
	t := s.cur
	if t == nil {
		panic("HarnessBug: channel receive in event context")
	}
	if t.killed {
		return
	}
	s.point()
	if ch == nil {
		s.block(t, "receive from nil channel")
		gone(t)
		return
	}
	c := s.ch(chanPtr(ch), cap(ch))
	if x, o, did := s.tryRecv(c); did {
		v, _ = x.(T)
		return v, o
	}
	w := &waiter{task: t}
	c.recvq = append(c.recvq, w)
	s.block(t, "chan receive")
	s.acquire(w.vc)
	if !w.done { // closed
		s.acquire(c.closeV)
		return v, false
	}
	v, _ = w.v.(T)
	return v, w.ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := recv(ch); return v }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) { return recv(ch) }

// ChanIter serves range over a channel.
type ChanIter[T any] struct {
	ch <-chan T
	V  T
	ok bool
}

func RangeChan[T any](ch <-chan T) *ChanIter[T] { return &ChanIter[T]{ch: ch} }
func RangeChan2[T any](ch <-chan T) (*ChanIter[T], T) {
	it := RangeChan(ch)
	it.Step()
	return it, it.V
}

// Step receives the next value; at the end V stays as it was.
func (it *ChanIter[T]) Step() bool {
	v, ok := recv(it.ch)
	it.ok = ok
	if ok {
		it.V = v
	}
	return ok
}
func (it *ChanIter[T]) Valid() bool { return it.ok }
func (it *ChanIter[T]) Next() T     { it.Step(); return it.V }

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	if s.cur != nil && s.cur.killed {
		return
	}
	s.point()
	if ch == nil {
		panic(plainError("close of nil channel"))
	}
	c := s.ch(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	s.closeChan(c)
}

func (s *Sim) closeChan(c *hchan) {
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	s.release(&c.closeV)
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.done = false
		if w.sel != nil {
			w.sel.fired = true
			w.sel.idx = w.idx
			w.sel.w = w
			w.from = c
		}
		s.ready(w.task)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		if w.sel != nil {
			w.sel.fired = true
			w.sel.idx = w.idx
			w.sel.w = w
			w.from = c
		}
		s.ready(w.task)
	}
}

// Len and Cap.
func Len[T any](ch <-chan T) int {
	s := S
	if s == nil {
		return len(ch)
	}
	if ch == nil {
		return 0
	}
	return len(s.ch(chanPtr(ch), cap(ch)).buf)
}

// SelCase is one case of a select.
type SelCase interface {
	prep(s *Sim) (*hchan, bool)
	value() any
	set(v any, ok bool)
}

// RecvCase is a receive case; V and OK hold the result.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func SelRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func (r *RecvCase[T]) prep(s *Sim) (*hchan, bool) {
	if r.ch == nil {
		return nil, false
	}
	return s.ch(chanPtr(r.ch), cap(r.ch)), false
}
func (r *RecvCase[T]) value() any { return nil }
func (r *RecvCase[T]) set(v any, ok bool) {
	r.V, _ = v.(T)
	r.OK = ok
}

// SendCase is a send case.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func SelSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}
func (r *SendCase[T]) prep(s *Sim) (*hchan, bool) {
	if r.ch == nil {
		return nil, true
	}
	return s.ch(*(*unsafe.Pointer)(unsafe.Pointer(&r.ch)), cap(r.ch)), true
}
func (r *SendCase[T]) value() any         { return r.v }
func (r *SendCase[T]) set(v any, ok bool) {}

// Select returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	s := S
	if s == nil {
		panic("rt: select outside of a simulation")
	}
	t := s.cur
	if t == nil {
		panic("HarnessBug: select in event context")
	}
	if t.killed {
		if hasDefault {
			return -1
		}
		return 0
	}
	s.point()
	var ready []int
	hs := make([]*hchan, len(cases))
	snd := make([]bool, len(cases))
	for i, c := range cases {
		hs[i], snd[i] = c.prep(s)
		h := hs[i]
		if h == nil {
			continue
		}
		if snd[i] {
			if h.closed || peekWaiter(&h.recvq) != nil || len(h.buf) < h.cap {
				ready = append(ready, i)
			}
		} else if len(h.buf) > 0 || peekWaiter(&h.sendq) != nil || h.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = s.choose(len(ready), true)
		}
		i := ready[k]
		if snd[i] {
			s.trySend(hs[i], cases[i].value())
		} else {
			v, ok, _ := s.tryRecv(hs[i])
			cases[i].set(v, ok)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	for i := range cases {
		h := hs[i]
		if h == nil {
			continue
		}
		w := &waiter{task: t, sel: sel, idx: i}
		if snd[i] {
			w.v = cases[i].value()
			w.vc = t.vc.copy()
			h.sendq = append(h.sendq, w)
		} else {
			h.recvq = append(h.recvq, w)
		}
	}
	t.vc = t.vc.tick(t.ID)
	s.block(t, "select")
	gone(t)
	w := sel.w
	if w == nil {
		panic("HarnessBug: select woke without a case")
	}
	i := sel.idx
	if w.from != nil { // closed
		if snd[i] {
			panic(plainError("send on closed channel"))
		}
		s.acquire(w.from.closeV)
		cases[i].set(nil, false)
		return i
	}
	if snd[i] {
		if hs[i].cap == 0 {
			s.acquire(w.vc)
		}
	} else {
		s.acquire(w.vc)
		cases[i].set(w.v, w.ok)
	}
	return i
}

// BlockForever is select{}.
func BlockForever() {
	s := S
	s.block(s.cur, "select{}")
	gone(s.cur)
}
