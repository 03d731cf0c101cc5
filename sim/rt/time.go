package rt

import (
	"time"
	"unsafe"
)

// Jump is a step of the wall clock; the monotonic clock does not notice.
type Jump struct{ At, By int64 }

// instant is the time now as time.Now tells it: the wall clock, which may have been set, and the monotonic
// clock reading.
func (s *Sim) instant() time.Time {
	wall := s.now
	for i, j := range s.cfg.Jumps {
		if j.At <= s.now {
			wall += j.By
			if i >= s.Jumped {
				s.Jumped = i + 1
			}
		}
	}
	return withMono(Epoch.Add(time.Duration(wall)), s.now+1)
}

// withMono gives t a monotonic clock reading (see the comment at type Time in package time).
func withMono(t time.Time, mono int64) time.Time {
	const since1885 = 2682288000 // 1885-01-01 to 1970-01-01 in seconds
	var r struct {
		wall uint64
		ext  int64
		loc  *time.Location
	}
	sec := t.Unix() + since1885
	if sec < 0 || sec >= 1<<33 {
		return t
	}
	r.wall = 1<<63 | uint64(sec)<<30 | uint64(t.Nanosecond())
	r.ext = mono
	return *(*time.Time)(unsafe.Pointer(&r))
}

// Now is time.Now.
func Now() time.Time {
	s := S
	if s == nil {
		return Epoch
	}
	if t := s.cur; t != nil && !t.killed {
		s.nowCalls++
		if s.nowCalls > 5000 { // a loop that waits for the clock to move
			s.nowCalls = 0
			s.after(int64(10*time.Microsecond), t.Lib, func() { s.ready(t) })
			s.block(t, "clock")
		}
	}
	return s.instant()
}

// Since and Until.
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	t := s.cur
	if t == nil || t.killed {
		return
	}
	if d <= 0 {
		s.point()
		return
	}
	s.after(int64(d), t.Lib, func() { s.ready(t) })
	s.block(t, "sleep")
}

// Timer is time.Timer (with the buffered channel of modules before Go 1.23, as in the code under test).
type Timer struct {
	C <-chan time.Time

	c  chan time.Time
	t  *timer
	f  func()
	vc VC
}

func (tm *Timer) arm(d time.Duration) {
	s := S
	if s == nil || s.cur != nil && s.cur.killed {
		return
	}
	if s.cur != nil {
		tm.vc = s.curVC()
	}
	tm.t = s.after(int64(d), true, tm.fire)
}

func (tm *Timer) fire() {
	s := S
	if tm.f != nil {
		t := s.newTask("timer func", true)
		t.vc = t.vc.join(tm.vc)
		s.startTask(t, tm.f)
		return
	}
	h := s.ch(chanPtr((<-chan time.Time)(tm.c)), cap(tm.c))
	s.trySend(h, s.instant())
}

// NewTimer, After, AfterFunc.
func NewTimer(d time.Duration) *Timer {
	tm := &Timer{c: make(chan time.Time, 1)}
	tm.C = tm.c
	tm.arm(d)
	return tm
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func AfterFunc(d time.Duration, f func()) *Timer {
	tm := &Timer{f: f}
	tm.arm(d)
	return tm
}

// Stop and Reset.
func (tm *Timer) Stop() bool {
	s := S
	if s == nil || tm.t == nil || s.cur != nil && s.cur.killed {
		return false
	}
	s.point()
	return s.stop(tm.t)
}
func (tm *Timer) Reset(d time.Duration) bool {
	s := S
	if s == nil || s.cur != nil && s.cur.killed {
		return false
	}
	s.point()
	was := tm.t != nil && s.stop(tm.t)
	tm.arm(d)
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time

	c chan time.Time
	d time.Duration
	t *timer
}

// NewTicker and Tick.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	tk := &Ticker{c: make(chan time.Time, 1), d: d}
	tk.C = tk.c
	tk.arm()
	return tk
}
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
func (tk *Ticker) arm() {
	s := S
	if s == nil || s.cur != nil && s.cur.killed {
		return
	}
	tk.t = s.after(int64(tk.d), true, tk.fire)
}
func (tk *Ticker) fire() {
	s := S
	s.trySend(s.ch(chanPtr((<-chan time.Time)(tk.c)), cap(tk.c)), s.instant())
	tk.t = s.after(int64(tk.d), true, tk.fire)
}
func (tk *Ticker) Stop() {
	if s := S; s != nil && tk.t != nil && !(s.cur != nil && s.cur.killed) {
		s.stop(tk.t)
	}
}
func (tk *Ticker) Reset(d time.Duration) {
	tk.Stop()
	tk.d = d
	tk.arm()
}
