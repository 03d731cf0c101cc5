package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"syscall"
	"time"

	gozwave "github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"gozwavesim/rt"
)

const configFile = "/data/config.json"

// World is the simulated surroundings of the library in one run.
type World struct {
	s    *rt.Sim
	plan *Plan
	prop string
	up   *World // the one that judges, when there are several

	opener *Opener
	stick  *Stick
	ctl    *gozwave.Controller

	events  []EvRec
	deaf    bool // what the workload's own property says is not asked here
	violKey string
	violMsg string
	faults  map[string]int
	probes  map[string]int // interesting states reached
	lastGap int64
}

// EvRec is one event the library announced.
type EvRec struct {
	At   time.Duration
	Seq  uint64
	Ev   interface{}
	Node int
}

func newWorld(p *Plan) *World {
	w := &World{plan: p, prop: p.Prop, faults: map[string]int{}, probes: map[string]int{}}
	w.stick = &Stick{w: w}
	w.opener = &Opener{w: w}
	return w
}

func (w *World) now() time.Duration { return w.s.Now() }

// fault counts an injected fault.
func (w *World) fault(kind string) { w.faults[kind]++ }
func (w *World) reach(what string) { w.probes[what]++ }

// fail records the violation and ends the run.
func (w *World) fail(key, format string, a ...interface{}) {
	if w.up != nil {
		w.up.fail(key, format, a...)
	}
	if w.violKey == "" && !w.deaf {
		w.violKey = key
		w.violMsg = fmt.Sprintf(format, a...)
		w.s.Logf("VIOLATION %s: %s", key, w.violMsg)
	}
	w.s.Abort("violation", w.violMsg)
}

func (w *World) sleep(d time.Duration) { rt.Sleep(d) }
func (w *World) sleepUntil(at time.Duration) {
	if d := at - w.now(); d > 0 {
		rt.Sleep(d)
	}
}

// Call runs library code in a task of its own and waits for it.
type Call struct {
	done bool
	n    rt.Notifier
	hb   rt.Order
	At   time.Duration
}

func (w *World) spawn(name string, f func()) *Call {
	c := &Call{}
	rt.Spawn(name, func() {
		f()
		c.done = true
		c.hb.Publish()
		c.At = w.now()
		c.n.Wake()
	})
	return c
}
func (w *World) spawnLib(name string, f func()) *Call {
	c := &Call{}
	rt.SpawnLib(name, func() {
		f()
		c.done = true
		c.hb.Publish()
		c.At = w.now()
		c.n.Wake()
	})
	return c
}

func (c *Call) wait(d time.Duration) bool {
	deadline := rt.S.Now() + d
	for !c.done {
		left := deadline - rt.S.Now()
		if left <= 0 {
			return false
		}
		c.n.WaitFor("call", left)
	}
	c.hb.Observe()
	return true
}

// must runs library code and fails the run if it does not return in time.
func (w *World) must(key, what string, limit time.Duration, f func()) {
	c := w.spawnLib(what, f)
	if !c.wait(limit) {
		w.fail(key, "%s did not return within %v\n%s", what, limit, w.s.Dump())
	}
}

// Opener is the PortOpener given to the library.
type Opener struct {
	w     *World
	Ports []*Port
	Calls int
	// Plan of outcomes: nil error means success. Beyond the list: success.
	Fail     func(call int) error
	Delay    func(call int) time.Duration
	OpenCb   func(p *Port)
	lastCall time.Duration
	Down     bool // the device is unplugged: opening fails
	Mute     bool // no checks on double opening
	opening  int
}

var errNoPort = errors.New("open /dev/ttySIM: no such file or directory")
var errGone = errors.New("read /dev/ttySIM: input/output error")

var noPortErrors = []error{errNoPort, &os.PathError{Op: "open", Path: "/dev/ttySIM", Err: syscall.ENOENT}, &os.PathError{Op: "open", Path: "/dev/ttySIM", Err: syscall.EBUSY},
	&os.PathError{Op: "open", Path: "/dev/ttySIM", Err: syscall.EACCES}, os.ErrNotExist, os.ErrPermission, io.EOF}

// goneErrors are what a port may say that is gone.
var goneErrors = []error{errGone, io.EOF, &os.PathError{Op: "read", Path: "/dev/ttySIM", Err: syscall.EIO}, os.ErrClosed, io.ErrUnexpectedEOF,
	&os.PathError{Op: "read", Path: "/dev/ttySIM", Err: syscall.ENXIO}}

func (o *Opener) Open() (io.ReadWriteCloser, error) {
	o.Calls++
	n := o.Calls
	o.lastCall = o.w.now()
	if o.Delay != nil {
		if d := o.Delay(n); d > 0 {
			rt.Sleep(d)
		}
	}
	if o.w.s.Cur() == nil || o.w.s.Cur().Killed() {
		return nil, errNoPort
	}
	if o.Fail != nil {
		if err := o.Fail(n); err != nil {
			o.w.s.Logf("open %d fails: %v", n, err)
			return nil, err
		}
	}
	if o.Down {
		o.w.s.Logf("open %d fails: unplugged", n)
		return nil, noPortErrors[n%len(noPortErrors)]
	}
	p := &Port{w: o.w, idx: len(o.Ports), opened: o.w.now()}
	if !o.Mute {
		for _, q := range o.Ports {
			if !q.closed && q.gen == o.w.s.Gen() {
				o.w.fail("two-open-ports", "port opened again at %v while the port opened at %v is still open", o.w.now(), q.opened)
			}
		}
	}
	p.gen = o.w.s.Gen()
	o.Ports = append(o.Ports, p)
	o.w.s.Logf("open %d ok: port %d", n, p.idx)
	o.w.stick.reset(p)
	if o.OpenCb != nil {
		o.OpenCb(p)
	}
	return p, nil
}

// cur is the port in use, nil if none is open.
func (o *Opener) cur() *Port {
	if len(o.Ports) == 0 {
		return nil
	}
	p := o.Ports[len(o.Ports)-1]
	if p.closed || p.failed != nil {
		return nil
	}
	return p
}

// Port is one opening of the simulated serial port.
type Port struct {
	w      *World
	idx    int
	gen    int
	opened time.Duration
	rx     [][]byte
	n      rt.Notifier
	failed error
	rdfail bool // reads fail as well
	closed bool
	closeN int
	reads  int
	acks   []time.Duration // acknowledgements written by the library
	writes int
	failAt time.Duration
	fed    int           // bytes delivered by the line
	taken  int           // bytes read by the library
	busy   time.Duration // the line is busy until then
	queued int
	idles  int // reads that returned nothing
	good   int // whole, undamaged data frames that have arrived, at least
	acked  int // acknowledgements the library has written

	writeErr error // what the write under way returns
}

func (p *Port) Read(b []byte) (int, error) {
	p.reads++
	for {
		if p.w.s.Cur() == nil || p.w.s.Cur().Killed() {
			return 0, errGone
		}
		if p.closed {
			return 0, errors.New("read /dev/ttySIM: file already closed")
		}
		if len(p.rx) > 0 {
			n := copy(b, p.rx[0])
			if n == len(p.rx[0]) {
				p.rx = p.rx[1:]
				if p.w.plan.k("coalesce") == 1 {
					for len(p.rx) > 0 && n < len(b) {
						m := copy(b[n:], p.rx[0])
						n += m
						if m == len(p.rx[0]) {
							p.rx = p.rx[1:]
						} else {
							p.rx[0] = p.rx[0][m:]
						}
					}
				}
			} else {
				p.rx[0] = p.rx[0][n:]
			}
			p.taken += n
			return n, nil
		}
		if p.failed != nil && p.rdfail {
			return 0, p.failed
		}
		if ms := p.w.plan.k("idleMs"); ms > 0 && p.idles < 1000 {
			if !p.n.WaitFor("serial read", time.Duration(ms)*time.Millisecond) && len(p.rx) == 0 {
				p.idles++
				p.w.fault("empty-read")
				return 0, nil
			}
			continue
		}
		p.n.Wait("serial read")
	}
}

func (p *Port) Write(b []byte) (int, error) {
	if p.w.s.Cur() != nil && p.w.s.Cur().Killed() {
		return 0, errGone
	}
	p.writes++
	if p.closed {
		p.w.s.Logf("write %x to closed port %d", b, p.idx)
		p.w.stick.attempts = append(p.w.stick.attempts, attempt{p.w.now(), append([]byte(nil), b...)})
		return 0, errors.New("write /dev/ttySIM: file already closed")
	}
	if p.failed != nil {
		p.w.s.Logf("write %x to failed port %d", b, p.idx)
		p.w.stick.attempts = append(p.w.stick.attempts, attempt{p.w.now(), append([]byte(nil), b...)})
		return 0, p.failed
	}
	p.w.s.Logf("host -> %x", b)
	d := p.w.stick.fromHost(p, append([]byte(nil), b...))
	if d > 0 {
		rt.Sleep(d)
	}
	if p.failed != nil {
		return 0, p.failed
	}
	if err := p.writeErr; err != nil { // this one only
		p.writeErr = nil
		return 0, err
	}
	return len(b), nil
}

func (p *Port) Close() error {
	if p.w.s.Cur() != nil && p.w.s.Cur().Killed() {
		return nil
	}
	p.w.s.Logf("port %d closed", p.idx)
	p.closeN++
	p.closed = true
	p.n.Wake()
	if p.closeN > 1 {
		return errors.New("close /dev/ttySIM: file already closed")
	}
	return nil
}

// feed puts bytes on the line; they arrive at once unless the line is busy with an earlier piece.
func (p *Port) feed(b []byte) {
	if p == nil { // the library has given the port up
		return
	}
	if wait := p.busy - p.w.now(); wait > 0 || p.queued > 0 {
		b = append([]byte(nil), b...)
		p.queued++
		p.w.s.After(wait, func() { p.queued--; p.arrive(b) })
		return
	}
	p.arrive(b)
}

// arrive makes bytes available to the library now.
func (p *Port) arrive(b []byte) {
	if p.closed || p.failed != nil || len(b) == 0 {
		return
	}
	p.rx = append(p.rx, append([]byte(nil), b...))
	p.fed += len(b)
	p.w.s.Logf("stick -> %x", b)
	p.n.Wake()
}

// send delivers a blob cut up as planned, after what is already on the line and in one go; it returns
// when (after which delay) the last byte arrives.
func (p *Port) send(b []byte, chunks []int) time.Duration {
	if p == nil {
		return 0
	}
	if len(chunks) == 0 {
		p.feed(b)
		if d := p.busy - p.w.now(); d > 0 {
			return d
		}
		return 0
	}
	t := p.busy - p.w.now()
	if t < 0 {
		t = 0
	}
	put := func(part []byte) {
		if t == 0 && p.queued == 0 {
			p.arrive(part)
			return
		}
		part = append([]byte(nil), part...)
		p.queued++
		p.w.s.After(t, func() { p.queued--; p.arrive(part) })
	}
	for i := 0; i+1 < len(chunks) && len(b) > 0; i += 2 {
		n := chunks[i]
		if n > len(b) || n <= 0 {
			n = len(b)
		}
		put(b[:n])
		b = b[n:]
		if len(b) > 0 {
			t += time.Duration(chunks[i+1]) * time.Microsecond
		}
	}
	if len(b) > 0 {
		put(b)
	}
	p.busy = p.w.now() + t
	return t
}

// fail breaks the line: writes fail at once, reads after rd.
func (p *Port) fail(rd time.Duration) {
	if p.failed != nil || p.closed {
		return
	}
	p.w.s.Logf("port %d fails", p.idx)
	p.failed = goneErrors[(p.idx*7+p.fed+p.writes)%len(goneErrors)]
	p.failAt = p.w.now()
	p.rx = nil
	if rd <= 0 {
		p.rdfail = true
		p.n.Wake()
		return
	}
	p.w.s.After(rd, func() { p.rdfail = true; p.n.Wake() })
}

// HostFrame is one command frame the library sent.
type HostFrame struct {
	Seq   uint64
	At    time.Duration
	Port  *Port
	Body  []byte // type, function, payload
	Fate  Fate
	N     int // index among all command frames
	CtlAt time.Duration
	Ctl   byte
	CtlN  int           // control bytes sent before this frame
	AnsAt time.Duration // the intact last answer frame was put on the line
	Ans   bool
}

func (h *HostFrame) fn() byte { return h.Body[1] }

// node addressed by a SendData frame.
func (h *HostFrame) node() int {
	if h.fn() == 0x13 && len(h.Body) > 2 {
		return int(h.Body[2])
	}
	return 0
}
func (h *HostFrame) payload() []byte {
	if h.fn() == 0x13 && len(h.Body) > 4 {
		return h.Body[4:]
	}
	return nil
}

// Stick plays the Z-Wave controller on the other end of the line, and the network behind it.
type Stick struct {
	w      *World
	buf    []byte
	port   *Port
	frames []*HostFrame
	acks   []ackRec
	// answer overrides the default behaviour; it returns the answer frames.
	answer   func(h *HostFrame) [][]byte
	onFrame  func(h *HostFrame)
	onCtl    func(h *HostFrame)
	faultEnd time.Duration // fates apply only before this time (0: always)
	asleep   map[int]bool
	strict   bool // judge the framing of what the library writes
	ctlLog   []ctlRec
	attempts []attempt // writes that failed
	answers  int       // intact answer frames put on the line
}
type attempt struct {
	At time.Duration
	B  []byte
}
type ackRec struct {
	At   time.Duration
	Seq  uint64
	Port *Port
}
type ctlRec struct {
	At   time.Duration
	Port *Port
	B    byte
}

func (st *Stick) reset(p *Port) {
	st.buf = nil
	st.port = p
}

func (st *Stick) spec(id int) *NodeSpec {
	for i := range st.w.plan.Nodes {
		if st.w.plan.Nodes[i].ID == id {
			return &st.w.plan.Nodes[i]
		}
	}
	return nil
}

// fromHost takes what the library wrote in one call; it returns how long the call takes.
func (st *Stick) fromHost(p *Port, b []byte) time.Duration {
	w := st.w
	var d time.Duration
	st.buf = append(st.buf, b...)
	for len(st.buf) > 0 {
		switch st.buf[0] {
		case ACK:
			st.acks = append(st.acks, ackRec{w.now(), w.s.Steps(), p})
			p.acked++
			st.buf = st.buf[1:]
			if ms := w.plan.k("ackms"); ms > 0 {
				w.fault("slow-ack-write")
				d += time.Duration(ms) * time.Millisecond
			}
			continue
		case 0x01:
		case NAK, CAN:
			if st.strict {
				w.fail("bad-byte", "the library wrote a stray %02x", st.buf[0])
			}
			st.buf = st.buf[1:]
			continue
		default:
			if st.strict {
				w.fail("bad-byte", "the library wrote %02x outside of a frame", st.buf[0])
			}
			st.buf = st.buf[1:]
			continue
		}
		if len(st.buf) < 2 || len(st.buf) < int(st.buf[1])+2 {
			return d
		}
		n := int(st.buf[1]) + 2
		f := st.buf[:n]
		st.buf = st.buf[n:]
		if n < 5 || checksum(f[1:n-1]) != f[n-1] {
			if st.strict {
				w.fail("bad-frame", "the library wrote a malformed frame %x", f)
			}
			w.reach("malformed-host-frame")
			continue
		}
		h := &HostFrame{Seq: w.s.Steps(), At: w.now(), Port: p, Body: append([]byte(nil), f[2:n-1]...), N: len(st.frames), CtlN: len(st.ctlLog)}
		if h.N < len(w.plan.Fates) && (st.faultEnd == 0 || w.now() < st.faultEnd) {
			h.Fate = w.plan.Fates[h.N]
		}
		st.frames = append(st.frames, h)
		if st.onFrame != nil {
			st.onFrame(h)
		}
		if h.Fate.WriteMs > 0 {
			w.fault("slow-write")
			d += time.Duration(h.Fate.WriteMs) * time.Millisecond
		}
		if h.Fate.WriteErr {
			w.fault("write-error")
			p.writeErr = goneErrors[h.N%len(goneErrors)]
		}
		st.react(h)
	}
	return d
}

func (st *Stick) react(h *HostFrame) {
	w := st.w
	f := h.Fate
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	ctl := byte(ACK)
	switch f.Ctl {
	case "nak":
		ctl = NAK
		w.fault("command-refused")
	case "can":
		ctl = CAN
		w.fault("command-cancelled")
	case "none":
		ctl = 0
		w.fault("ack-lost")
	}
	cd := ms(f.CtlMs)
	if f.CtlMs == 0 {
		cd = 2 * time.Millisecond
	} else {
		w.fault("ack-delayed")
	}
	if ctl != 0 {
		w.s.After(cd, func() {
			if h.Port.closed || h.Port.failed != nil {
				return
			}
			h.CtlAt, h.Ctl = w.now(), ctl
			st.ctlLog = append(st.ctlLog, ctlRec{w.now(), h.Port, ctl})
			if f.Twice && ctl == ACK && !w.s.MayStall() {
				// both before the next command can start
				w.fault("ack-doubled")
				h.Port.feed([]byte{ctl, ctl})
			} else {
				h.Port.feed([]byte{ctl})
			}
			if st.onCtl != nil {
				st.onCtl(h)
			}
		})
	}
	if ctl == NAK || ctl == CAN {
		return
	}
	var ans [][]byte
	if st.answer != nil {
		ans = st.answer(h)
	} else {
		ans = st.defaultAnswer(h)
	}
	if f.NoResp {
		if len(ans) > 0 {
			w.fault("answer-lost")
		}
		return
	}
	rd := ms(f.RespMs)
	if f.RespMs == 0 {
		rd = 6 * time.Millisecond
	} else {
		w.fault("answer-delayed")
	}
	if h.fn() == 0x41 { // its answer carries no node: a copy would answer the next query as well
		f.Dup = 0
	}
	if rd < cd && ctl != 0 {
		rd = cd
	}
	for i, a := range ans {
		a, i := a, i
		for k := 0; k <= f.Dup; k++ {
			if k > 0 {
				w.fault("answer-duplicated")
			}
			w.s.After(rd+time.Duration(i)*4*time.Millisecond+time.Duration(k)*30*time.Millisecond, func() {
				b := a
				switch f.Garble {
				case "ck":
					b = append([]byte(nil), a...)
					b[len(b)-1] ^= 0x5a
					w.fault("answer-damaged")
					if w.plan.k("rawdamage") == 0 && bytes.IndexAny(b[1:], "\x01\x06\x15\x18") >= 0 {
						return // its remains would look like a control code or the start of a frame: lost instead
					}
				case "short": // well-formed, but too short to decode
					if len(a) > 8 {
						b = frame(a[2 : len(a)-3]...)
						w.fault("answer-undecodable")
					}
				}
				if !h.Port.closed && h.Port.failed == nil && f.Garble != "ck" {
					st.answers++
					if f.Garble == "" && i == len(ans)-1 && !h.Ans {
						h.Ans, h.AnsAt = true, w.now()
					}
				}
				h.Port.feed(b)
				if f.Garble == "" {
					h.Port.good++
				}
			})
		}
	}
}

// defaultAnswer is a healthy network.
func (st *Stick) defaultAnswer(h *HostFrame) [][]byte {
	w := st.w
	switch h.fn() {
	case 0x02:
		var ids []int
		if w.plan.k("nodiscovery") == 0 {
			for _, n := range w.plan.Nodes {
				ids = append(ids, n.ID)
			}
		}
		return [][]byte{fDiscovery(ids)}
	case 0x41:
		if len(h.Body) >= 3 {
			if n := st.spec(int(h.Body[2])); n != nil {
				return [][]byte{fProtocolInfo(*n)}
			}
		}
		return nil
	case 0x13:
		r := [][]byte{fSendDataResp()}
		n := st.spec(h.node())
		p := h.payload()
		if n == nil || len(p) < 2 || st.asleep[n.ID] {
			return r
		}
		switch {
		case p[0] == 0x72 && p[1] == 0x04:
			r = append(r, rManufacturer(*n))
		case p[0] == 0x60 && p[1] == 0x07:
			r = append(r, rEndpoints(*n))
		case p[0] == 0x31 && p[1] == 0x01:
			r = append(r, rSensorSupported(*n))
		case p[0] == 0x25 && p[1] == 0x02 && w.plan.k("nostates") == 0:
			r = append(r, rSwitchBinary(n.ID, true))
		case p[0] == 0x26 && p[1] == 0x02 && w.plan.k("nostates") == 0:
			r = append(r, rLevel(n.ID, 42))
		}
		return r
	}
	return nil
}

// Client side helpers.

// connect starts the library; file may be "".
func (w *World) connect(file string, limit time.Duration) error {
	var c *gozwave.Controller
	var err error
	call := w.spawnLib("connect", func() {
		c, err = gozwave.ConnectWithCustomPortOpener("/dev/ttySIM", file, w.opener)
	})
	if !call.wait(limit) {
		w.fail("connect-hangs", "connecting did not return within %v\n%s", limit, w.s.Dump())
	}
	if err == nil && c == nil {
		w.fail("connect-nil", "connecting returned neither a controller nor an error")
	}
	w.ctl = c
	return err
}

// mustConnect connects to a healthy port.
func (w *World) mustConnect(file string) {
	if err := w.connect(file, 10*time.Second); err != nil {
		w.fail("connect-error", "connecting to a healthy port failed: %v", err)
	}
}

// drainEvents collects events in a task of its own.
func (w *World) drainEvents() {
	ctl := w.ctl
	rt.SpawnLib("event client", func() {
		ch := ctl.GetNextEvent()
		for {
			ev, ok := rt.Recv2((<-chan interface{})(ch))
			if !ok {
				return
			}
			r := EvRec{At: w.now(), Seq: w.s.Steps(), Ev: ev}
			switch e := ev.(type) {
			case events.NodeUpdated:
				r.Node = e.Address
			case events.NodeDiscoverd:
				r.Node = e.Address
			}
			w.s.Logf("event %T node %d", ev, r.Node)
			w.events = append(w.events, r)
		}
	})
}

func (w *World) updates(node int) int {
	n := 0
	for _, e := range w.events {
		if _, ok := e.Ev.(events.NodeUpdated); ok && e.Node == node {
			n++
		}
	}
	return n
}
func (w *World) discovered(node int) int {
	n := 0
	for _, e := range w.events {
		if _, ok := e.Ev.(events.NodeDiscoverd); ok && e.Node == node {
			n++
		}
	}
	return n
}

// State is a copy of a node's published values.
type State struct {
	Bool  map[string]bool
	Float map[string]float64
}

func readState(n *nodes.Node) State {
	st := State{map[string]bool{}, map[string]float64{}}
	n.RLock()
	defer n.RUnlock()
	for it, k, v := rt.RangeMap3(n.StateBool); it.Valid(); k, v = it.Next() {
		st.Bool[k] = v
	}
	for it, k, v := rt.RangeMap3(n.StateFloat); it.Valid(); k, v = it.Next() {
		st.Float[k] = v
	}
	return st
}

// node looks a node up; calls that hang end the run.
func (w *World) node(id int) *nodes.Node {
	var n *nodes.Node
	w.must("get-hangs", "Nodes.Get", 30*time.Second, func() { n = w.ctl.Nodes.Get(id) })
	return n
}
func (w *World) state(id int) (st State, ok bool) {
	w.must("read-hangs", "reading a node", 30*time.Second, func() {
		n := w.ctl.Nodes.Get(id)
		if n != nil {
			st, ok = readState(n), true
		}
	})
	return
}

func (w *World) nodeIDs() []int {
	var ids []int
	w.must("list-hangs", "Nodes.All", 30*time.Second, func() {
		for it, k, _ := rt.RangeMap3(w.ctl.Nodes.All()); it.Valid(); k, _ = it.Next() {
			ids = append(ids, k)
		}
	})
	sort.Ints(ids)
	return ids
}

// encoded is an Encodable for arbitrary serial API requests.
type encoded []byte

func (e encoded) Encode() []byte { return append([]byte(nil), e...) }

// sendData is a device request as the library's own Raw command encodes it.
func sendData(node int, cmd ...byte) encoded {
	b := []byte{0x13, byte(node), byte(len(cmd))}
	b = append(b, cmd...)
	return append(b, 0x25)
}

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
