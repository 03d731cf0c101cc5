package main

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"regexp"
	"sort"
	"strings"
	"time"

	gozwave "github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/serialrecorder"
	"gozwavesim/rt"
)

// C21: the serial recorder.  C23: the tool that prints recordings.

func init() {
	register(&Scenario{ID: "C21", gen: genC21, run: runC21, stallMax: 20, stallSum: 60, quick: 25000, thorough: 400000, wallTime: true})
	register(&Scenario{ID: "C23", gen: genC23, run: runC23, stallMax: 20, stallSum: 60, quick: 80000, thorough: 400000, wallTime: true})
}

// recOp is one transfer as seen on both sides of the recorder.
type recOp struct {
	write      bool
	start, end time.Duration
	seq0, seq1 uint64
	inAt       time.Duration // the port finished
	data       []byte
	n          int
	err        error
	called     bool
	inData     []byte
	inN        int
	inErr      error
	matched    bool
}

// recWorld holds what happened at the recorder.
type recWorld struct {
	w     *World
	ops   []*recOp
	open  map[*rt.Task]*recOp
	opens int
}

// innerPort is the real port under the recorder.
type innerPort struct {
	r  *recWorld
	rw io.ReadWriteCloser
}

func (p *innerPort) Read(b []byte) (int, error) {
	n, err := p.rw.Read(b)
	p.note(b, n, err, false)
	return n, err
}
func (p *innerPort) Write(b []byte) (int, error) {
	c := append([]byte(nil), b...)
	n, err := p.rw.Write(c)
	p.note(c, n, err, true)
	return n, err
}
func (p *innerPort) Close() error { return p.rw.Close() }
func (p *innerPort) note(b []byte, n int, err error, write bool) {
	t := p.r.w.s.Cur()
	if t == nil || t.Killed() {
		return
	}
	o := p.r.open[t]
	if o == nil || o.write != write {
		p.r.w.fail("extra-transfer", "the recorder made a transfer nobody asked for")
		return
	}
	if o.called {
		p.r.w.fail("extra-transfer", "the recorder made two transfers for one")
	}
	o.called = true
	o.inN, o.inErr, o.inAt = n, err, p.r.w.now()
	if write {
		o.inData = b
	} else if n >= 0 {
		o.inData = append([]byte(nil), b[:n]...)
	}
}

// outerPort is what the user of the recorder holds; it keeps the books and reuses its buffers.
type outerPort struct {
	r  *recWorld
	rw io.ReadWriteCloser
}

func (p *outerPort) do(write bool, b []byte) (int, error) {
	w := p.r.w
	t := w.s.Cur()
	o := &recOp{write: write, start: w.now(), seq0: w.s.Steps()}
	if !t.Killed() {
		p.r.open[t] = o
		p.r.ops = append(p.r.ops, o)
	}
	scratch := make([]byte, len(b), len(b)+8)
	var n int
	var err error
	if write {
		copy(scratch, b)
		o.data = append([]byte(nil), b...)
		n, err = p.rw.Write(scratch)
	} else {
		n, err = p.rw.Read(scratch)
		if n > len(b) || n < 0 {
			w.fail("wrong-count", "a read of %d bytes returned %d", len(b), n)
		}
		copy(b, scratch[:n])
		o.data = append([]byte(nil), scratch[:n]...)
	}
	if t.Killed() {
		return n, err
	}
	o.n, o.err = n, err
	o.end, o.seq1 = w.now(), w.s.Steps()
	delete(p.r.open, t)
	for i := range scratch { // the buffer is used for something else now
		scratch[i] = 0xee
	}
	what := "read"
	if write {
		what = "write"
	}
	if !o.called {
		w.fail("no-transfer", "a %s was not passed on", what)
	}
	if o.n != o.inN || o.err != o.inErr {
		w.fail("result-changed", "a %s returned %d, %v, the port %d, %v", what, o.n, o.err, o.inN, o.inErr)
	}
	if !bytes.Equal(o.data, o.inData) {
		w.fail("data-changed", "a %s has %x on one side and %x on the other", what, o.data, o.inData)
	}
	if d := o.end - o.inAt; d > 300*time.Millisecond {
		w.fail("delayed", "a %s was held up for %v by the recording", what, d)
	}
	return n, err
}
func (p *outerPort) Read(b []byte) (int, error)  { return p.do(false, b) }
func (p *outerPort) Write(b []byte) (int, error) { return p.do(true, b) }
func (p *outerPort) Close() error                { return p.rw.Close() }

// recLog is the log of the recording.
type recLog struct {
	w     *World
	buf   bytes.Buffer
	delay time.Duration
	every int // only every n-th write is slow
	fail  int // this write and all later ones fail
	n     int
	at    time.Duration
	busy  bool
}

var errLog = errors.New("no space left on device")

func (l *recLog) Write(b []byte) (int, error) {
	if c := l.w.s.Cur(); c != nil && c.Killed() {
		return 0, errLog
	}
	l.n++
	if l.busy {
		l.w.fail("log-shared", "two goroutines write the log at the same time")
	}
	l.busy = true
	c := append([]byte(nil), b...)
	if l.delay > 0 && (l.every <= 1 || l.n%l.every == 0) {
		l.w.fault("slow-log")
		rt.Sleep(l.delay)
	}
	l.busy = false
	l.at = l.w.now()
	if l.fail > 0 && l.n >= l.fail {
		l.w.fault("log-write-error")
		return 0, errLog
	}
	if !bytes.Equal(b, c) {
		l.w.fail("log-buffer", "the buffer given to the log was changed while it was being written")
	}
	l.buf.Write(c)
	return len(b), nil
}

func decodeRows(b []byte) ([]serialrecorder.Row, error) {
	dec := gob.NewDecoder(bytes.NewReader(b))
	var rows []serialrecorder.Row
	for {
		var r serialrecorder.Row
		err := dec.Decode(&r)
		if err == io.EOF {
			return rows, nil
		}
		if err != nil {
			return rows, err
		}
		rows = append(rows, r)
	}
}

// judge compares a complete recording with what happened.
func (r *recWorld) judge(raw []byte, write bool) (string, string) {
	rows, err := decodeRows(raw)
	if err != nil {
		return "not-decodable", fmt.Sprintf("after %d rows: %v", len(rows), err)
	}
	dir := "read"
	if write {
		dir = "written"
	}
	type piece struct {
		b  byte
		ts time.Time
	}
	var got []piece
	for _, x := range rows {
		if x.Direction.IsWrite() == write {
			for _, b := range x.Data {
				got = append(got, piece{b, x.Timestamp})
			}
		}
	}
	var ops []*recOp
	total := 0
	for _, o := range r.ops {
		o.matched = false
		if o.write == write && o.n > 0 && o.seq1 > 0 {
			ops = append(ops, o)
			total += o.n
		}
	}
	if len(got) != total {
		return "bytes-" + dir, fmt.Sprintf("%d bytes were %s, the recording has %d", total, dir, len(got))
	}
	// transfers that overlapped may be recorded in either order
	pos, lo, budget := 0, 0, 200000
	why := ""
	best := -1
	var rec func() bool
	rec = func() bool {
		save := lo
		for lo < len(ops) && ops[lo].matched {
			lo++
		}
		if lo == len(ops) {
			return true
		}
		minEnd := ^uint64(0)
		for k := lo; k < len(ops); k++ {
			if !ops[k].matched && ops[k].seq1 < minEnd {
				minEnd = ops[k].seq1
			}
			if ops[k].seq0 > minEnd {
				break
			}
		}
		for k := lo; k < len(ops) && ops[k].seq0 <= minEnd; k++ {
			o := ops[k]
			if o.matched {
				continue
			}
			if budget--; budget < 0 {
				return true
			}
			ok := true
			for j := 0; j < o.n && ok; j++ {
				p := got[pos+j]
				ts := p.ts.Sub(rt.Epoch)
				if p.b != o.data[j] {
					ok = false
					if pos+j > best {
						best, why = pos+j, fmt.Sprintf("byte %d of those %s is %02x in the recording and was %02x", pos+j, dir, p.b, o.data[j])
					}
				} else if ts < o.start-time.Millisecond || ts > o.end+100*time.Millisecond {
					ok = false
					if pos+j > best {
						best, why = pos+j, fmt.Sprintf("%02x was %s between %v and %v, the recording says %v", p.b, dir, o.start, o.end, ts)
					}
				}
			}
			if !ok {
				continue
			}
			o.matched = true
			pos += o.n
			if rec() {
				return true
			}
			pos -= o.n
			o.matched = false
		}
		lo = save
		return false
	}
	if !rec() {
		return "bytes-" + dir, why
	}
	return "", ""
}

func (r *recWorld) pending() bool { return len(r.open) > 0 }

// scriptPort is a port that does what the plan says.
type scriptPort struct {
	w      *World
	rx     [][]byte
	n      rt.Notifier
	closed bool
	steps  []Step // outcomes of writes
}

var errPort = errors.New("input/output error")

func (p *scriptPort) Read(b []byte) (int, error) {
	for {
		if c := p.w.s.Cur(); c == nil || c.Killed() {
			return 0, errGone
		}
		if p.closed {
			return 0, errors.New("file already closed")
		}
		if len(p.rx) > 0 {
			x := p.rx[0]
			var err error
			if x[0] == 1 { // the data come with an error
				err = errPort
				p.w.fault("read-error-with-data")
			}
			if x[0] == 2 {
				p.rx = p.rx[1:]
				p.w.fault("read-error")
				return 0, errPort
			}
			if x[0] == 3 {
				p.rx = p.rx[1:]
				return 0, nil // a read timeout
			}
			n := copy(b, x[1:])
			if n == len(x)-1 {
				p.rx = p.rx[1:]
			} else {
				p.w.fault("short-read")
				p.rx[0] = append([]byte{0}, x[1+n:]...)
			}
			return n, err
		}
		p.n.Wait("serial read")
	}
}
func (p *scriptPort) Write(b []byte) (int, error) {
	if c := p.w.s.Cur(); c == nil || c.Killed() || p.closed {
		return 0, errGone
	}
	if len(p.steps) == 0 {
		return len(b), nil
	}
	s := p.steps[0]
	p.steps = p.steps[1:]
	if s.A > 0 {
		p.w.fault("slow-write")
		rt.Sleep(time.Duration(s.A) * time.Millisecond)
	}
	switch s.B {
	case 1:
		p.w.fault("short-write")
		return len(b) / 2, io.ErrShortWrite
	case 2:
		p.w.fault("write-error")
		return 0, errPort
	}
	return len(b), nil
}
func (p *scriptPort) Close() error {
	p.closed = true
	p.n.Wake()
	return nil
}

func genC21(g G, i int) *Plan {
	p := &Plan{K: map[string]int{"delay": g.pick(0, 0, 1, 20, 300, 2000), "every": g.pick(1, 1, 7, 40)}}
	if g.chance(0.1) {
		p.K["logfail"] = g.rng(1, 12)
	}
	if g.chance(0.3) { // the whole library on top of the recorder
		p.Variant = "library"
		p.Nodes = g.nodes(g.rng(1, 3), 0)
		n := g.rng(1, 12)
		for k := 0; k < n; k++ {
			nd := p.Nodes[g.Intn(len(p.Nodes))]
			s := Step{At: int64(g.Intn(4_000_000)), Op: g.picks("req", "feed", "feed", "lose"), N: nd.ID, A: g.Intn(nKinds), B: g.pick(100, 1000), C: 1}
			if s.Op == "feed" {
				s.X = hx(g.uniqueReport(nd.ID, k))
				if g.chance(0.3) {
					s.X = hx(g.bytes(g.rng(1, 60)))
				}
			}
			if s.Op == "lose" {
				s.A, s.B = 0, g.pick(0, 300)
			}
			p.Steps = append(p.Steps, s)
		}
		if g.chance(0.5) {
			p.Fates = g.fates(30, 0.3, "nak can none late dup lost slow", 800)
		}
		return p
	}
	p.K["buf"] = g.pick(1, 2, 16, 128)
	p.K["writers"] = g.pick(1, 1, 1, 2)
	n := g.rng(1, 30)
	if i%50 == 7 {
		n = g.rng(150, 400) // more than the recorder buffers
		p.K["delay"], p.K["every"] = g.pick(300, 2000), 1
	}
	t := int64(0)
	for k := 0; k < n; k++ {
		s := Step{At: t, Op: g.picks("rx", "rx", "tx", "tx"), X: hx(g.bytes(g.rng(1, 40)))}
		if n < 150 && g.chance(0.05) {
			s.Op = "reopen"
			s.A = g.pick(0, 0, 1, 2) // so many failing attempts first
		}
		s.B = g.pick(0, 0, 0, 0, 0, 1, 2, 3)
		s.A += 0
		if s.Op == "tx" {
			s.A = g.pick(0, 0, 0, 1, 30)
		}
		p.Steps = append(p.Steps, s)
		t += int64(g.pick(0, 0, 100, 2000, 50000))
	}
	return p
}

func runC21(w *World) {
	sr := serialrecorder.New("/dev/ttyREC", 115200)
	lg := &recLog{w: w, delay: time.Duration(w.plan.k("delay")) * time.Millisecond, every: w.plan.k("every"), fail: w.plan.k("logfail")}
	sr.Logger = lg
	r := &recWorld{w: w, open: map[*rt.Task]*recOp{}}
	if w.plan.Variant == "library" {
		w.recordLibrary(sr, r)
	} else {
		w.recordCalls(sr, r)
	}
	// wait until everything is in the log
	if lg.fail > 0 {
		w.sleep(2 * time.Second)
		return // what the log refused is not in it
	}
	for n := -1; n != len(r.ops); { // the library may still be busy
		n = len(r.ops)
		w.sleep(time.Duration(2*n+10)*lg.delay + 2*time.Second)
	}
	for _, o := range r.ops {
		if o.seq1 == 0 && o.called {
			w.fail("call-blocks", "a transfer has not returned\n%s", w.s.Dump())
		}
	}
	raw := append([]byte(nil), lg.buf.Bytes()...)
	for _, dir := range []bool{false, true} {
		if key, msg := r.judge(raw, dir); key != "" {
			w.fail(key, "%s", msg)
		}
	}
	w.reach(fmt.Sprintf("opens-%d", r.opens))
	w.reach("rows-compared")
}

type portOpener interface {
	Open() (io.ReadWriteCloser, error)
}

type openerFunc func() (io.ReadWriteCloser, error)

func (f openerFunc) Open() (io.ReadWriteCloser, error) { return f() }

func (w *World) recordCalls(sr portOpener, r *recWorld) {
	var port *scriptPort
	failOpens := 0
	w.s.SerialOpener = func(name string, baud int) (io.ReadWriteCloser, error) {
		if name != "/dev/ttyREC" || baud != 115200 {
			w.fail("wrong-port", "opened %q with %d baud", name, baud)
		}
		if failOpens > 0 {
			failOpens--
			w.fault("open-fails")
			return nil, errNoPort
		}
		r.opens++
		port = &scriptPort{w: w}
		return &innerPort{r, port}, nil
	}
	var out io.ReadWriteCloser
	var readers []*Call
	open := func() {
		for {
			var rw io.ReadWriteCloser
			var err error
			fails := failOpens > 0
			w.must("open-hangs", "Open", 10*time.Second, func() { rw, err = sr.Open() })
			if fails {
				if err != errNoPort {
					w.fail("open-result", "the port could not be opened, but Open returned %v", err)
				}
				continue
			}
			if err != nil || rw == nil {
				w.fail("open-result", "Open returned %v for a healthy port", err)
			}
			out = &outerPort{r, rw}
			break
		}
		o, mine := out, port
		readers = append(readers, w.spawnLib("reading client", func() {
			buf := make([]byte, w.plan.k("buf"))
			for !mine.closed {
				o.Read(buf)
			}
		}))
	}
	open()
	type job struct{ b []byte }
	nw := w.plan.k("writers")
	if nw < 1 {
		nw = 1
	}
	queues := make([][]job, nw)
	idle := make([]rt.Notifier, nw)
	working := 0
	over := false
	for k := 0; k < nw; k++ {
		k := k
		rt.SpawnLib("writing client", func() {
			for {
				for len(queues[k]) == 0 {
					if over {
						return
					}
					idle[k].Wait("work")
				}
				j := queues[k][0]
				queues[k] = queues[k][1:]
				out.Write(j.b)
				working--
			}
		})
	}
	for i, s := range w.plan.Steps {
		w.sleepUntil(s.at())
		switch s.Op {
		case "rx":
			port.rx = append(port.rx, append([]byte{byte(s.B)}, s.bytes()...))
			port.n.Wake()
		case "tx":
			port.steps = append(port.steps, s)
			working++
			queues[i%nw] = append(queues[i%nw], job{s.bytes()})
			idle[i%nw].Wake()
		case "reopen":
			w.fault("port-reopened")
			if !w.waitFor(60*time.Second, 5*time.Millisecond, func() bool { return working == 0 }) {
				w.fail("write-blocks", "a write has not returned\n%s", w.s.Dump())
			}
			if err := out.Close(); err != nil {
				w.fail("close-result", "Close returned %v", err)
			}
			if !port.closed {
				w.fail("not-closed", "the port is still open after Close")
			}
			if !readers[len(readers)-1].wait(5 * time.Second) {
				w.fail("read-blocks", "a read has not returned after Close\n%s", w.s.Dump())
			}
			failOpens = s.A
			open()
		}
	}
	if !w.waitFor(60*time.Second, 5*time.Millisecond, func() bool { return working == 0 && len(port.rx) == 0 }) {
		w.fail("call-blocks", "transfers have not returned\n%s", w.s.Dump())
	}
	w.sleep(100 * time.Millisecond)
	over = true
	for k := range idle {
		idle[k].Wake()
	}
	out.Close()
	readers[len(readers)-1].wait(5 * time.Second)
}

// recordLibrary runs the whole library on top of the recorder.
func (w *World) recordLibrary(sr portOpener, r *recWorld) {
	w.s.SerialOpener = func(name string, baud int) (io.ReadWriteCloser, error) {
		rw, err := w.opener.Open()
		if err != nil {
			return nil, err
		}
		r.opens++
		return &innerPort{r, rw}, nil
	}
	w.plan.K["nodiscovery"] = 1
	w.s.Disk.Put(configFile, configJSON(w.plan.Nodes))
	op := openerFunc(func() (io.ReadWriteCloser, error) {
		rw, err := sr.Open()
		if err != nil {
			return nil, err
		}
		return &outerPort{r, rw}, nil
	})
	call := w.spawnLib("connect", func() {
		c, err := gozwave.ConnectWithCustomPortOpener("/dev/ttySIM", configFile, op)
		if err != nil {
			w.fail("connect-error", "connecting through the recorder failed: %v", err)
		}
		w.ctl = c
	})
	if !call.wait(10 * time.Second) {
		w.fail("connect-hangs", "connecting through the recorder did not return\n%s", w.s.Dump())
	}
	w.drainEvents()
	var reqs []*Req
	t0 := w.now()
	for _, s := range w.plan.Steps {
		w.sleepUntil(t0 + s.at())
		switch s.Op {
		case "req":
			reqs = append(reqs, w.request(len(reqs), len(reqs), s.A, s.N, time.Duration(s.B)*time.Millisecond, true))
		case "feed":
			if p := w.opener.cur(); p != nil {
				p.send(s.bytes(), nil)
			}
		case "lose":
			w.fault("link-lost")
			w.lose(s)
		}
	}
	w.settleReqs(reqs, 60*time.Second)
	w.waitFor(60*time.Second, 100*time.Millisecond, func() bool { return w.opener.cur() != nil && w.connected() })
	w.sleep(3 * time.Second)
	if w.ctl == nil {
		return
	}
	// what can still be on its way is a read that waits
	for _, o := range r.ops {
		if o.seq1 == 0 && o.write {
			w.fail("call-blocks", "a write has not returned\n%s", w.s.Dump())
		}
	}
}

// C23

func genC23(g G, i int) *Plan {
	p := &Plan{K: map[string]int{"sel": g.Intn(5), "buf": g.pick(2, 16, 128), "opens": g.pick(1, 1, 2)}}
	n := g.rng(0, 25)
	t := int64(0)
	for k := 0; k < n; k++ {
		t += int64(g.pick(0, 0, 200, 600, 999, 1000, 1001, 2000, 50_000, 3_000_000))
		p.Steps = append(p.Steps, Step{At: t, Op: g.picks("rx", "rx", "tx"), X: hx(g.bytes(g.rng(1, 12)))})
	}
	if g.chance(0.25) {
		p.K["kill"] = g.rng(1, 12) // the recording process is killed at this log write
		p.K["short"] = g.pick(0, 1, 5, 1000)
	}
	return p
}

var reLine = regexp.MustCompile(`^(.*?): (read|write) - ([0-9a-f]*)$`)

func runC23(w *World) {
	// record
	const path = "/data/rec.gob"
	var f *rt.File
	w.s.Disk.Put("/data/x", nil)
	w.must("create", "creating the log", time.Second, func() {
		var err error
		if f, err = rt.OsCreate(path); err != nil {
			panic("HarnessBug: " + err.Error())
		}
	})
	killed := false
	if k := w.plan.k("kill"); k > 0 {
		n := 0
		w.s.Disk.Fault = func(op rt.DiskOp) rt.DiskFault {
			if op.Kind == "write" {
				if n++; n == k {
					killed = true
					w.fault("recording-killed")
					return rt.DiskFault{Crash: "kill", Short: w.plan.k("short")}
				}
			}
			return rt.DiskFault{}
		}
	}
	sr := serialrecorder.New("/dev/ttyREC", 115200)
	sr.Logger = f
	r := &recWorld{w: w, open: map[*rt.Task]*recOp{}}
	var port *scriptPort
	w.s.SerialOpener = func(string, int) (io.ReadWriteCloser, error) {
		port = &scriptPort{w: w}
		return &innerPort{r, port}, nil
	}
	c := w.spawnLib("opening client", func() {
		rw, err := sr.Open()
		if err != nil {
			panic("HarnessBug: " + err.Error())
		}
		out := &outerPort{r, rw}
		rt.SpawnLib("reading client", func() {
			buf := make([]byte, w.plan.k("buf"))
			for !port.closed {
				out.Read(buf)
			}
		})
		t0 := w.now()
		for _, s := range w.plan.Steps {
			w.sleepUntil(t0 + s.at())
			if s.Op == "rx" {
				port.rx = append(port.rx, append([]byte{0}, s.bytes()...))
				port.n.Wake()
			} else {
				out.Write(s.bytes())
			}
		}
		w.sleep(500 * time.Millisecond)
	})
	end := time.Duration(0)
	for _, s := range w.plan.Steps {
		end = s.at()
	}
	for k := time.Duration(0); k < end+3*time.Second && !c.done && !killed; k += 100 * time.Millisecond {
		w.sleep(100 * time.Millisecond)
	}
	if !c.done && !killed {
		w.fail("call-blocks", "the recording does not end\n%s", w.s.Dump())
	}
	w.s.Disk.Fault = nil
	w.s.Crash() // the recording process is gone
	raw, _ := w.s.Disk.Peek(path)
	rows, derr := decodeRows(raw)
	if !killed && derr != nil {
		w.fail("not-decodable", "the recording cannot be decoded: %v", derr)
	}
	// print it
	main := rt.Programs["serialrecordingtohex"]
	if main == nil {
		panic("HarnessBug: no such program")
	}
	args := []string{"-file=" + path}
	short, wantR, wantW := false, true, true
	switch w.plan.k("sel") {
	case 1:
		args, wantW = append(args, "-write=false"), false
	case 2:
		args, wantR = append(args, "-read=false"), false
	case 3:
		args, short, wantW = append(args, "-short", "-write=false"), true, false
	}
	rt.SetArgs(args...)
	var out bytes.Buffer
	exited, code := false, 0
	w.s.Out = func(p []byte) { out.Write(p) }
	w.s.ExitHook = func(c int) { exited, code = true, c }
	pc := w.spawnLib("serialrecordingtohex", main)
	w.waitFor(20*time.Second, 10*time.Millisecond, func() bool { return pc.done || exited })
	if !pc.done && !exited {
		w.fail("tool-hangs", "the tool does not end\n%s", w.s.Dump())
	}
	w.reach(fmt.Sprintf("tool-exit-%d", code))
	if code != 0 {
		if derr == nil {
			w.fail("refused", "the tool exits with status %d for a good recording of %d rows", code, len(rows))
		}
		return // it says that the recording is damaged
	}
	// reference: rows of one direction less than a millisecond apart make a line
	type line struct {
		write       bool
		first, last time.Time
		data        []byte
		all         []time.Time
		used        bool
	}
	var lines []*line
	for _, dir := range []bool{false, true} {
		if dir && !wantW || !dir && !wantR {
			continue
		}
		var cur *line
		for _, x := range rows {
			if x.Direction.IsWrite() != dir {
				continue
			}
			if cur == nil || x.Timestamp.Sub(cur.last) >= time.Millisecond {
				cur = &line{write: dir, first: x.Timestamp}
				lines = append(lines, cur)
			}
			cur.last = x.Timestamp
			cur.data = append(cur.data, x.Data...)
		}
	}
	got := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
	if out.Len() == 0 {
		got = nil
	}
	var order []*line
	for _, l := range got {
		data, dir, ts := l, "read", ""
		if !short {
			m := reLine.FindStringSubmatch(l)
			if m == nil {
				w.fail("line-format", "the tool printed %q", l)
			}
			ts, dir, data = m[1], m[2], m[3]
		}
		if data == "" {
			continue
		}
		var hit *line
		for _, x := range lines {
			if x.used || x.write != (dir == "write") || fmt.Sprintf("%x", x.data) != data {
				continue
			}
			if short || ts == x.first.String() || ts == x.last.String() {
				hit = x
				break
			}
		}
		if hit == nil {
			w.fail("line-wrong", "the tool printed %q, which is no (or no further) merged row of the recording\nall it printed:\n%s", l, out.String())
		}
		hit.used = true
		order = append(order, hit)
	}
	for _, x := range lines {
		if !x.used && len(x.data) > 0 {
			w.fail("bytes-missing", "the tool did not print %x, recorded at %v\nall it printed:\n%s", x.data, x.last, out.String())
		}
	}
	if !sort.SliceIsSorted(order, func(a, b int) bool { return order[a].last.Before(order[b].first) }) {
		w.fail("not-sorted", "the tool printed its lines out of order:\n%s", out.String())
	}
	w.reach(fmt.Sprintf("lines-%d", len(lines)/5*5))
}
