package main

import (
	"errors"
	"fmt"
	"time"

	gozwave "github.com/stampzilla/gozwave"
)

// C16, C17: opening, losing and restoring the link.

func init() {
	register(&Scenario{ID: "C16", gen: genC16, run: runC16, stallMax: 100, stallSum: 300, quick: 4000, thorough: 200000})
	register(&Scenario{ID: "C17", gen: genC17, run: runC17, stallMax: 20, stallSum: 60, quick: 60000, thorough: 500000})
}

func genC16(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0.2), K: map[string]int{"nostates": 1}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	if g.chance(0.5) {
		p.K["discover"] = 1
	}
	span := int64(g.pick(1_000_000, 5_000_000, 20_000_000, 60_000_000))
	for k := g.rng(1, 6); k > 0; k-- {
		s := Step{At: int64(g.Intn(int(span))), Op: g.picks("lose", "lose", "losewrite", "loseopen", "loseread"), A: g.pick(0, 0, 0, 1, 30, 200, 900), B: g.pick(0, 0, 300, 900, 999, 1000, 1001, 1500, 2500, 6000, 30000, 300000)}
		switch s.Op {
		case "loseopen":
			s.C = g.pick(0, 1, 50, 150, 199, 200, 201, 250, 400)
		case "losewrite":
			s.C = g.pick(0, 1, 2, 3, 10)
		case "loseread":
			s.C = g.rng(1, 9) // in the middle of a frame
		}
		p.Steps = append(p.Steps, s)
	}
	for k := g.rng(0, 3); k > 0; k-- {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "slowopen", A: g.pick(1, 100, 1000, 4000)})
	}
	for k := g.rng(0, 12); k > 0; k-- {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		s := Step{At: int64(g.Intn(int(span))), N: nd.ID}
		switch g.Intn(3) {
		case 0:
			s.Op, s.A, s.B, s.C = "req", g.Intn(nKinds), g.pick(10, 300, 1000, 3000), g.pick(0, 1, 1)
		case 1:
			s.Op, s.A, s.B, s.F = "ctl", g.Intn(6), g.rng(1, 3), float64(g.Intn(100))
		default:
			s.Op, s.X = "feed", hx(g.goodFrame(p.Nodes, k))
		}
		p.Steps = append(p.Steps, s)
	}
	p.Fates = g.fates(20, 0.15, "nak can none late resp lost dup slow werr", g.pick(50, 1000))
	return p
}

// connected reads the flag clients see.
func (w *World) connected() (c bool) {
	w.must("read-hangs", "reading Connected", 30*time.Second, func() {
		w.ctl.Connection.RLock()
		c = w.ctl.Connection.Connected
		w.ctl.Connection.RUnlock()
	})
	return
}

func runC16(w *World) {
	st := w.stick
	op := w.opener
	const slack = 600 * time.Millisecond // stalls and scheduling
	var slow []time.Duration
	op.Delay = func(call int) time.Duration {
		if len(slow) == 0 {
			return 0
		}
		d := slow[0]
		slow = slow[1:]
		w.fault("slow-open")
		return d
	}
	if w.plan.k("discover") == 1 {
		w.mustConnect("")
		w.drainEvents()
	} else {
		w.preload()
	}
	t0 := w.now()
	openable := t0
	var attempts []time.Duration
	op.Fail = func(int) error { attempts = append(attempts, w.now()); return nil }
	lose := func(s Step) {
		p := op.cur()
		if p == nil {
			return
		}
		w.lose(s)
		if at := w.now() + time.Duration(s.B)*time.Millisecond; at > openable {
			openable = at
		}
		rd := w.now() + time.Duration(s.A)*time.Millisecond
		w.spawn("loss check", func() {
			w.sleepUntil(rd + 500*time.Millisecond + slack)
			if !p.closed {
				w.sleep(500 * time.Millisecond)
				if !p.closed {
					w.fail("not-closed", "port %d failed at %v, but is still open at %v\n%s", p.idx, rd, w.now(), w.s.Dump())
				}
			}
		})
	}
	var reqs []*Req
	var calls []*Call
	down := time.Duration(0) // when the monitor saw the link down first
	stop := false
	w.spawn("monitor", func() {
		for !stop {
			w.sleep(100 * time.Millisecond)
			last := len(op.Ports)
			c := w.connected()
			var p *Port
			if last > 0 {
				p = op.Ports[last-1]
			}
			if len(op.Ports) != last || p == nil || stop {
				continue
			}
			now := w.now()
			broken := p.failed != nil && p.rdfail || p.closed
			switch {
			case !broken:
				down = 0
			case down == 0:
				down = now
			}
			if broken && c && now > down+500*time.Millisecond+slack {
				w.fail("shown-connected", "the port failed before %v, but the connection is shown as connected at %v", down, now)
			}
			if broken {
				w.reach("monitored-while-down")
			}
			// it keeps trying
			if broken && now > down+8*time.Second && len(slow) == 0 {
				la := time.Duration(0)
				if len(attempts) > 0 {
					la = attempts[len(attempts)-1]
				}
				if now > la+8*time.Second {
					w.fail("gave-up", "the link is down since %v, and opening was last tried at %v, now it is %v\n%s", down, la, now, w.s.Dump())
				}
			}
		}
	})
	var onWrite, onOpen *Step
	st.onFrame = func(h *HostFrame) {
		if onWrite != nil && h.Port == op.cur() {
			s := *onWrite
			onWrite = nil
			w.fault("lost-during-write")
			w.s.After(time.Duration(s.C)*time.Millisecond, func() { lose(s) })
		}
	}
	op.OpenCb = func(p *Port) {
		if onOpen != nil {
			s := *onOpen
			onOpen = nil
			w.fault("lost-after-open")
			w.s.After(time.Duration(s.C)*time.Millisecond, func() { lose(s) })
		}
	}
	n := 0
	for _, s := range w.plan.Steps {
		w.sleepUntil(t0 + s.at())
		s := s
		switch s.Op {
		case "lose":
			lose(s)
		case "losewrite":
			onWrite = &s
		case "loseopen":
			onOpen = &s
			lose(Step{A: 0, B: 0})
		case "loseread":
			if p := op.cur(); p != nil {
				w.fault("lost-within-frame")
				f := rLevel(w.plan.Nodes[0].ID, 9)
				p.feed(f[:s.C%len(f)])
				w.sleep(time.Millisecond)
				lose(s)
			}
		case "slowopen":
			slow = append(slow, time.Duration(s.A)*time.Millisecond)
		case "req":
			reqs = append(reqs, w.request(n, n, s.A, s.N, time.Duration(s.B)*time.Millisecond, s.C != 0))
			n++
		case "ctl":
			calls = append(calls, w.spawnLib("control", func() { w.control(s) }))
		case "feed":
			if p := op.cur(); p != nil {
				p.send(s.bytes(), s.L)
			}
		}
	}
	// the faults stop
	w.sleep(time.Second)
	onWrite, onOpen = nil, nil
	w.sleep(500 * time.Millisecond)
	op.Delay = nil
	for {
		w.sleepUntil(openable)
		if w.now() >= openable {
			break
		}
	}
	st.faultEnd = w.now() + 1
	healed := w.now()
	// an opening that is under way may still take its time
	if !w.waitFor(15*time.Second, 100*time.Millisecond, func() bool { return w.connected() && op.cur() != nil }) {
		w.fail("not-restored", "the port can be opened since %v, but at %v it is not connected\n%s", healed, w.now(), w.s.Dump())
	}
	w.reach(fmt.Sprintf("restored-within-%ds", (w.now()-healed)/time.Second+1))
	w.sleep(time.Second)
	p := op.cur()
	if p == nil {
		w.fail("not-restored", "the port that was opened again is closed without a failure")
	}
	for _, q := range op.Ports {
		if q != p && !q.closed {
			w.fail("two-open-ports", "port %d is still open besides port %d", q.idx, p.idx)
		}
	}
	// every call made meanwhile returns, and commands go out and reports are handled as ever
	for _, r := range reqs {
		if !r.Call.wait(60*time.Second + time.Duration(len(reqs)+len(calls))*11*time.Second) {
			w.fail("call-blocks", "a request issued at %v has not finished at %v\n%s", r.CalledAt, w.now(), w.s.Dump())
		}
	}
	for _, c := range calls {
		if !c.wait(60 * time.Second) {
			w.fail("call-blocks", "a control call has not returned at %v\n%s", w.now(), w.s.Dump())
		}
	}
	w.sleep(12 * time.Second)
	nd := w.plan.Nodes[0]
	known := w.node(nd.ID) != nil
	acks := len(st.acks)
	p.feed(rLevel(nd.ID, 63))
	w.sleep(time.Second)
	if len(st.acks) == acks {
		w.fail("no-ack", "a report after the link is restored was not acknowledged\n%s", w.s.Dump())
	}
	if s, ok := w.state(nd.ID); ok && known && s.Float["level"] != 63 {
		w.fail("not-applied", "a report after the link is restored was acknowledged, but not applied")
	} else if !ok && w.plan.k("discover") == 0 {
		w.fail("forgotten", "node %d is not known any more", nd.ID)
	}
	r := w.request(900, 0, qMan, nd.ID, 3*time.Second, true)
	st.asleep = nil
	w.sleep(12 * time.Second)
	if len(r.frames(st)) != 1 {
		w.fail("not-sent", "a command after the link is restored was transmitted %d times\n%s", len(r.frames(st)), w.s.Dump())
	}
	if r.Msgs != 1 || !r.Closed {
		w.fail("not-answered", "a request after the link is restored got %d answers (closed: %v)", r.Msgs, r.Closed)
	}
	stop = true
}

// C17

func genC17(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(0, 2), 0), K: map[string]int{}}
	p.Variant = g.picks("ok", "openfail", "openfail", "readfail", "readfail", "readfail", "unsure", "late", "nil", "slowfail", "eof")
	p.K["open"] = g.pick(0, 0, 1, 100, 500, 5000)
	switch p.Variant {
	case "readfail", "eof":
		p.K["ms"] = g.pick(0, 0, 1, 5, 20, 50, 99)
	case "unsure":
		p.K["ms"] = g.rng(100, 450)
	case "late":
		p.K["ms"] = g.rng(500, 4000)
	}
	if g.chance(0.4) {
		p.K["rd"] = 1 // writes fail as well
	}
	p.K["file"] = g.pick(0, 1, 2)
	if g.chance(0.3) {
		p.K["noise"] = 1
	}
	p.K["again"] = g.pick(0, 1, 2)
	return p
}

func runC17(w *World) {
	op := w.opener
	attempt := 0
	switch w.plan.k("file") {
	case 1:
		w.s.Disk.Put(configFile, configJSON(w.plan.Nodes))
	}
	file := ""
	if w.plan.k("file") > 0 {
		file = configFile
	}
	variant := w.plan.Variant
	op.Delay = func(int) time.Duration { return time.Duration(w.plan.k("open")) * time.Millisecond }
	op.Fail = func(int) error {
		if variant == "openfail" || variant == "slowfail" {
			w.fault("open-fails")
			return errNoPort
		}
		return nil
	}
	op.OpenCb = func(p *Port) {
		if w.plan.k("noise") == 1 {
			p.feed([]byte{0x01, 0x09, 0x00, 0x04, 0x15})
		}
		switch variant {
		case "readfail", "unsure", "late", "eof":
			w.fault("fails-after-open")
			ms := time.Duration(w.plan.k("ms")) * time.Millisecond
			w.s.After(ms, func() { p.fail(0) })
			if ms == 0 {
				p.fail(0)
			}
		}
	}
	if variant == "slowfail" {
		w.plan.K["open"] = 9000
	}
	connect := func() error {
		if variant == "nil" {
			var c *gozwave.Controller
			var err error
			call := w.spawnLib("connect", func() {
				c, err = gozwave.ConnectWithCustomPortOpener("/dev/ttySIM", file, nil)
			})
			if !call.wait(5 * time.Second) {
				w.fail("connect-hangs", "connecting without an opener did not return")
			}
			if c != nil && err == nil {
				w.fail("connect-nil", "connecting without an opener succeeded")
			}
			w.ctl = nil
			return err
		}
		return w.connect(file, 12*time.Second)
	}
	for attempt = 0; attempt <= w.plan.k("again"); attempt++ {
		start := w.now()
		calls := op.Calls
		err := connect()
		took := w.now() - start
		opened := time.Duration(w.plan.k("open")) * time.Millisecond
		if took > opened+3*time.Second {
			w.fail("slow-connect", "connecting took %v, opening the port took %v of it", took, opened)
		}
		switch variant {
		case "ok", "late":
			if err != nil {
				w.fail("connect-error", "the port could be opened and stays up, but connecting failed: %v", err)
			}
		case "openfail", "slowfail", "readfail", "nil", "eof":
			if err == nil {
				w.fail("connect-succeeds", "connecting succeeded although the port %s", map[string]string{"openfail": "could not be opened", "slowfail": "could not be opened", "nil": "is missing", "readfail": "failed before the connection was up", "eof": "failed before the connection was up"}[variant])
			}
		}
		if err == nil {
			w.reach("connected")
			p := op.cur()
			if variant == "ok" {
				if p == nil {
					w.fail("no-port", "connecting succeeded without an open port")
				}
				if !w.connected() {
					w.fail("not-connected", "connecting succeeded, but it is not shown as connected")
				}
				w.drainEvents()
				w.sleep(3 * time.Second)
				if len(w.stick.frames) == 0 {
					w.fail("not-working", "the controller returned does not send anything")
				}
			}
			if variant == "late" || variant == "unsure" {
				w.drainEvents()
				// it is a working controller: the link is restored
				variant2 := variant
				variant = "ok"
				w.plan.K["open"] = 0
				if !w.waitFor(15*time.Second, 100*time.Millisecond, func() bool { return op.cur() != nil && w.connected() }) {
					w.fail("not-restored", "connecting succeeded, but after the port failed it is not opened again\n%s", w.s.Dump())
				}
				w.reach("restored-after-" + variant2)
			}
			return
		}
		w.reach("failed")
		if variant == "openfail" && !errors.Is(err, errNoPort) {
			w.reach("other-error")
		}
		if w.ctl != nil {
			w.reach("controller-with-error")
		}
		w.sleep(1500 * time.Millisecond)
		for _, p := range op.Ports {
			if !p.closed {
				w.fail("left-open", "connecting failed at %v, but port %d is still open", start+took, p.idx)
			}
		}
		before := op.Calls
		w.sleep(60 * time.Second)
		if op.Calls != before || op.Calls > calls+1 {
			w.fail("opened-again", "connecting failed at %v, but opening was tried %d times, last at %v", start+took, op.Calls-calls, op.lastCall)
		}
		if l := w.s.LiveLib(); len(l) > 0 {
			w.fail("left-running", "connecting failed at %v, but a minute later there is still running: %v\n%s", start+took, l, w.s.Dump())
		}
		if variant == "readfail" || variant == "eof" {
			if attempt+1 == w.plan.k("again") { // and another try later works
				variant = "ok"
			}
		} else if variant == "openfail" && attempt+1 == w.plan.k("again") {
			variant = "ok"
		}
	}
}
