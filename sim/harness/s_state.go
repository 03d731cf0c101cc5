package main

import (
	"fmt"
	"sort"
	"time"

	"gozwavesim/rt"
)

// C08, C09: what reports do to the nodes.

func init() {
	register(&Scenario{ID: "C08", gen: genC08, run: runC08, stallMax: 20, stallSum: 60, quick: 16000, thorough: 200000})
	register(&Scenario{ID: "C09", gen: genC09, run: runC09, stallMax: 4, stallSum: 15, quick: 40000, thorough: 200000})
}

// uniqueReport draws a report whose value tells it apart from the node's earlier ones where possible.
func (g G) uniqueReport(n, i int) []byte {
	switch g.Intn(9) {
	case 0, 1:
		return rSwitchBinary(n, i%2 == 0)
	case 2:
		return report(n, 0x25, 0x03, byte(0xff*(i%2)), byte(0xff*(i/2%2)), byte(i%3))
	case 3, 4:
		return rLevel(n, byte(i%100))
	case 5:
		return report(n, 0x26, 0x03, byte(i%100), byte(i*37%100), byte(i%3))
	}
	return rSensor(n, g.Intn(len(sensorKinds)), 100+i*7)
}

// noEffect draws a frame that must change nothing.
func (g G) noEffect(nodes []NodeSpec) []byte {
	n := nodes[g.Intn(len(nodes))].ID
	switch g.Intn(14) {
	case 12: // a size no reading has
		return rReading(n, sensorKinds[g.Intn(len(sensorKinds))], g.pick(3, 5, 6, 7), g.Intn(3), int32(g.rng(1, 1000)))
	case 0: // nodes nobody knows
		return rSwitchBinary(g.pick(0, 1, 60, 222, 255), g.chance(0.5))
	case 1:
		return rLevel(g.pick(0, 1, 60, 222, 255), 33)
	case 2:
		return rSensor(g.pick(1, 60, 222), 0, 4242)
	case 3:
		return rAlarm(g.pick(1, 60, 222), 7, 0xff)
	case 4: // wrong length
		return report(n, 0x25, 0x03, 0xff, 0xff)
	case 5:
		return report(n, 0x26, 0x03)
	case 6:
		return report(n, 0x25, 0x03, 0xff, 0xff, 0, 0)
	case 7: // reading shorter than it says
		return report(n, 0x31, 0x05, 1, 1<<5|4, 0x7f, 0xff)
	case 8: // length that goes beyond the frame
		return frame(0x00, 0x04, 0x00, byte(n), byte(g.rng(4, 200)), 0x25, 0x03, 0xff)
	case 9: // unknown class and command
		return report(n, byte(g.pick(0x20, 0x80, 0x9b, 0x00)), 0x03, 0xff)
	case 10:
		return report(n, 0x25, byte(g.pick(1, 2, 9)), 0xff)
	case 11:
		return rWakeUp(n)
	}
	return rAlarm(n, 7, byte(g.pick(0, 1, 0xfe)))
}

func genC08(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0.2), K: map[string]int{}}
	if g.chance(0.5) {
		p.K["coalesce"] = 1
	}
	t := int64(0)
	ctr := 1
	last := map[int][]byte{}
	few := g.chance(0.4) // many reports for one node
	for k := g.rng(2, 9); k > 0; k-- {
		var b []byte
		for n := g.rng(1, 8); n > 0; n-- {
			if g.chance(0.2) {
				b = append(b, g.noEffect(p.Nodes)...)
				continue
			}
			nd := p.Nodes[g.Intn(len(p.Nodes))]
			if few {
				nd = p.Nodes[0]
			}
			f := g.uniqueReport(nd.ID, ctr)
			switch {
			case g.chance(0.15): // any reading
				f = rReading(nd.ID, moreSensorKinds[g.Intn(len(moreSensorKinds))], g.pick(1, 2, 4), g.Intn(8), int32(g.pick(0, 0, 1, -1, 100, -128, 127, ctr, -ctr*11, 1<<31-1, -1<<31)), g.bytes(g.pick(0, 0, 0, 1, 2, 5))...)
			case last[nd.ID] != nil && g.chance(0.15): // the same again
				f = last[nd.ID]
			}
			last[nd.ID] = f
			b = append(b, f...)
			ctr++
		}
		s := Step{At: t, Op: "group", X: hx(b)}
		if g.chance(0.5) {
			s.L = g.chunks(len(b), g.pick(0, 1000, 14_000))
		} else if g.chance(0.5) { // frame by frame
			fs, _ := splitFrames(b)
			for _, f := range fs {
				s.L = append(s.L, len(f), g.Intn(3000))
			}
		}
		p.Steps = append(p.Steps, s)
		t += int64(g.pick(300_000, 300_000, 500_000, 1_000_000))
	}
	// client calls meanwhile
	for k := g.rng(0, 12); k > 0; k-- {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		s := Step{At: int64(g.Intn(int(t + 1))), N: nd.ID}
		switch g.Intn(6) {
		case 0:
			s.Op, s.A, s.B = "req", g.pick(qMan, qSwitch, qSensor, qLevel, qEnd), g.pick(50, 300, 1000)
		case 1:
			s.Op, s.A, s.B, s.F = "ctl", g.Intn(6), 1, float64(g.Intn(100))
		case 2:
			s.Op = "save"
		case 3:
			s.Op, s.A = "hold", g.pick(0, 1, 20, 80, 80, 600, 1500, 4000) // a reader that takes its time
		case 4:
			s.Op = "list"
		case 5:
			s.Op = "marshal"
		}
		p.Steps = append(p.Steps, s)
	}
	p.K["samplers"] = g.rng(1, 3)
	p.K["sampleUs"] = g.pick(0, 300, 2000)
	p.Fates = g.fates(12, 0.1, "nak can none late", 100)
	return p
}

// nodeHist is the sequence of states the reports of one node lead to.
type nodeHist struct {
	states []State // states[k]: after k reports
	sent   int     // reports whose last byte was put on the line
	seen   int     // the newest state any reader has seen is at least this
	events int
}

func copyState(s State) State {
	c := State{map[string]bool{}, map[string]float64{}}
	for k, v := range s.Bool {
		c.Bool[k] = v
	}
	for k, v := range s.Float {
		c.Float[k] = v
	}
	return c
}
func eqState(a, b State) bool {
	if len(a.Bool) != len(b.Bool) || len(a.Float) != len(b.Float) {
		return false
	}
	for k, v := range a.Bool {
		if x, ok := b.Bool[k]; !ok || x != v {
			return false
		}
	}
	for k, v := range a.Float {
		if x, ok := b.Float[k]; !ok || !eqFloat(x, v) {
			return false
		}
	}
	return true
}

func runC08(w *World) {
	w.preload()
	w.stick.answer = func(h *HostFrame) [][]byte {
		if h.fn() == 0x02 {
			return [][]byte{fDiscovery(nil)}
		}
		if h.fn() == 0x13 {
			return [][]byte{fSendDataResp()}
		}
		return nil
	}
	known := knownNodes(w.plan.Nodes)
	hist := map[int]*nodeHist{}
	for _, n := range w.plan.Nodes {
		st, _ := w.state(n.ID)
		hist[n.ID] = &nodeHist{states: []State{st}}
	}
	m := newModel()
	// what the reports lead to, worked out in advance
	for _, s := range w.plan.Steps {
		if s.Op != "group" {
			continue
		}
		fs, _ := splitFrames(s.bytes())
		for _, f := range fs {
			if len(f) < 9 {
				continue
			}
			id := int(f[5])
			before := m.events[id]
			m.apply(f, known)
			if m.events[id] == before {
				continue
			}
			h := hist[id]
			st := copyState(h.states[len(h.states)-1])
			for k, v := range m.bools[id] {
				st.Bool[k] = v
			}
			for k, v := range m.floats[id] {
				st.Float[k] = v
			}
			h.states = append(h.states, st)
		}
	}
	// observe reads a node and places what it sees in the node's history
	observe := func(id, atLeast int) {
		h := hist[id]
		n := w.ctl.Nodes.Get(id)
		if n == nil {
			w.fail("node-gone", "node %d is not known any more", id)
		}
		n.RLock()
		st := State{map[string]bool{}, map[string]float64{}}
		for it, k, v := rt.RangeMap3(n.StateBool); it.Valid(); k, v = it.Next() {
			st.Bool[k] = v
		}
		for it, k, v := rt.RangeMap3(n.StateFloat); it.Valid(); k, v = it.Next() {
			st.Float[k] = v
		}
		from := h.seen
		if atLeast > from {
			from = atLeast
		}
		k := from
		for k < len(h.states) && !eqState(h.states[k], st) {
			k++
		}
		if k >= len(h.states) {
			why := "a state its reports never lead to"
			for j := range h.states {
				if eqState(h.states[j], st) {
					why = fmt.Sprintf("the state after report %d", j)
				}
			}
			if atLeast > h.seen {
				w.fail("event-before-state", "update event %d of node %d was announced, but the node shows %s: %v", atLeast, id, why, st)
			}
			w.fail("state-order", "node %d shows %s (%v), but the state after report %d was seen before", id, why, st, from)
		}
		h.seen = k
		n.RUnlock()
	}
	stop := false
	t0 := w.now()
	// the event client reads the node for each event
	rt.SpawnLib("event reader", func() {
		last := 0
		for !stop {
			for ; last < len(w.events); last++ {
				e := w.events[last]
				if h := hist[e.Node]; h != nil {
					h.events++
					observe(e.Node, h.events)
				}
			}
			rt.Sleep(5 * time.Millisecond)
		}
	})
	for k := 0; k < w.plan.k("samplers"); k++ {
		k := k
		rt.SpawnLib("sampler", func() {
			for i, s := range w.plan.Steps {
				if s.Op != "group" {
					continue
				}
				w.sleepUntil(t0 + s.at()) // closely while the reports come in, and now and then afterwards
				for j := 0; j < 40; j++ {
					observe(w.plan.Nodes[(i+j+k)%len(w.plan.Nodes)].ID, 0)
					gap := time.Duration(w.plan.k("sampleUs")+50) * time.Microsecond
					if j > 30 {
						gap = 20 * time.Millisecond
					}
					rt.Sleep(gap)
				}
			}
		})
	}
	nreq := 0
	held := time.Duration(0)
	for _, s := range w.plan.Steps {
		s := s
		w.sleepUntil(t0 + s.at())
		switch s.Op {
		case "group":
			w.opener.cur().send(s.bytes(), s.L)
			w.fault("report-burst")
		case "req":
			w.request(nreq, nreq, s.A, s.N, time.Duration(s.B)*time.Millisecond, true)
			nreq++
		case "ctl":
			w.spawnLib("control", func() { w.control(s) })
		case "save":
			w.spawnLib("save", func() { w.ctl.SaveConfigurationToFile() })
		case "hold":
			held += time.Duration(s.A) * time.Millisecond
			w.spawnLib("slow reader", func() {
				n := w.ctl.Nodes.Get(s.N)
				n.RLock()
				rt.Sleep(time.Duration(s.A) * time.Millisecond)
				n.RUnlock()
			})
		case "list":
			w.spawnLib("lister", func() { w.ctl.Nodes.All() })
		case "marshal":
			w.spawnLib("marshaller", func() { rt.JSONMarshal(w.ctl) })
		}
	}
	w.sleep(2*time.Second + held)
	stop = true
	for _, n := range w.plan.Nodes {
		h := hist[n.ID]
		st, ok := w.state(n.ID)
		if !ok {
			w.fail("node-gone", "node %d is not known any more", n.ID)
		}
		if want := h.states[len(h.states)-1]; !eqState(st, want) {
			w.fail("final-state", "node %d shows %v after %d reports, they lead to %v", n.ID, st, len(h.states)-1, want)
		}
		if e := w.updates(n.ID); e != len(h.states)-1 {
			w.fail("events", "node %d: %d reports were applied, but %d update events announced", n.ID, len(h.states)-1, e)
		}
	}
	ids := w.nodeIDs()
	if len(ids) != len(w.plan.Nodes) {
		w.fail("foreign-node", "the library knows nodes %v, but only %d exist", ids, len(w.plan.Nodes))
	}
}

// C09

func genC09(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 3), 0.3), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	t := int64(0)
	gaps := [][]int{{2600, 4000}, {1, 40, 200, 500}, {900, 980, 1000, 1001, 1020, 1100}, {5, 300, 999, 1000, 1300, 2600, 5000}}[g.Intn(4)]
	for k := g.rng(1, 10); k > 0; k-- {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		p.Steps = append(p.Steps, Step{At: t, Op: "alarm", N: nd.ID, A: g.pick(0, 1, 5, 6, 7, 7, 10), B: g.pick(0, 0, 0, 1, 2, 3, 5)})
		if g.chance(0.15) { // the device says it twice
			p.Steps = append(p.Steps, Step{At: t, Op: "alarm", N: nd.ID, A: 7})
		}
		for j := g.pick(0, 0, 1, 2); j > 0; j-- {
			nd := p.Nodes[g.Intn(len(p.Nodes))]
			p.Steps = append(p.Steps, Step{At: t + int64(g.Intn(1_200_000)), Op: "level", N: nd.ID})
		}
		t += int64(gaps[g.Intn(len(gaps))]) * 1000
	}
	for k := g.rng(0, 5); k > 0; k-- {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(t))), Op: g.picks("save", "marshal", "list", "get"), N: p.Nodes[0].ID})
	}
	if g.chance(0.15) { // the process ends at some time, and is started again
		p.Variant = "restart"
		at := int64(g.Intn(int(t) + 200_000))
		for k := range p.Steps {
			if p.Steps[k].Op == "level" && g.chance(0.3) {
				p.Steps[k].Op = "save"
			}
		}
		p.Steps = append(p.Steps, Step{At: at, Op: "restart", A: g.pick(0, 1, 50, 300, 900, 1500)})
		if g.chance(0.6) {
			p.Steps = append(p.Steps, Step{At: at - int64(g.pick(5, 10, 100, 600))*1000, Op: "save"})
		}
		if g.chance(0.3) { // just when the configuration is saved
			for k := range p.Steps {
				if p.Steps[k].Op == "alarm" || p.Steps[k].Op == "restart" {
					p.Steps[k].At += 9_800_000
				}
			}
			p.Steps = append(p.Steps, Step{At: 0, Op: "level", N: p.Nodes[0].ID})
		}
	}
	return p
}

// runC09restart lets the process end while alarms are raised and saved.
func runC09restart(w *World) {
	w.preload()
	t0 := w.now()
	const ms = time.Millisecond
	steps := append([]Step(nil), w.plan.Steps...)
	sort.SliceStable(steps, func(a, b int) bool { return steps[a].At < steps[b].At })
	raised := func(when string) {
		for _, n := range w.plan.Nodes {
			st, ok := w.state(n.ID)
			if !ok {
				w.fail("node-lost", "node %d from the configuration file is not known after the restart", n.ID)
			}
			if st.Bool["alarm"] || st.Float["alarm"] != 0 {
				w.fail("stuck", "the alarm of node %d is still raised %s: %v", n.ID, when, st)
			}
		}
	}
	for k := 0; k < len(steps); k++ {
		s := steps[k]
		w.sleepUntil(t0 + s.at())
		switch s.Op {
		case "alarm":
			w.fault("alarm")
			w.opener.cur().feed(rAlarmMore(s.N, byte(s.A), 0xff, s.B))
		case "level":
			w.opener.cur().feed(rLevel(s.N, byte(k%98+1)))
		case "save":
			w.spawnLib("save", func() { w.ctl.SaveConfigurationToFile() })
		case "restart":
			w.fault("kill-restart")
			w.s.Logf("kill")
			w.s.Crash()
			w.sleep(time.Duration(s.A) * ms)
			w.mustConnect(configFile)
			w.drainEvents()
			w.sleep(1500 * ms)
			raised("1.5 s after a restart, and no alarm came since")
			w.reach("lowered-after-restart")
			n := w.plan.Nodes[0]
			w.opener.cur().feed(rAlarm(n.ID, 7, 0xff))
			w.sleep(100 * ms)
			if st, _ := w.state(n.ID); !st.Bool["alarm"] || st.Float["alarmLastType"] != 7 {
				w.fail("not-raised", "the alarm of node %d after the restart did not raise the flag at once", n.ID)
			}
			w.sleep(1500 * ms)
			raised("1.5 s after its last alarm")
			t0 = w.now() - s.at()
		}
	}
	w.sleep(1500 * ms)
	raised("1.5 s after its last alarm")
}

func runC09(w *World) {
	if w.plan.Variant == "restart" {
		runC09restart(w)
		return
	}
	w.preload()
	t0 := w.now()
	type al struct {
		at  time.Duration
		typ int
	}
	alarms := map[int][]al{}
	levels := map[int]int{}
	lv := 0
	const ms = time.Millisecond
	flag := func(id int) bool {
		st, _ := w.state(id)
		return st.Bool["alarm"]
	}
	check := func(at time.Duration, f func()) {
		w.spawn("alarm check", func() { w.sleepUntil(at); f() })
	}
	for _, s := range w.plan.Steps {
		s := s
		w.sleepUntil(t0 + s.at())
		switch s.Op {
		case "alarm":
			at := w.now()
			alarms[s.N] = append(alarms[s.N], al{at, s.A})
			w.fault("alarm")
			w.opener.cur().feed(rAlarmMore(s.N, byte(s.A), 0xff, s.B))
			mine := len(alarms[s.N])
			check(at+35*ms, func() {
				for _, a := range alarms[s.N] {
					if d := at + 35*ms - a.at; a.at < at && d > 930*ms && d < 1400*ms {
						return // lowered for the earlier alarm in between
					}
				}
				if !flag(s.N) {
					w.fail("not-raised", "the alarm of node %d at %v did not raise the flag at once", s.N, at)
				}
				if s.A != 0 {
					if st, _ := w.state(s.N); st.Float["alarmLastType"] != float64(s.A) && len(alarms[s.N]) == mine {
						w.fail("type", "the alarm of node %d at %v has type %d, but %v is recorded", s.N, at, s.A, st.Float["alarmLastType"])
					}
				}
			})
			if i := mine - 2; i >= 0 && at-alarms[s.N][i].at < 2500*ms {
				break
			}
			check(at+800*ms, func() {
				if !flag(s.N) && len(alarms[s.N]) == mine {
					w.fail("lowered-early", "the alarm of node %d at %v was lowered within 0.8 s", s.N, at)
				}
			})
			check(at+1300*ms, func() {
				if flag(s.N) && len(alarms[s.N]) == mine {
					w.fail("not-lowered", "the alarm of node %d at %v was not lowered within 1.3 s, although no other alarm came", s.N, at)
				}
			})
		case "level":
			lv++
			v := lv%98 + 1
			levels[s.N]++
			n, at := levels[s.N], w.now()
			w.opener.cur().feed(rLevel(s.N, byte(v)))
			check(at+120*ms, func() {
				st, _ := w.state(s.N)
				if levels[s.N] != n { // reading the state may have been pre-empted
					return
				}
				if st.Float["level"] != float64(v) {
					w.fail("held-up", "a level report of node %d was not applied within 0.12 s", s.N)
				}
			})
		case "save":
			w.spawnLib("save", func() { w.ctl.SaveConfigurationToFile() })
		case "marshal":
			w.spawnLib("marshaller", func() { rt.JSONMarshal(w.ctl) })
		case "list":
			w.spawnLib("lister", func() { w.ctl.Nodes.All() })
		case "get":
			w.spawnLib("getter", func() { w.ctl.Nodes.Get(s.N) })
		}
	}
	w.sleep(1500 * ms)
	for _, n := range w.plan.Nodes {
		as := alarms[n.ID]
		if len(as) == 0 {
			continue
		}
		st, _ := w.state(n.ID)
		if st.Bool["alarm"] || st.Float["alarm"] != 0 {
			w.fail("stuck", "the alarm flag of node %d is still raised 1.5 s after its last alarm: %v", n.ID, st)
		}
		if last := as[len(as)-1]; last.typ != 0 && st.Float["alarmLastType"] != float64(last.typ) {
			w.fail("type", "the last alarm of node %d has type %d, but %v is recorded", n.ID, last.typ, st.Float["alarmLastType"])
		}
		bursts := 1
		for i := 1; i < len(as); i++ {
			if as[i].at-as[i-1].at > 1300*ms {
				bursts++
			}
		}
		lo, hi := len(as)+bursts+levels[n.ID], 2*len(as)+levels[n.ID]
		if e := w.updates(n.ID); e < lo || e > hi {
			w.fail("events", "node %d: %d alarms (%d apart) and %d other reports, but %d update events", n.ID, len(as), bursts, levels[n.ID], e)
		}
	}
}
