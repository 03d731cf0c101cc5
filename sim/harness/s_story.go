package main

import (
	"fmt"
	"syscall"
	"time"

	"gozwavesim/rt"
)

// C26: the whole system over several lives of the process, with every kind of trouble at once. When the
// trouble stops everything must agree again.

func init() {
	register(&Scenario{ID: "C26", gen: genC26, run: runC26, stallMax: 50, stallSum: 400, quick: 6000, thorough: 150000})
}

func genC26(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 5), []float64{0, 0.3}[g.Intn(2)]), K: map[string]int{}}
	if g.chance(0.5) {
		p.K["coalesce"] = 1
	}
	if g.chance(0.7) {
		p.Fates = g.fates(200, []float64{0.03, 0.1, 0.3}[g.Intn(3)], "nak can none late resp lost dup short slow werr twice", g.pick(100, 1500, 2500))
	}
	if g.chance(0.3) {
		p.K["known"] = g.rng(1, len(p.Nodes))
	}
	// swarm: the kinds of what happens
	var kinds []string
	for _, k := range []string{"press", "press", "wake", "ctl", "ctl", "req", "save", "save", "lose", "look", "disk", "sensor", "alarm"} {
		if g.chance(0.6) {
			kinds = append(kinds, k)
		}
	}
	kinds = append(kinds, "press")
	t := int64(0)
	for life := g.rng(1, 4); life > 0; life-- {
		// devices are identified within seconds: many lives end on the way there
		span := int64(g.pick(300_000, 1_000_000, 3_000_000, 12_000_000, 40_000_000, 120_000_000))
		var l []Step
		for k := g.rng(0, 14); k > 0; k-- {
			nd := p.Nodes[g.Intn(len(p.Nodes))]
			s := Step{At: t + int64(g.Intn(int(span))), Op: kinds[g.Intn(len(kinds))], N: nd.ID}
			switch s.Op {
			case "press", "sensor":
				s.A = g.Intn(100)
			case "alarm":
				s.A = g.rng(1, 9)
			case "ctl":
				s.A, s.B, s.F = g.Intn(6), g.rng(1, 3), float64(g.Intn(100))
			case "req":
				s.A, s.B, s.C = g.rng(qMan, nKinds-1), g.pick(10, 300, 1000, 3000), g.pick(0, 1, 1) // an answer with protocol information does not tell its node
			case "lose":
				s.A, s.B = g.pick(0, 0, 1, 30, 200, 900), g.pick(0, 0, 300, 1500, 6000, 20000)
			case "disk":
				s.A, s.B, s.C = g.rng(1, 12), g.pick(dfErr, dfShort, dfProc, dfPower, dfDead), g.pick(0, 1, 100, 2000)
			}
			l = append(l, s)
		}
		t += span
		p.Steps = append(p.Steps, l...)
		p.Steps = append(p.Steps, Step{At: t, Op: "end", A: g.pick(0, 0, 1), B: g.pick(0, 1, 700, 5000)})
		t++
	}
	return p
}

func runC26(w *World) {
	st, disk := w.stick, w.s.Disk
	st.asleep = map[int]bool{}
	st.strict = true
	level := map[int]byte{}
	for _, n := range w.plan.Nodes {
		st.asleep[n.ID] = n.Battery
		level[n.ID] = byte(n.ID % 90)
	}
	calm := false
	st.answer = func(h *HostFrame) [][]byte {
		id, p := h.node(), h.payload()
		n := st.spec(id)
		if h.fn() == 0x13 && n != nil && !st.asleep[id] && len(p) >= 2 {
			switch {
			case p[0] == 0x25 && p[1] == 2:
				return [][]byte{fSendDataResp(), rSwitchBinary(id, level[id] > 0)}
			case p[0] == 0x26 && p[1] == 2:
				return [][]byte{fSendDataResp(), rLevel(id, level[id])}
			case p[0] == 0x25 && p[1] == 1 && len(p) > 2 && !calm:
				level[id] = 0
				if p[2] > 0 {
					level[id] = 99
				}
			case p[0] == 0x26 && p[1] == 1 && len(p) > 2 && !calm && p[2] <= 99:
				level[id] = p[2]
			}
		}
		return st.defaultAnswer(h)
	}
	tell := func(id int) {
		p := w.opener.cur()
		n := st.spec(id)
		if p == nil || n == nil {
			return
		}
		if n.has(0x25) {
			p.feed(rSwitchBinary(id, level[id] > 0))
		}
		if n.has(0x26) {
			p.feed(rLevel(id, level[id]))
		}
	}
	wake := func(id int, long time.Duration) {
		p := w.opener.cur()
		if p == nil {
			return
		}
		w.fault("wake-up")
		st.asleep[id] = false
		p.feed(rWakeUp(id))
		w.s.After(long, func() { st.asleep[id] = true })
	}

	crashed, power := false, false
	arm := func(s Step) {
		n := 0
		disk.Fault = func(op rt.DiskOp) rt.DiskFault {
			n++
			f := rt.DiskFault{}
			if n < s.A || crashed || n > s.A && s.B != dfDead {
				return f
			}
			switch s.B {
			case dfErr, dfDead:
				f.Err = syscall.EIO
				w.fault("disk-error-" + op.Kind)
			case dfShort:
				f.Err, f.Short = syscall.ENOSPC, s.C
				w.fault("disk-full-" + op.Kind)
			case dfProc, dfPower:
				f.Short, f.Crash = s.C, "proc"
				if s.B == dfPower {
					f.Crash, power = "power", true
				}
				w.fault("crash-" + f.Crash + "-" + op.Kind)
				f.Done = func() { crashed = true }
			}
			return f
		}
	}
	lives := 0
	start := func() {
		lives++
		w.events = nil
		w.opener.Down = false
		for _, n := range w.plan.Nodes {
			st.asleep[n.ID] = n.Battery
		}
		w.mustConnect(configFile)
		w.drainEvents()
	}
	end := func(pow bool, gap int) {
		if !crashed {
			w.s.Crash()
			if pow {
				disk.PowerLoss(rt.NewRand(mix(uint64(disk.Ops), uint64(w.now()), w.s.Steps())))
			}
			power = pow
		}
		if power {
			w.fault("power-loss")
		} else {
			w.fault("kill-restart")
		}
		disk.Fault = nil
		crashed, power = false, false
		w.sleep(time.Duration(gap)*time.Millisecond + time.Millisecond)
	}
	if k := w.plan.k("known"); k > 0 {
		if k > len(w.plan.Nodes) {
			k = len(w.plan.Nodes)
		}
		disk.Put(configFile, configJSON(w.plan.Nodes[:k]))
	}
	start()
	// what is certainly in the file: a save returned without an error and the power stayed on
	var saved map[int]bool
	base, over := w.now(), false
	reqN := 0
	lost := time.Duration(0)
	for i, s := range w.plan.Steps {
		if over && s.Op != "end" {
			continue // the life this belongs to is over
		}
		w.sleepUntil(base + s.at())
		ctl := w.ctl
		if crashed {
			over = true
		}
		if over && s.Op != "end" {
			continue
		}
		s := s
		switch s.Op {
		case "press":
			level[s.N] = byte(s.A)
			w.fault("state-change")
			tell(s.N)
		case "sensor":
			if p := w.opener.cur(); p != nil {
				p.feed(rSensor(s.N, s.A, s.A*7))
			}
		case "alarm":
			if p := w.opener.cur(); p != nil {
				p.feed(rAlarm(s.N, byte(s.A), 0xff))
			}
		case "wake":
			if n := st.spec(s.N); n != nil && n.Battery {
				wake(s.N, 10*time.Second)
			}
		case "ctl":
			w.spawnLib("control", func() { w.control(s) })
		case "req":
			w.request(reqN, reqN, s.A, s.N, time.Duration(s.B)*time.Millisecond, s.C != 0)
			reqN++
		case "look":
			w.spawnLib("look", func() { rt.JSONMarshal(ctl); ctl.Nodes.All() })
		case "save":
			gen := w.s.Gen()
			w.spawnLib("save", func() {
				listed := map[int]bool{}
				for it, k, n := rt.RangeMap3(ctl.Nodes.All()); it.Valid(); k, n = it.Next() {
					if n != nil {
						listed[k] = true
					}
				}
				if err := ctl.SaveConfigurationToFile(); err == nil && gen == w.s.Gen() {
					saved = listed
					w.reach("saved")
				}
			})
		case "lose":
			w.lose(s)
			lost = w.now() + time.Duration(s.B)*time.Millisecond
		case "disk":
			arm(s)
		case "end":
			last := true
			for _, x := range w.plan.Steps[i+1:] {
				last = last && x.Op != "end"
			}
			if last {
				break // the last life goes on in peace
			}
			pow := s.A == 1
			if crashed {
				pow = power
			}
			end(pow, s.B)
			if pow {
				saved = nil // it need not have reached the platter yet
			}
			// planned times count from here on
			over = false
			start()
			base = w.now() - s.at()
			ids := map[int]bool{}
			for _, id := range w.nodeIDs() {
				ids[id] = true
			}
			for _, n := range w.plan.Nodes {
				if saved[n.ID] && !ids[n.ID] {
					w.fail("lost-node", "node %d was saved, but after a restart it is not known", n.ID)
				}
			}
			w.reach(fmt.Sprintf("restart-with-%d-nodes", len(ids)))
		}
	}
	if crashed {
		end(power, 100)
		start()
	}

	// the trouble stops
	disk.Fault = nil
	if d := lost - w.now(); d > 0 {
		w.sleep(d + time.Millisecond)
	}
	w.opener.Down = false
	st.faultEnd = w.now() + 1
	calm = true
	healed := w.now()
	w.s.Logf("calm")
	why := ""
	done := func() bool {
		for _, spec := range w.plan.Nodes {
			n := w.node(spec.ID)
			if n == nil {
				why = fmt.Sprintf("node %d is not known", spec.ID)
				return false
			}
			if bad := w.identifiedAs(n, spec); bad != "" {
				why = fmt.Sprintf("node %d (battery %v): %s", spec.ID, spec.Battery, bad)
				return false
			}
		}
		return true
	}
	rounds := 0
	for !done() {
		if rounds++; rounds > 20 {
			w.fail("not-converged", "the trouble stopped at %v, but at %v %s\n%s", healed, w.now(), why, w.s.Dump())
		}
		w.sleep(20 * time.Second)
		for _, n := range w.plan.Nodes {
			if n.Battery {
				wake(n.ID, 12*time.Second)
			}
		}
		w.sleep(15 * time.Second)
	}
	w.reach(fmt.Sprintf("converged-in-%d-rounds", rounds/4*4))
	// the queries at the end of an identification and late answers
	w.sleep(45 * time.Second)
	if !done() {
		w.fail("undone", "identified at first, but later %s", why)
	}
	want := map[int]bool{}
	for _, spec := range w.plan.Nodes {
		want[spec.ID] = true
	}
	for _, id := range w.nodeIDs() {
		if !want[id] {
			w.fail("foreign-node", "node %d appeared, but the controller does not list it", id)
		}
	}
	// everybody tells what it is now
	if w.opener.cur() == nil {
		w.fail("no-link", "the port is not open a minute after the trouble\n%s", w.s.Dump())
	}
	for k, n := range w.plan.Nodes {
		level[n.ID] = byte((k*17 + 5) % 99)
		tell(n.ID)
	}
	w.sleep(2 * time.Second)
	for _, n := range w.plan.Nodes {
		s, ok := w.state(n.ID)
		if !ok {
			w.fail("node-gone", "node %d is not known any more", n.ID)
		}
		if v := s.Bool["on"]; (n.has(0x25) || n.has(0x26)) && v != (level[n.ID] > 0) {
			w.fail("state", "node %d told that its level is %d, but on is %v", n.ID, level[n.ID], v)
		}
		if v := s.Float["level"]; n.has(0x26) && v != float64(level[n.ID]) {
			w.fail("state", "node %d told that its level is %d, but the level is %v", n.ID, level[n.ID], v)
		}
		if s.Bool["alarm"] || s.Float["alarm"] != 0 {
			w.fail("alarm-stays", "the alarm of node %d is still raised", n.ID)
		}
	}
	// every device can be controlled
	control := func() {
		first := len(st.frames)
		wants := map[setCommand]int{}
		for _, spec := range w.plan.Nodes {
			calls := []Step{{A: 0, N: spec.ID}, {A: 2, N: spec.ID, F: 41}}
			if spec.Endpoints > 0 && len(classesOf(spec)) > 0 {
				calls = append(calls, Step{A: 4, N: spec.ID, B: spec.Endpoints})
			}
			for _, c := range calls {
				for _, x := range expectedSet(c, spec) {
					wants[x]++
				}
				c := c
				w.must("control-hangs", "a control call", 30*time.Second, func() { w.control(c) })
			}
		}
		w.sleep(time.Duration(2+len(w.plan.Nodes)) * time.Second)
		for _, h := range st.frames[first:] {
			if c, ok, _ := parseSet(h); ok {
				wants[c]--
			}
		}
		bad := ""
		for c, n := range wants {
			if m := fmt.Sprintf("%v was sent %d times too few", c, n); n != 0 && (bad == "" || m < bad) {
				bad = m
			}
		}
		if bad != "" {
			w.fail("not-controlled", "%s", bad)
		}
	}
	control()
	// and the next life knows it all
	var err error
	w.must("save-hangs", "saving", 60*time.Second, func() { err = w.ctl.SaveConfigurationToFile() })
	if err != nil {
		w.fail("save-error", "saving failed when the trouble was over: %v", err)
	}
	before := w.snapshot()
	end(false, 300)
	start()
	if d := diffSnap(before, w.snapshot()); d != "" {
		w.fail("restore", "a restart does not restore the nodes: %s", d)
	}
	for _, n := range w.plan.Nodes {
		if k := w.discovered(n.ID); k > 1 {
			w.fail("announced", "node %d was announced %d times", n.ID, k)
		}
	}
	w.sleep(10 * time.Second)
	control()
	if l := len(w.nodeIDs()); l != len(want) {
		w.fail("list", "%d nodes instead of %d after the last restart", l, len(want))
	}
	w.reach(fmt.Sprintf("lives-%d", lives))
}
