package main

import (
	"bytes"
	"time"

	"github.com/stampzilla/gozwave/events"
	"gozwavesim/rt"
)

// C24: the state of the devices is asked for. C25: events are about what can be seen.

func init() {
	register(&Scenario{ID: "C24", gen: genC24, run: runC24, stallMax: 50, stallSum: 200, quick: 15000, thorough: 200000})
	register(&Scenario{ID: "C25", gen: genC25, run: runC25, stallMax: 30, stallSum: 150, quick: 20000, thorough: 200000})
}

func genC24(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), []float64{0, 0.3}[g.Intn(2)]), K: map[string]int{"st": g.Intn(1 << 20)}}
	if g.chance(0.5) {
		p.K["coalesce"] = 1
	}
	if g.chance(0.6) {
		p.Fates = g.fates(60, []float64{0.05, 0.15, 0.3}[g.Intn(3)], "nak can none late resp lost dup short slow werr twice", g.pick(100, 1500, 2500))
	}
	switch g.Intn(3) {
	case 1:
		p.K["file"] = 1
		p.K["known"] = g.rng(1, len(p.Nodes))
	case 2:
		p.K["file"] = 1
		p.K["known"] = len(p.Nodes)
	}
	for k := g.rng(0, 5); k > 0; k-- { // somebody presses the button of a device
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(g.pick(3_000_000, 30_000_000))), Op: "press", N: nd.ID, A: g.Intn(100)})
	}
	return p
}

func runC24(w *World) {
	st := w.stick
	st.asleep = map[int]bool{}
	level := map[int]byte{}
	for _, n := range w.plan.Nodes {
		st.asleep[n.ID] = n.Battery
		v := (w.plan.k("st") >> uint(n.ID%13)) % 101
		if v == 100 {
			v = 0
		}
		level[n.ID] = byte(v)
	}
	asked := map[[2]int]int{}    // node, class
	reported := map[[2]int]int{} // answers and reports without a query
	lastAsked := map[int]time.Duration{}
	st.answer = func(h *HostFrame) [][]byte {
		id, p := h.node(), h.payload()
		if h.fn() == 0x13 && len(p) >= 2 && (p[0] == 0x25 && p[1] == 2 || p[0] == 0x26 && p[1] == 2 || p[0] == 0x31 && p[1] == 1) {
			asked[[2]int{id, int(p[0])}]++
			lastAsked[id] = w.now()
			if p[0] != 0x31 && st.spec(id) != nil && !st.asleep[id] {
				if h.Fate.NoResp || h.Fate.Garble != "" || h.Fate.Ctl == "nak" || h.Fate.Ctl == "can" {
					w.reach("state-answer-lost")
				} else {
					reported[[2]int{id, int(p[0])}]++
				}
				if p[0] == 0x25 {
					return [][]byte{fSendDataResp(), rSwitchBinary(id, level[id] > 0)}
				}
				return [][]byte{fSendDataResp(), rLevel(id, level[id])}
			}
		}
		return st.defaultAnswer(h)
	}
	// refused and cancelled frames are not answered, so the stick does not ask what they say
	st.onFrame = func(h *HostFrame) {
		if h.Fate.Ctl == "nak" || h.Fate.Ctl == "can" {
			if p := h.payload(); h.fn() == 0x13 && len(p) >= 2 && (p[0] == 0x25 && p[1] == 2 || p[0] == 0x26 && p[1] == 2 || p[0] == 0x31 && p[1] == 1) {
				asked[[2]int{h.node(), int(p[0])}]++
			}
		}
	}
	file := ""
	if w.plan.k("file") == 1 {
		file = configFile
		k := w.plan.k("known")
		if k > len(w.plan.Nodes) {
			k = len(w.plan.Nodes)
		}
		b := configJSON(w.plan.Nodes[:k])
		if w.plan.k("st")&7 < 3 { // as it was before the restart
			b = bytes.Replace(b, []byte(`"StateFloat": {}`), []byte(`"StateFloat": {"level": 55}`), -1)
			b = bytes.Replace(b, []byte(`"on": false`), []byte(`"on": true`), -1)
		}
		w.s.Disk.Put(configFile, b)
	}
	w.mustConnect(file)
	w.drainEvents()
	press := func(id int, v int) {
		n := st.spec(id)
		level[id] = byte(v)
		tell := func() {
			p := w.opener.cur()
			known := w.node(id) != nil
			if p == nil || !known {
				return
			}
			if n.has(0x25) {
				reported[[2]int{id, 0x25}]++
				p.feed(rSwitchBinary(id, level[id] > 0))
			}
			if n.has(0x26) {
				reported[[2]int{id, 0x26}]++
				p.feed(rLevel(id, level[id]))
			}
		}
		tell()
		// an answer under way may still tell the old value
		w.spawn("repeat", func() { w.sleep(8 * time.Second); tell() })
	}
	wake := func() {
		p := w.opener.cur()
		if p == nil {
			return
		}
		for _, n := range w.plan.Nodes {
			if n.Battery {
				w.fault("wake-up")
				st.asleep[n.ID] = false
				p.feed(rWakeUp(n.ID))
			}
		}
	}
	w.spawn("wake-ups", func() {
		for k := 0; k < 10; k++ {
			w.sleep(20 * time.Second)
			wake()
			w.sleep(12 * time.Second)
			for _, n := range w.plan.Nodes {
				st.asleep[n.ID] = n.Battery
			}
		}
	})
	for _, s := range w.plan.Steps {
		w.sleepUntil(s.at())
		if s.Op == "press" {
			w.fault("state-change")
			press(s.N, s.A)
		}
	}
	done := func() bool {
		for _, spec := range w.plan.Nodes {
			if n := w.node(spec.ID); n == nil || w.identifiedAs(n, spec) != "" {
				return false
			}
		}
		return true
	}
	if !w.waitFor(1500*time.Second, 5*time.Second, done) {
		w.reach("not-identified") // C10 and C11 decide that
		return
	}
	// now the last step of the identification: a sleeping device needs one more wake-up
	w.sleep(time.Duration(60+15*len(w.plan.Nodes)) * time.Second)
	for k := 0; k < 3; k++ {
		wake()
		w.sleep(11 * time.Second)
	}
	for _, n := range w.plan.Nodes {
		for _, c := range []int{0x25, 0x26, 0x31} {
			if n.has(byte(c)) && asked[[2]int{n.ID, c}] == 0 {
				w.fail("not-asked", "node %d is identified and supports class %02x, but was not asked for its state\n%s", n.ID, c, w.s.Dump())
			}
			if !n.has(byte(c)) && asked[[2]int{n.ID, c}] > 0 {
				w.fail("asked-unsupported", "node %d does not support class %02x, but was asked for it", n.ID, c)
			}
		}
		s, ok := w.state(n.ID)
		if !ok {
			w.fail("node-gone", "node %d is not known any more", n.ID)
		}
		on, lv := reported[[2]int{n.ID, 0x25}] > 0, reported[[2]int{n.ID, 0x26}] > 0
		if v, has := s.Bool["on"]; (on || lv) && (!has || v != (level[n.ID] > 0)) {
			w.fail("state", "node %d told that its level is %d, but on is %v (known: %v)", n.ID, level[n.ID], v, has)
		}
		if v, has := s.Float["level"]; lv && (!has || v != float64(level[n.ID])) {
			w.fail("state", "node %d told that its level is %d, but the level is %v (known: %v)", n.ID, level[n.ID], v, has)
		}
		if on || lv {
			w.reach("state-known")
		}
	}
}

// C25

func genC25(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0), K: map[string]int{"nostates": 1}}
	if i%50 == 7 {
		p.Nodes = g.manyNodes(g.rng(10, 40), 0)
	}
	p.Variant = g.picks("reports", "reports", "discovery", "file")
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	p.K["pause"] = g.pick(0, 0, 0, 1, 20, 200)
	if p.Variant == "reports" {
		t := int64(0)
		for k := g.rng(1, 30); k > 0; k-- {
			nd := p.Nodes[g.Intn(len(p.Nodes))]
			p.Steps = append(p.Steps, Step{At: t, Op: "level", N: nd.ID})
			if g.chance(0.3) {
				p.Steps = append(p.Steps, Step{At: t, Op: g.picks("save", "marshal", "list", "ctl", "hold"), N: nd.ID, A: g.pick(1, 30, 600, 1500, 4000)})
			}
			t += int64(g.pick(0, 0, 0, 100, 2000, 50_000, 900_000))
		}
		return p
	}
	if g.chance(0.5) {
		p.Fates = g.fates(40, 0.15, "nak can none late resp lost dup slow", 900)
	}
	for k := g.rng(0, 6); k > 0; k-- {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(3_000_000)), Op: "level", N: nd.ID})
	}
	return p
}

func runC25(w *World) {
	sent := map[int]int{}
	updates := map[int]int{}
	discovered := map[int]int{}
	counting := false
	client := func() {
		ctl := w.ctl
		rt.SpawnLib("event client", func() {
			ch := ctl.GetNextEvent()
			for {
				ev, ok := rt.Recv2((<-chan interface{})(ch))
				if !ok {
					return
				}
				id := 0
				switch e := ev.(type) {
				case events.NodeDiscoverd:
					id = e.Address
					discovered[id]++
					w.s.Logf("event discovered %d", id)
				case events.NodeUpdated:
					id = e.Address
					if counting {
						updates[id]++
					}
					w.s.Logf("event updated %d", id)
					if discovered[id] == 0 {
						w.reach("updated-before-discovered") // a report just after the node got into the list
					}
				default:
					w.fail("strange-event", "an event of the type %T was announced", ev)
				}
				k := updates[id]
				n := ctl.Nodes.Get(id)
				if n == nil {
					w.fail("unknown-node", "an event %T announces node %d, but it cannot be looked up\n%s", ev, id, w.s.Dump())
				}
				s := readState(n)
				if counting && int(s.Float["level"]) < k {
					w.fail("not-visible", "event %d announces an update of node %d, but the level is still %v (reports say 1, 2, 3...)", k, id, s.Float["level"])
				}
				w.reach("event-checked")
				if ms := w.plan.k("pause"); ms > 0 {
					rt.Sleep(time.Duration(ms) * time.Millisecond)
				}
			}
		})
	}
	base, held := time.Duration(0), time.Duration(0)
	switch w.plan.Variant {
	case "reports":
		w.plan.K["nodiscovery"] = 1
		w.s.Disk.Put(configFile, configJSON(w.plan.Nodes))
		w.mustConnect(configFile)
		client()
		w.sleep(1500*time.Millisecond + time.Duration(len(w.plan.Nodes)*w.plan.k("pause"))*time.Millisecond)
		counting = true
		base = w.now()
	case "file":
		w.s.Disk.Put(configFile, configJSON(w.plan.Nodes[:(len(w.plan.Nodes)+1)/2]))
		w.mustConnect(configFile)
		client()
	default:
		w.mustConnect("")
		client()
	}
	for _, s := range w.plan.Steps {
		s := s
		w.sleepUntil(base + s.at())
		switch s.Op {
		case "level":
			sent[s.N]++
			if p := w.opener.cur(); p != nil {
				p.feed(rLevel(s.N, byte(sent[s.N])))
			}
		case "save":
			w.spawnLib("saver", func() { w.ctl.SaveConfigurationToFile() })
		case "hold": // somebody looks at the node for a while
			held += time.Duration(s.A) * time.Millisecond
			n := w.ctl.Nodes.Get(s.N)
			w.spawnLib("slow reader", func() {
				n.RLock()
				rt.Sleep(time.Duration(s.A) * time.Millisecond)
				n.RUnlock()
			})
		case "list":
			w.spawnLib("lister", func() { w.ctl.Nodes.All() })
		case "marshal":
			w.spawnLib("marshaller", func() { rt.JSONMarshal(w.ctl) })
		case "ctl":
			w.spawnLib("control", func() { w.control(Step{N: s.N, A: 0, B: 1}) })
		}
	}
	if w.plan.Variant == "reports" {
		w.sleep(3*time.Second + held + time.Duration(len(w.plan.Steps)*w.plan.k("pause"))*time.Millisecond)
		for _, n := range w.plan.Nodes {
			if updates[n.ID] != sent[n.ID] {
				w.fail("count", "node %d sent %d reports, but %d updates were announced", n.ID, sent[n.ID], updates[n.ID])
			}
		}
	} else {
		w.sleep(90 * time.Second)
	}
	for _, n := range w.plan.Nodes {
		if discovered[n.ID] != 1 {
			w.fail("announced", "node %d was announced as discovered %d times", n.ID, discovered[n.ID])
		}
	}
}
