package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/serialapi"
)

// C10, C11: discovery and identification.

func init() {
	register(&Scenario{ID: "C10", gen: genC10, run: runC10, stallMax: 100, stallSum: 500, quick: 7000, thorough: 150000})
	register(&Scenario{ID: "C11", gen: genC11, run: runC11, stallMax: 50, stallSum: 200, quick: 20000, thorough: 150000})
}

func genC10(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(0, 6), 0), K: map[string]int{}}
	if i%40 == 11 {
		p.Nodes = g.manyNodes(g.rng(10, 25), 0)
	}
	if i%1000 == 31 {
		p.Nodes = g.manyNodes(231, 0)
	}
	if g.chance(0.5) {
		p.K["coalesce"] = 1
	}
	trouble := g.pick(0, 5, 20, 60) // seconds until the faults stop
	p.K["trouble"] = trouble
	if trouble > 0 {
		p.Fates = g.fates(80, []float64{0.05, 0.15, 0.35}[g.Intn(3)], "nak can none late resp lost dup ck short slow werr", g.pick(100, 1500, 3000))
		if g.chance(0.5) {
			g.losses(p, g.rng(1, 4), int64(trouble)*1_000_000)
		}
		// other traffic meanwhile
		for k := g.rng(0, 8); k > 0 && len(p.Nodes) > 0; k-- {
			nd := p.Nodes[g.Intn(len(p.Nodes))]
			p.Steps = append(p.Steps, Step{At: int64(g.Intn(trouble * 1_000_000)), Op: "feed", X: hx(g.goodFrame([]NodeSpec{nd}, k))})
		}
	}
	if g.chance(0.04) && len(p.Nodes) < 8 { // something does not answer for a long time
		trouble = g.pick(200, 600, 1500, 4000)
		p.K["trouble"] = trouble
		p.K["mute"] = g.rng(1, 4)
	}
	if g.chance(0.12) && len(p.Nodes) < 7 {
		p.K["slowdev"] = g.rng(1, 7) // which kinds of answers take long, always
	}
	switch g.Intn(3) {
	case 0: // nothing known before
	case 1: // some are known from the file
		p.K["file"] = 1
		p.K["known"] = g.rng(0, len(p.Nodes))
		if g.chance(0.5) { // and not completely
			p.K["part"] = g.rng(1, 1<<12-1)
		}
	case 2:
		p.K["file"] = 1
	}
	return p
}

// identifiedAs says what is missing in the library's idea of a device, "" if nothing.
func (w *World) identifiedAs(n *nodes.Node, spec NodeSpec) string {
	var pi *serialapi.FuncGetNodeProtocolInfo
	bad := ""
	w.must("read-hangs", "reading a node", 30*time.Second, func() {
		pi = n.ProtocolInfo()
		n.RLock()
		defer n.RUnlock()
		switch {
		case pi == nil:
			bad = "no protocol information"
		case pi.Basic != spec.Basic || pi.Generic != spec.Generic || pi.Specific != spec.Specific || pi.Listening == spec.Battery:
			bad = fmt.Sprintf("wrong protocol information %+v", *pi)
		case n.IsAwake == spec.Battery:
			bad = fmt.Sprintf("awake is %v", n.IsAwake)
		case n.ManufacurerSpecific == nil:
			bad = "no manufacturer"
		case n.ManufacurerSpecific.Manufacturer != fmt.Sprintf("%04x", spec.Man) || n.ManufacurerSpecific.Type != fmt.Sprintf("%04x", spec.Typ) || n.ManufacurerSpecific.ID != fmt.Sprintf("%04x", spec.Prod):
			bad = fmt.Sprintf("wrong manufacturer %s", n.ManufacurerSpecific)
		case n.Brand != productOf(spec).brand || n.Product != productOf(spec).product:
			bad = fmt.Sprintf("wrong brand and product %q %q", n.Brand, n.Product)
		}
		if bad != "" {
			return
		}
		set := map[byte]bool{}
		for _, c := range n.CommandClasses {
			set[byte(c.ID)] = true
		}
		if got, want := classList(set), fmt.Sprintf("%x", classesOf(spec)); got != want {
			bad = "command classes " + got + " instead of " + want
			return
		}
		if n.Endpoints == nil {
			bad = "no endpoints"
			return
		}
		if len(classesOf(spec)) == 0 && len(n.Endpoints) == 0 {
			return // the library asks nothing of a device without any class
		}
		if len(n.Endpoints) != spec.Endpoints {
			bad = fmt.Sprintf("%d endpoints instead of %d", len(n.Endpoints), spec.Endpoints)
			return
		}
		for i, e := range n.Endpoints {
			if e == nil || e.Id != i+1 {
				bad = fmt.Sprintf("endpoint %d is %+v", i+1, e)
				return
			}
		}
	})
	if bad != "" {
		return bad
	}
	for i := 1; i <= spec.Endpoints && len(classesOf(spec)) > 0; i++ {
		if e := n.Endpoint(i); e == nil || e.Id != i {
			return fmt.Sprintf("endpoint %d is not found", i)
		}
	}
	for _, i := range []int{0, -1, spec.Endpoints + 1} {
		if e := n.Endpoint(i); e != nil {
			return fmt.Sprintf("there is an endpoint %d of %d", i, spec.Endpoints)
		}
	}
	if id := n.GetID(); id != spec.ID {
		return fmt.Sprintf("it calls itself %d", id)
	}
	for k := 0; k < 4; k++ {
		g, s := spec.Generic^byte(k&1), spec.Specific^byte(k&2)
		if is := n.IsDeviceClass(g, s); is != (k == 0) {
			return fmt.Sprintf("IsDeviceClass(%#x, %#x) is %v, it is %#x %#x", g, s, is, spec.Generic, spec.Specific)
		}
	}
	for _, c := range []byte{0x20, 0x25, 0x26, 0x27, 0x31, 0x60, 0x71, 0x72, 0x80, 0x84, 0x86} {
		if has := n.HasCommand(commands.ZWaveCommand(c)); has != spec.has(c) {
			return fmt.Sprintf("HasCommand(%#x) is %v", c, has)
		}
	}
	return ""
}

func classList(set map[byte]bool) string {
	var l []byte
	for c := range set {
		l = append(l, c)
	}
	sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
	return fmt.Sprintf("%x", l)
}

func runC10(w *World) {
	w.stick.faultEnd = time.Duration(w.plan.k("trouble"))*time.Second + 1
	if w.plan.k("trouble") == 0 {
		w.stick.faultEnd = 1
	}
	if m := w.plan.k("slowdev"); m > 0 { // a slow network, but in time
		w.stick.onFrame = func(h *HostFrame) {
			p := h.payload()
			take := 0
			switch {
			case h.fn() == 0x02 && m&1 != 0:
				take = 4000
			case len(p) > 1 && p[0] == 0x72 && m&2 != 0:
				take = 8000
			case len(p) > 1 && p[0] == 0x60 && m&4 != 0:
				take = 1500
			}
			if h.Fate.RespMs < take {
				h.Fate.RespMs = take
			}
		}
	}
	if m := w.plan.k("mute"); m > 0 {
		w.stick.answer = func(h *HostFrame) [][]byte {
			p := h.payload()
			stage := 0
			switch {
			case h.fn() == 0x02:
				stage = 1
			case h.fn() == 0x41:
				stage = 2
			case len(p) > 1 && p[0] == 0x72:
				stage = 3
			case len(p) > 1 && p[0] == 0x60:
				stage = 4
			}
			if stage == m && w.now() < w.stick.faultEnd {
				w.fault("no-answer")
				return nil
			}
			return w.stick.defaultAnswer(h)
		}
	}
	file := ""
	if w.plan.k("file") == 1 {
		file = configFile
		if k := w.plan.k("known"); k <= len(w.plan.Nodes) {
			w.s.Disk.Put(configFile, partJSON(w.plan.Nodes[:k], w.plan.k("part")))
		}
	}
	w.mustConnect(file)
	w.drainEvents()
	for _, s := range w.plan.Steps {
		w.sleepUntil(s.at())
		switch s.Op {
		case "feed":
			if p := w.opener.cur(); p != nil {
				p.send(s.bytes(), s.L)
				w.fault("unrequested-input")
			}
		case "lose":
			w.lose(s)
		}
	}
	w.sleepUntil(w.stick.faultEnd)
	// the last loss may still last
	w.waitFor(10*time.Second, time.Second, func() bool { return !w.opener.Down })
	healed := w.now()
	why := ""
	done := func() bool {
		for _, spec := range w.plan.Nodes {
			n := w.node(spec.ID)
			if n == nil {
				why = fmt.Sprintf("node %d is not known", spec.ID)
				return false
			}
			if bad := w.identifiedAs(n, spec); bad != "" {
				why = fmt.Sprintf("node %d: %s", spec.ID, bad)
				return false
			}
		}
		return true
	}
	if !w.waitFor(200*time.Second+time.Duration(len(w.plan.Nodes))*2*time.Second, 2*time.Second, done) {
		w.fail("not-identified", "the faults stopped at %v, but at %v %s\n%s", healed, w.now(), why, w.s.Dump())
	}
	w.reach(fmt.Sprintf("identified-within-%ds", (int((w.now()-healed)/time.Second)/20+1)*20))
	w.sleep(25 * time.Second)
	if !done() {
		w.fail("undone", "identified at first, but later %s", why)
	}
	want := map[int]bool{}
	for _, spec := range w.plan.Nodes {
		want[spec.ID] = true
	}
	for _, id := range w.nodeIDs() {
		if !want[id] {
			w.fail("foreign-node", "node %d appeared, but the controller does not list it", id)
		}
	}
	for id := range want {
		if n := w.discovered(id); n != 1 {
			w.fail("announced", "node %d was announced as discovered %d times", id, n)
		}
	}
}

// C11

func genC11(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 3), 0.7), K: map[string]int{}}
	p.Nodes[0].Battery = true
	if g.chance(0.5) {
		p.K["coalesce"] = 1
	}
	if g.chance(0.5) {
		p.Fates = g.fates(40, []float64{0.05, 0.2}[g.Intn(2)], "nak can none late resp lost ck", g.pick(100, 1500))
	}
	if g.chance(0.3) {
		p.K["file"] = 1
		p.K["known"] = g.rng(1, len(p.Nodes))
	}
	if g.chance(0.5) { // wake-ups just when an answer arrives, so when the identification is about to wait
		p.K["early"] = g.rng(1, 3)
		p.K["earlyus"] = g.pick(0, 0, 0, 1, 200, 2000)
		p.K["earlydup"] = g.pick(0, 1, 4, 8) // the device repeats itself
	}
	n := g.rng(0, 9)
	t := int64(g.Intn(20_000_000))
	for k := 0; k < n; k++ { // while there may be faults
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		p.Steps = append(p.Steps, Step{At: t, Op: "wake", N: nd.ID})
		if g.chance(0.2) {
			p.Steps = append(p.Steps, Step{At: t + int64(g.pick(0, 1000, 300_000)), Op: "wake", N: nd.ID})
		}
		if g.chance(0.3) { // other reports from the sleeping device: it does not stay awake for them
			p.Steps = append(p.Steps, Step{At: t + int64(g.Intn(20_000_000)), Op: "level", N: nd.ID})
		}
		t += int64(g.pick(1_000_000, 13_000_000, 30_000_000, 90_000_000))
	}
	if g.chance(0.2) {
		g.losses(p, 1, t+1)
	}
	return p
}

func runC11(w *World) {
	st := w.stick
	last := int64(0)
	for _, s := range w.plan.Steps {
		if s.At > last {
			last = s.At
		}
	}
	st.faultEnd = time.Duration(last)*time.Microsecond + 1
	battery := map[int]bool{}
	st.asleep = map[int]bool{}
	for _, n := range w.plan.Nodes {
		if n.Battery {
			battery[n.ID] = true
			st.asleep[n.ID] = true
		}
	}
	wakes := map[int][]time.Duration{}
	queries := map[int][]time.Duration{}
	proto := map[int]time.Duration{}
	early := func(h *HostFrame, id int) {
		if w.plan.k("early") == 0 || h.N%w.plan.k("early") != 0 {
			return
		}
		d := 6 * time.Millisecond
		if h.Fate.RespMs > 0 {
			d = time.Duration(h.Fate.RespMs) * time.Millisecond
		}
		w.s.After(d+time.Duration(w.plan.k("earlyus"))*time.Microsecond, func() {
			p := w.opener.cur()
			if p == nil || p != h.Port {
				return
			}
			w.fault("wake-up-with-answer")
			wakes[id] = append(wakes[id], w.now())
			k := len(wakes[id])
			st.asleep[id] = false
			for n := w.plan.k("earlydup"); n >= 0; n-- {
				p.feed(rWakeUp(id))
			}
			w.s.After(10*time.Second, func() {
				if len(wakes[id]) == k {
					st.asleep[id] = true
				}
			})
		})
	}
	st.onFrame = func(h *HostFrame) {
		if h.fn() == 0x41 && len(h.Body) > 2 {
			id := int(h.Body[2])
			proto[id] = w.now()
			if battery[id] {
				early(h, id)
			}
		}
		id := h.node()
		if battery[id] {
			defer early(h, id)
		}
		if !battery[id] {
			return
		}
		ws := wakes[id]
		if len(ws) == 0 {
			w.fail("query-asleep", "node %d has not woken up yet, but was sent %x", id, h.Body)
		}
		if d := w.now() - ws[len(ws)-1]; d > 15*time.Second {
			w.fail("query-asleep", "node %d woke up last at %v, but was sent %x at %v", id, ws[len(ws)-1], h.Body, w.now())
		}
		queries[id] = append(queries[id], w.now())
	}
	file := ""
	if w.plan.k("file") == 1 {
		file = configFile
		k := w.plan.k("known")
		if k > len(w.plan.Nodes) {
			k = len(w.plan.Nodes)
		}
		w.s.Disk.Put(configFile, configJSON(w.plan.Nodes[:k]))
	}
	w.mustConnect(file)
	w.drainEvents()
	lastLoss := time.Duration(-1 << 60)
	complete := func(id int) bool {
		n := w.node(id)
		return n != nil && w.identifiedAs(n, *st.spec(id)) == ""
	}
	// wake lets a device report that it is awake; it then answers for ten seconds
	wake := func(id int) {
		p := w.opener.cur()
		if p == nil {
			return
		}
		w.fault("wake-up")
		// the library's state first: these calls may be pre-empted, and what follows may not
		n := w.node(id)
		known := n != nil && !complete(id) && n.ProtocolInfo() != nil
		now := w.now()
		// the identification surely waits for this wake-up
		waiting := known && proto[id] > 0 && now-proto[id] > 30*time.Second && now-lastLoss > 30*time.Second
		if qs := queries[id]; len(qs) > 0 && now-qs[len(qs)-1] < 25*time.Second {
			waiting = false
		}
		before := len(queries[id])
		wakes[id] = append(wakes[id], now)
		k := len(wakes[id])
		st.asleep[id] = false
		p.feed(rWakeUp(id))
		w.s.After(10*time.Second, func() {
			if len(wakes[id]) == k {
				st.asleep[id] = true
			}
		})
		if waiting {
			w.spawn("wake check", func() {
				w.sleep(3 * time.Second)
				if w.opener.cur() == p && len(queries[id]) == before && !complete(id) {
					w.fail("wake-ignored", "the identification of node %d was waiting, but its wake-up at %v let nothing be asked\n%s", id, now, w.s.Dump())
				}
				w.reach("wake-up-continues")
			})
		}
	}
	for _, s := range w.plan.Steps {
		w.sleepUntil(s.at())
		switch s.Op {
		case "wake":
			if battery[s.N] {
				wake(s.N)
			}
		case "level":
			if p := w.opener.cur(); p != nil {
				p.feed(rLevel(s.N, 20))
			}
		case "lose":
			lastLoss = w.now() + 10*time.Second
			w.lose(s)
		}
	}
	w.sleepUntil(st.faultEnd)
	w.sleep(60 * time.Second)
	// no faults any more: wake every device now and then
	missing := func() int {
		for _, n := range w.plan.Nodes { // in a fixed order
			if battery[n.ID] && !complete(n.ID) {
				return n.ID
			}
		}
		return 0
	}
	ids := []int{}
	for _, n := range w.plan.Nodes {
		if n.Battery {
			ids = append(ids, n.ID)
		}
	}
	for round := 0; round < 8 && missing() != 0; round++ {
		for _, id := range ids {
			wake(id)
			w.sleep(2 * time.Second)
		}
		w.sleep(30 * time.Second)
	}
	for _, n := range w.plan.Nodes {
		node := w.node(n.ID)
		if node == nil {
			w.fail("not-identified", "node %d is not known", n.ID)
		}
		if bad := w.identifiedAs(node, n); bad != "" {
			w.fail("not-identified", "node %d (battery %v) is not identified after 8 wake-ups without faults: %s\n%s", n.ID, n.Battery, bad, w.s.Dump())
		}
	}
	// and it stays quiet when everything is known and the devices sleep on
	w.sleep(60 * time.Second)
}
