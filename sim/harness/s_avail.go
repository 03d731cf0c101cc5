package main

import (
	"fmt"
	"time"

	"gozwavesim/rt"
)

// C28: what is known can be read at once, whatever devices, line, disk and other clients are doing.

func init() {
	register(&Scenario{ID: "C28", gen: genC28, run: runC28, stallMax: 20, stallSum: 200, quick: 5000, thorough: 150000})
}

// promptly is how long a call that only looks at what is known may take, not counting stalled threads.
const promptly = 100 * time.Millisecond

func genC28(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 5), []float64{0, 0.3}[g.Intn(2)]), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	switch g.Intn(4) {
	case 0:
		p.K["known"] = len(p.Nodes)
	case 1:
		p.K["known"], p.K["nodiscovery"] = len(p.Nodes), 1
	}
	p.K["events"] = g.pick(0, 1, 1)
	p.K["readers"] = g.rng(1, 4)
	p.K["gapUs"] = g.pick(300, 5000, 60_000, 400_000)
	span := int64(g.pick(300_000, 1_500_000, 6_000_000, 40_000_000, 150_000_000))
	if p.K["gapUs"] < 5000 && span > 6_000_000 {
		p.K["gapUs"] = 20_000
	}
	p.K["ms"] = int(span / 1000)
	add := func(s Step) {
		s.At = int64(g.Intn(int(span)))
		p.Steps = append(p.Steps, s)
	}
	any := func() int { return p.Nodes[g.Intn(len(p.Nodes))].ID }
	for _, kind := range []string{"feed", "feed", "req", "ctl", "query", "save", "lose", "alarm", "wake", "slowdisk", "slowopen", "crowd"} {
		if g.chance(0.5) {
			continue
		}
		switch kind {
		case "feed":
			for k := g.rng(1, 15); k > 0; k-- {
				add(Step{Op: "feed", X: hx(g.uniqueReport(any(), k))})
			}
		case "req":
			for k := g.rng(1, 4); k > 0; k-- {
				add(Step{Op: "req", N: any(), A: g.Intn(nKinds), B: g.pick(100, 1000, 3000, 30000), C: g.pick(0, 1, 1)})
			}
		case "ctl":
			for k := g.rng(1, 5); k > 0; k-- {
				add(Step{Op: "ctl", N: any(), A: g.Intn(6), B: g.rng(1, 3), F: float64(g.Intn(100))})
			}
		case "query":
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "query", N: any(), A: g.Intn(3)})
			}
		case "save":
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "save"})
			}
		case "lose":
			for k := g.rng(1, 2); k > 0; k-- {
				add(Step{Op: "lose", A: g.pick(0, 0, 1, 30, 900), B: g.pick(0, 300, 2500, 20000, 100000, 600000)})
			}
		case "alarm":
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "feed", X: hx(rAlarm(any(), byte(g.rng(1, 9)), 0xff))})
			}
		case "wake":
			for k := g.rng(1, 4); k > 0; k-- {
				add(Step{Op: "wake", N: any()})
			}
		case "slowdisk":
			p.K["slowdisk"] = g.pick(5, 300, 5000, 60000)
		case "slowopen":
			p.K["slowopen"] = g.pick(100, 4000, 60000)
		case "crowd": // more than any queue holds, for nobody or for slow clients
			if g.chance(0.3) {
				at := int64(g.Intn(int(span)))
				for k := g.rng(100, 700); k > 0; k-- {
					p.Steps = append(p.Steps, Step{At: at + int64(k)*2000, Op: "feed", X: hx(g.uniqueReport(any(), k))})
				}
			}
		}
	}
	if g.chance(0.7) {
		p.Fates = g.fates(80, []float64{0.05, 0.2, 0.4}[g.Intn(3)], "nak can none late resp lost dup short slow werr twice", g.pick(100, 1500, 2500))
		if g.chance(0.3) { // the line is stuck
			for k := g.rng(1, 3); k > 0; k-- {
				p.Fates[g.Intn(20)].WriteMs = g.pick(500, 3000, 20000, 90000)
			}
		}
	}
	if g.chance(0.1) {
		p.K["ackms"] = g.pick(1, 40, 600)
	}
	return p
}

// look is one call that reads what is known. What it returns is for other properties to judge.
func (w *World) look(kind, id int) {
	if kind == aHold { // is the link up?
		w.ctl.Connection.RLock()
		_ = w.ctl.Connection.Connected
		w.ctl.Connection.RUnlock()
		return
	}
	w.apiCall(Step{A: kind, N: id, B: id % 4}, nil)
}

func runC28(w *World) {
	st := w.stick
	st.asleep = map[int]bool{}
	for _, n := range w.plan.Nodes {
		st.asleep[n.ID] = n.Battery
	}
	if k := w.plan.k("known"); k > 0 {
		if k > len(w.plan.Nodes) {
			k = len(w.plan.Nodes)
		}
		w.s.Disk.Put(configFile, configJSON(w.plan.Nodes[:k]))
	}
	w.mustConnect(configFile)
	if w.plan.k("events") == 1 {
		w.drainEvents()
	} else {
		w.fault("events-never-read")
	}
	slow := time.Duration(w.plan.k("slowdisk")) * time.Millisecond
	if slow > 0 {
		w.s.Disk.Fault = func(rt.DiskOp) rt.DiskFault {
			w.fault("slow-disk")
			return rt.DiskFault{Delay: slow}
		}
	}
	if ms := w.plan.k("slowopen"); ms > 0 {
		w.opener.Delay = func(int) time.Duration {
			w.fault("slow-open")
			return time.Duration(ms) * time.Millisecond
		}
	}
	kinds := []int{aGet, aAll, aRead, aMarshalNode, aMarshalList, aMarshalController, aAccessors, aEndpoint, aEvents, aHold}
	names := []string{"Nodes.Get", "Nodes.All", "reading a node", "serialising a node", "serialising the list", "serialising the controller", "the accessors of a node", "Node.Endpoint", "GetNextEvent", "reading Connected"}
	stop := false
	t0 := w.now()
	end := t0 + time.Duration(w.plan.k("ms"))*time.Millisecond
	type reader struct {
		busy    bool
		what    int
		node    int
		since   time.Duration
		stalled time.Duration
	}
	var readers []*reader
	judge := func(r *reader) {
		if d := w.now() - r.since - (w.s.Stalled() - r.stalled); d > promptly {
			w.fail("waits", "%s (node %d), called at %v, takes %v\n%s", names[r.what], r.node, r.since, d, w.s.Dump())
		}
	}
	looks := 0
	for k := 0; k < w.plan.k("readers"); k++ {
		r := &reader{}
		readers = append(readers, r)
		k := k
		rt.SpawnLib(fmt.Sprintf("reader %d", k), func() {
			for i := k; !stop; i++ {
				r.what, r.node = (i*7+i/10)%len(kinds), w.plan.Nodes[i%len(w.plan.Nodes)].ID
				r.since, r.stalled = w.now(), w.s.Stalled()
				r.busy = true
				w.look(kinds[r.what], r.node)
				r.busy = false
				judge(r)
				looks++
				gap := time.Duration(w.plan.k("gapUs")) * time.Microsecond
				if i > 150+k { // the first ones closely
					gap += time.Duration(w.plan.k("ms")) * 10 * time.Microsecond
				}
				switch {
				case i%5 == 0:
					rt.Gosched()
				case i%5 == 1:
					rt.Sleep(gap / 10)
				default:
					rt.Sleep(gap)
				}
			}
		})
	}
	w.spawn("monitor", func() { // of calls that do not return at all
		for !stop {
			for _, r := range readers {
				if r.busy {
					judge(r)
				}
			}
			w.sleep(150 * time.Millisecond)
		}
	})
	n := 0
	for _, s := range w.plan.Steps {
		s := s
		w.sleepUntil(t0 + s.at())
		p := w.opener.cur()
		switch s.Op {
		case "feed":
			if p != nil {
				p.feed(s.bytes())
			}
		case "wake":
			if spec := st.spec(s.N); p != nil && spec != nil && spec.Battery {
				w.fault("wake-up")
				st.asleep[s.N] = false
				p.feed(rWakeUp(s.N))
				w.s.After(8*time.Second, func() { st.asleep[s.N] = true })
			}
		case "req":
			if s.C == 0 {
				w.fault("response-never-collected")
			}
			w.request(n, n, s.A, s.N, time.Duration(s.B)*time.Millisecond, s.C == 1)
			n++
		case "ctl":
			w.spawnLib("control", func() { w.control(s) })
		case "query":
			w.spawnLib("query", func() {
				if n := w.ctl.Nodes.Get(s.N); n != nil {
					w.queryNode(n, s.A)
				}
			})
		case "save":
			ctl := w.ctl
			since, stalled := w.now(), w.s.Stalled()
			c := w.spawnLib("save", func() { ctl.SaveConfigurationToFile() })
			if slow == 0 && !c.wait(promptly+time.Duration(w.plan.k("stall"))*time.Millisecond+500*time.Millisecond) {
				if d := w.now() - since - (w.s.Stalled() - stalled); d > promptly {
					w.fail("save-waits", "saving, called at %v, takes %v\n%s", since, d, w.s.Dump())
				}
			}
		case "lose":
			w.lose(s)
		}
	}
	w.sleepUntil(end)
	w.sleep(3 * time.Second)
	stop = true
	w.sleep(time.Second)
	for _, r := range readers {
		if r.busy {
			judge(r)
		}
	}
	if w.opener.cur() == nil {
		w.reach("read-while-the-link-is-down")
	}
	w.reach(fmt.Sprintf("looks-%d", looks/100*100))
}
