package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"gozwavesim/rt"
)

// C29: a client that follows the events knows all there is to know.

func init() {
	register(&Scenario{ID: "C29", gen: genC29, run: runC29, stallMax: 20, stallSum: 200, quick: 5000, thorough: 150000})
}

func genC29(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 5), []float64{0.2, 0.5}[g.Intn(2)]), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	switch g.Intn(5) {
	case 0:
		p.K["file"], p.K["known"] = 1, len(p.Nodes)
	case 1:
		p.K["file"], p.K["known"] = 1, g.rng(0, len(p.Nodes))
		if g.chance(0.5) {
			p.K["part"] = g.rng(1, 1<<12-1)
		}
	case 2:
		p.K["file"], p.K["known"], p.K["nodiscovery"] = 1, len(p.Nodes), 1
	case 3:
		p.K["file"] = 1
	}
	p.K["pauseMs"] = g.pick(0, 0, 0, 3, 300, 4000)
	p.K["everyMs"] = g.pick(100, 150, 400)
	span := int64(g.pick(2_000_000, 8_000_000, 20_000_000, 60_000_000))
	if span > 20_000_000 && p.K["everyMs"] < 400 {
		p.K["everyMs"] = 400
	}
	p.K["ms"] = int(span / 1000)
	add := func(s Step) {
		s.At = int64(g.Intn(int(span)))
		p.Steps = append(p.Steps, s)
	}
	any := func() int { return p.Nodes[g.Intn(len(p.Nodes))].ID }
	for _, kind := range []string{"feed", "burst", "query", "ctl", "lose", "alarm", "wake", "wake", "look"} {
		if g.chance(0.5) {
			continue
		}
		switch kind {
		case "feed":
			for k := g.rng(1, 10); k > 0; k-- {
				if g.chance(0.5) {
					add(Step{Op: "feed", X: hx(g.uniqueReport(any(), k))})
				} else {
					add(Step{Op: "feed", X: hx(g.goodFrame(p.Nodes, k))})
				}
			}
		case "burst": // many changes close together, then nothing
			at := int64(g.Intn(int(span)))
			id := any()
			gap := int64(g.pick(0, 200, 5000))
			for k := g.rng(2, 60); k > 0; k-- {
				p.Steps = append(p.Steps, Step{At: at, Op: "feed", X: hx(g.uniqueReport(id, k))})
				at += gap
				if g.chance(0.3) {
					id = any()
				}
			}
		case "query":
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "query", N: any(), A: g.Intn(3)})
			}
		case "ctl":
			for k := g.rng(1, 5); k > 0; k-- {
				add(Step{Op: "ctl", N: any(), A: g.Intn(6), B: g.rng(1, 3), F: float64(g.Intn(100))})
			}
		case "lose":
			add(Step{Op: "lose", A: g.pick(0, 0, 1, 30), B: g.pick(0, 300, 2500)})
		case "alarm":
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "feed", X: hx(rAlarm(any(), byte(g.rng(0, 9)), 0xff))})
			}
		case "wake":
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "wake", N: any()})
			}
		case "look": // other clients read meanwhile
			p.K["lookers"] = g.rng(1, 3)
		}
	}
	if g.chance(0.6) {
		p.Fates = g.fates(80, []float64{0.05, 0.2, 0.4}[g.Intn(3)], "nak can none late resp lost dup short slow werr twice", g.pick(100, 1500, 2500))
	}
	return p
}

// knownOf is all a client can read of a node.
func knownOf(n *nodes.Node) string {
	s := fmt.Sprintf("%+v", snapNode(n))
	if pi := n.ProtocolInfo(); pi != nil {
		s += fmt.Sprintf(" %+v", *pi)
	}
	return s
}

func runC29(w *World) {
	st := w.stick
	st.asleep = map[int]bool{}
	for _, n := range w.plan.Nodes {
		st.asleep[n.ID] = n.Battery
	}
	if w.plan.k("file") == 1 {
		k := w.plan.k("known")
		if k > len(w.plan.Nodes) {
			k = len(w.plan.Nodes)
		}
		if part := w.plan.k("part"); part != 0 {
			w.s.Disk.Put(configFile, partJSON(w.plan.Nodes[:k], part))
		} else {
			w.s.Disk.Put(configFile, configJSON(w.plan.Nodes[:k]))
		}
		w.mustConnect(configFile)
	} else {
		w.mustConnect("")
	}
	ctl := w.ctl
	pause := time.Duration(w.plan.k("pauseMs")) * time.Millisecond
	every := time.Duration(w.plan.k("everyMs")) * time.Millisecond
	if every < 50*time.Millisecond {
		every = 50 * time.Millisecond
	}
	stop := false
	mirror := map[int]string{}
	count := map[int]int{}
	rt.SpawnLib("event client", func() {
		ch := (<-chan interface{})(ctl.GetNextEvent())
		rested := -4 * pause
		for {
			ev, ok := rt.Recv2(ch)
			if !ok {
				return
			}
			if pause > 0 && w.now() > rested+3*pause { // it is busy, and takes all there is afterwards
				rt.Sleep(pause)
				rested = w.now()
			}
			id := 0
			switch e := ev.(type) {
			case events.NodeUpdated:
				id = e.Address
			case events.NodeDiscoverd:
				id = e.Address
			}
			n := ctl.Nodes.Get(id)
			if n == nil {
				w.fail("event-of-nothing", "the event %#v is about a node that is not there", ev)
				return
			}
			k := knownOf(n)
			mirror[id] = k
			count[id]++
			w.s.Logf("client: %T node %d", ev, id)
		}
	})
	type held struct {
		val     string
		since   time.Duration
		stalled time.Duration
		looks   int
		told    int
	}
	seen := map[int]*held{}
	look := func() {
		var ids []int
		all := ctl.Nodes.All()
		for it, k, n := rt.RangeMap3(all); it.Valid(); k, n = it.Next() {
			if n != nil {
				ids = append(ids, k)
			}
		}
		sort.Ints(ids)
		for _, id := range ids {
			now, stalled := w.now(), w.s.Stalled()
			v := knownOf(all[id])
			h := seen[id]
			if h == nil || h.val != v || mirror[id] == v {
				seen[id] = &held{v, now, stalled, 0, count[id]}
				continue
			}
			h.looks++
			if w.now()-h.since-(w.s.Stalled()-h.stalled) > 200*time.Millisecond+2*pause && h.looks >= 3 {
				if _, ok := mirror[id]; !ok {
					w.fail("undiscovered", "node %d is known since %v at the latest and no event told", id, h.since)
				} else {
					w.fail("unannounced", "node %d is known since %v at the latest as\n%s\nand a client that reads it at every event (%d until now) knows\n%s", id, h.since, v, count[id], mirror[id])
				}
				stop = true
				return
			}
		}
	}
	t0 := w.now()
	end := t0 + time.Duration(w.plan.k("ms"))*time.Millisecond
	c := w.spawnLib("monitor", func() {
		for !stop {
			look()
			rt.Sleep(every)
		}
	})
	for k := 0; k < w.plan.k("lookers"); k++ {
		k := k
		rt.SpawnLib(fmt.Sprintf("reader %d", k), func() {
			kinds := []int{aRead, aAll, aMarshalNode, aMarshalList, aAccessors, aHold}
			for i := k; !stop && i < 60; i++ {
				s := Step{A: kinds[i%len(kinds)], N: w.plan.Nodes[i%len(w.plan.Nodes)].ID, B: i % 6}
				w.apiCall(s, nil)
				rt.Sleep(time.Duration(37+i*11) * time.Millisecond)
			}
		})
	}
	for _, s := range w.plan.Steps {
		s := s
		w.sleepUntil(t0 + s.at())
		p := w.opener.cur()
		switch s.Op {
		case "feed":
			if p != nil {
				p.feed(s.bytes())
			}
		case "wake":
			if spec := st.spec(s.N); p != nil && spec != nil && spec.Battery {
				w.fault("wake-up")
				st.asleep[s.N] = false
				p.feed(rWakeUp(s.N))
				w.s.After(8*time.Second, func() { st.asleep[s.N] = true })
			}
		case "ctl":
			w.spawnLib("control", func() { w.control(s) })
		case "query":
			w.spawnLib("query", func() {
				if n := ctl.Nodes.Get(s.N); n != nil {
					w.queryNode(n, s.A)
				}
			})
		case "lose":
			w.lose(s)
		}
	}
	w.sleepUntil(end)
	w.sleep(2*time.Second + 5*pause)
	stop = true
	if !c.wait(2 * time.Second) {
		w.fail("monitor-hangs", "reading all nodes does not end\n%s", w.s.Dump())
	}
	total := 0
	for _, n := range w.plan.Nodes {
		total += count[n.ID]
	}
	if total > 0 {
		w.reach(fmt.Sprintf("events-followed-%d", total/20*20))
	}
}
