package main

import (
	"sort"
	"strings"
	"time"

	"gozwavesim/rt"
)

// C33: whatever fails, and for however long, it is tried again at a measured pace.

func init() {
	register(&Scenario{ID: "C33", gen: genC33, run: runC33, stallMax: 10, stallSum: 100, quick: 3000, thorough: 60000})
}

const (
	paceWindow = 9 * time.Second
	paceRest   = 150 * time.Second // after the last change everything that can be settled is
	paceFinal  = 200 * time.Second
)

var paceModes = []string{"", "nak", "none", "mute", "short", "ck", "mute", "nak"}

func genC33(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 6), []float64{0, 0, 0.3}[g.Intn(3)]), K: map[string]int{"nostates": 1}}
	p.K["ms"] = g.pick(20_000, 60_000, 200_000)
	span := int64(p.K["ms"]) * 1000
	for _, n := range p.Nodes {
		switch g.Intn(4) {
		case 0: // from the file
			p.K["known"]++
		}
		if g.chance(0.8) {
			p.Steps = append(p.Steps, Step{Op: "mode", N: n.ID, A: g.Intn(len(paceModes)), B: g.pick(0, 0, 0x41, 0x72, 0x60)})
		}
		for g.chance(0.3) {
			p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "mode", N: n.ID, A: g.Intn(len(paceModes)), B: g.pick(0, 0, 0x41, 0x72, 0x60)})
		}
		if n.Battery {
			for k := g.rng(0, 3); k > 0; k-- {
				p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "wake", N: n.ID})
			}
		}
	}
	if g.chance(0.4) { // the list of nodes
		p.Steps = append(p.Steps, Step{Op: "mode", N: 0, A: g.Intn(len(paceModes))})
		if g.chance(0.7) {
			p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "mode", N: 0})
		}
	}
	for k := g.rng(0, 30); k > 0; k-- {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "feed", N: p.Nodes[g.Intn(len(p.Nodes))].ID, A: g.rng(1, 98)})
	}
	if g.chance(0.3) { // changes all the time
		p.K["busy"] = g.pick(50, 700, 4000)
	}
	for k := g.rng(0, 4); k > 0; k-- {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "cmd", N: p.Nodes[g.Intn(len(p.Nodes))].ID, A: g.pick(qMan, qEnd, qSwitch, qLevel), B: g.pick(300, 3000)})
	}
	if g.chance(0.4) {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "lose", A: g.pick(0, 1, 900), B: g.pick(0, 2500, 30_000, 120_000)})
	}
	if g.chance(0.2) {
		p.K["diskerr"] = 1 // nothing can be saved for a while
	}
	if g.chance(0.3) {
		p.K["loseEnd"] = g.pick(1, 40_000, 250_000) // the link is lost in the end phase
	}
	sort.SliceStable(p.Steps, func(i, j int) bool { return p.Steps[i].At < p.Steps[j].At })
	return p
}

func runC33(w *World) {
	st := w.stick
	var opens []time.Duration
	w.opener.Delay = func(int) time.Duration { opens = append(opens, w.now()); return 0 }
	if k := w.plan.k("known"); k > 0 {
		w.s.Disk.Put(configFile, configJSON(w.plan.Nodes[:k]))
	}
	type mode struct{ kind, only int }
	modes := map[int]mode{}
	st.onFrame = func(h *HostFrame) {
		id, q := h.node(), 0
		switch c := h.payload(); {
		case h.fn() == 0x41 && len(h.Body) > 2:
			id, q = int(h.Body[2]), 0x41
		case len(c) > 0:
			q = int(c[0])
		}
		m := modes[id]
		if m.only != 0 && m.only != q {
			return
		}
		switch paceModes[m.kind] {
		case "nak":
			h.Fate = Fate{Ctl: "nak"}
		case "none":
			h.Fate = Fate{Ctl: "none", NoResp: true}
		case "mute":
			h.Fate = Fate{NoResp: true}
		case "short", "ck":
			h.Fate = Fate{Garble: paceModes[m.kind]}
		}
	}
	var creates []time.Duration
	diskerr := w.plan.k("diskerr") == 1
	w.s.Disk.Fault = func(op rt.DiskOp) rt.DiskFault {
		if !strings.HasPrefix(op.Path, configFile) {
			return rt.DiskFault{}
		}
		switch op.Kind {
		case "create", "rename":
			if op.Kind == "create" || strings.HasSuffix(op.Path, configFile) {
				creates = append(creates, w.now())
			}
			if diskerr {
				w.fault("disk-error")
				return rt.DiskFault{Err: errGone}
			}
		}
		return rt.DiskFault{}
	}
	for len(w.plan.Steps) > 0 && w.plan.Steps[0].At == 0 && w.plan.Steps[0].Op == "mode" {
		s := w.plan.Steps[0]
		modes[s.N] = mode{s.A, s.B}
		w.plan.Steps = w.plan.Steps[1:]
	}
	w.mustConnect(configFile)
	w.sleep(500 * time.Millisecond)
	t0 := w.now()
	value := map[int]int{}
	var all []*Req
	wakes := map[int][]time.Duration{}
	own := map[string]bool{} // what clients asked
	end := t0 + time.Duration(w.plan.k("ms"))*time.Millisecond
	if d := time.Duration(w.plan.k("busy")) * time.Millisecond; d > 0 {
		w.spawn("busy node", func() {
			for v := 1; w.now() < end; v++ {
				w.opener.cur().feed(rLevel(w.plan.Nodes[0].ID, byte(v%98+1)))
				value[w.plan.Nodes[0].ID] = v%98 + 1
				w.sleep(d)
			}
		})
	}
	for _, s := range w.plan.Steps {
		w.sleepUntil(t0 + s.at())
		switch s.Op {
		case "mode":
			modes[s.N] = mode{s.A, s.B}
			w.fault("device-changes-its-ways")
		case "feed":
			w.opener.cur().feed(rLevel(s.N, byte(s.A)))
			value[s.N] = s.A
		case "wake":
			w.opener.cur().feed(rWakeUp(s.N))
			wakes[s.N] = append(wakes[s.N], w.now())
		case "cmd":
			r := w.request(len(all), 0, s.A, s.N, time.Duration(s.B)*time.Millisecond, true)
			own[string(r.body)] = true
			all = append(all, r)
		case "lose":
			w.lose(s)
		}
	}
	w.sleepUntil(end)
	diskerr = false
	if !w.waitFor(200*time.Second, time.Second, func() bool { return w.opener.cur() != nil }) {
		w.fail("not-restored", "the link is not restored")
	}
	w.sleep(20 * time.Second)
	var fed []int // those that can tell their value now
	for _, n := range w.plan.Nodes {
		if value[n.ID] > 0 && w.ctl.Nodes.Get(n.ID) != nil {
			w.opener.cur().feed(rLevel(n.ID, byte(value[n.ID])))
			fed = append(fed, n.ID)
		}
	}
	w.sleep(paceRest)
	from := w.now()
	if ms := w.plan.k("loseEnd"); ms > 0 {
		w.lose(Step{B: ms})
	}
	// from here on nothing changes any more
	for k := 0; w.now() < from+paceFinal; k++ {
		for _, id := range fed {
			w.opener.cur().feed(rLevel(id, byte(value[id])))
			w.reach("report-of-no-change")
		}
		w.sleep([]time.Duration{7, 12, 15, 30}[(k+len(w.plan.Nodes))%4] * time.Second)
	}
	// what the library asks of its own accord
	asked := map[string][]*HostFrame{}
	var bodies []string
	for _, h := range st.frames {
		b := string(h.Body)
		if own[b] {
			continue
		}
		if asked[b] == nil {
			bodies = append(bodies, b)
		}
		asked[b] = append(asked[b], h)
	}
	most := 0
	for _, b := range bodies {
		l := asked[b]
		for i := range l {
			n := 0
			for _, h := range l[i:] {
				if h.At < l[i].At+paceWindow {
					n++
				}
			}
			if n > most {
				most = n
			}
			extra := 0
			id := l[i].node()
			for _, t := range wakes[id] {
				if t > l[i].At-paceWindow && t < l[i].At+paceWindow {
					extra++
				}
			}
			if n > 3+extra {
				w.fail("query-flood", "%x was transmitted %d times within %v from %v on (%d times in all)", b, n, paceWindow, l[i].At, len(l))
			}
		}
		if len(l) > 5 {
			w.reach("asked-again-and-again")
		}
	}
	burst := func(l []time.Duration, from time.Duration) int {
		best := 0
		for i, t := range l {
			n := 0
			for _, u := range l[i:] {
				if t >= from && u < t+paceWindow {
					n++
				}
			}
			if n > best {
				best = n
			}
		}
		return best
	}
	if n := burst(opens, 0); n > 12 {
		w.fail("open-flood", "the port was opened %d times within %v: %v", n, paceWindow, opens)
	}
	if len(opens) > 10 {
		w.reach("opened-again-and-again")
	}
	if n := burst(creates, 0); n > 4 {
		w.fail("save-flood", "the configuration was written %d times within %v: %v", n, paceWindow, creates)
	}
	if n := burst(creates, from+w.s.Stalled()); n > 0 {
		w.fail("needless-save", "the configuration was written though nothing had changed since %v: %v", from-paceRest, creates)
	}
	w.settleReqs(all, 60*time.Second)
}
