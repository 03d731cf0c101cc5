package main

import (
	"fmt"
	"syscall"
	"time"

	"gozwavesim/rt"
)

// C27: changes reach the file although more of them keep coming.

func init() {
	register(&Scenario{ID: "C27", gen: genC27, run: runC27, stallMax: 100, stallSum: 500, quick: 4000, thorough: 120000})
}

// busyBound is how long a change may wait for the file.
const busyBound = 2 * time.Minute

func genC27(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0.25), K: map[string]int{"nostates": 1}}
	if g.chance(0.3) {
		p.K["coalesce"] = 1
	}
	if g.chance(0.4) {
		p.K["known"] = g.rng(0, len(p.Nodes)) // discovered as well
	} else {
		p.K["known"], p.K["nodiscovery"] = len(p.Nodes), 1
	}
	if g.chance(0.3) {
		p.K["slowdisk"] = g.pick(5, 100, 400)
	}
	if g.chance(0.3) && p.K["nodiscovery"] == 1 {
		p.K["nolist"] = 1 // the controller never says which nodes there are
	}
	// how far apart the changes of the house are
	gap := g.pick(1_000_000, 3_000_000, 5_000_000, 9_000_000, 9_900_000, 10_000_000, 10_100_000, 12_000_000)
	span := int64(g.rng(20, 420)) * 1_000_000
	ctr := 1
	for t := int64(0); t < span; {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		s := Step{At: t, Op: "feed", N: nd.ID, A: ctr, X: hx(rSensor(nd.ID, 0, ctr))}
		ctr++
		p.Steps = append(p.Steps, s)
		switch g.Intn(12) {
		case 0:
			t += int64(g.Intn(200_000))
		case 1:
			t += int64(g.Intn(10_000_000))
		default:
			t += int64(gap)
		}
	}
	for k := g.rng(1, 3); k > 0; k-- {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "kill", B: g.pick(0, 10, 700, 5000)})
	}
	if g.chance(0.3) {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "disk", A: g.pick(dfErr, dfShort), B: g.pick(1, 10, 40), C: g.pick(0, 1, 100)})
	}
	if g.chance(0.2) {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "save"})
	}
	p.Steps = append(p.Steps, Step{At: span, Op: "kill", B: 1})
	return p
}

func runC27(w *World) {
	disk := w.s.Disk
	slow := time.Duration(w.plan.k("slowdisk")) * time.Millisecond
	w.stick.asleep = map[int]bool{}
	for _, n := range w.plan.Nodes {
		w.stick.asleep[n.ID] = n.Battery
	}
	if w.plan.k("nolist") == 1 {
		w.stick.answer = func(h *HostFrame) [][]byte {
			if h.fn() == 0x02 {
				w.fault("no-list-of-nodes")
				return nil
			}
			return w.stick.defaultAnswer(h)
		}
	}
	if k := w.plan.k("known"); k > 0 {
		if k > len(w.plan.Nodes) {
			k = len(w.plan.Nodes)
		}
		disk.Put(configFile, configJSON(w.plan.Nodes[:k]))
	}
	var badFrom, badTo time.Duration = -1, -1
	var bad Step
	disk.Fault = func(op rt.DiskOp) rt.DiskFault {
		f := rt.DiskFault{Delay: slow}
		if slow > 0 {
			w.fault("slow-disk")
		}
		if w.now() >= badFrom && w.now() < badTo && op.Kind != "read" && op.Kind != "open" {
			f.Err = syscall.EIO
			if bad.A == dfShort {
				f.Err, f.Short = syscall.ENOSPC, bad.C
			}
			w.fault("disk-error-" + op.Kind)
		}
		return f
	}
	key := rSensorKey(0)
	type fed struct {
		at  time.Duration
		val float64
		ok  bool // seen in the node
	}
	history := map[int][]fed{} // what every node has reported
	known := map[int]time.Duration{}
	start := func() {
		w.slowConnect(slow)
		w.drainEvents()
	}
	start()
	// the configured nodes are there; the others are waited for
	look := func() {
		for it, id, n := rt.RangeMap3(w.ctl.Nodes.All()); it.Valid(); id, n = it.Next() {
			if _, ok := known[id]; !ok && n != nil {
				known[id] = w.now()
			}
		}
	}
	kill := func(pause time.Duration) {
		w.must("list-hangs", "reading all nodes", 30*time.Second, look)
		at := w.now()
		w.s.Crash()
		safe := at - busyBound - 20*slow
		if badTo >= safe-busyBound && badFrom >= 0 {
			safe = badFrom - busyBound
		}
		w.fault("kill-restart")
		badTo = w.now() // the disk works when the process is started again
		w.sleep(pause)
		w.events = nil
		start()
		for _, n := range w.plan.Nodes {
			since, ok := known[n.ID]
			if !ok || since > safe {
				continue
			}
			snap, ok := w.state(n.ID)
			if !ok {
				w.fail("node-lost", "node %d, known for %v, is not in the file", n.ID, at-since)
			}
			h := history[n.ID]
			oldest := -1 // of the reports that the file may hold
			for i, f := range h {
				if f.ok && f.at <= safe {
					oldest = i
				}
			}
			if oldest < 0 {
				continue
			}
			w.reach(fmt.Sprintf("saved-while-busy-%d", (at-h[oldest].at)/time.Minute))
			got, ok := snap.Float[key]
			for _, f := range h[oldest:] {
				if ok && eqFloat(f.val, got) {
					ok = false
					got = f.val
					oldest = -2
					break
				}
			}
			if oldest >= 0 {
				w.fail("not-saved", "node %d: the report of %v ago (%v) is lost, the file has %v", n.ID, at-h[oldest].at, h[oldest].val, snap)
			}
		}
		// what was restored is what there is now
		for _, n := range w.plan.Nodes {
			h := history[n.ID]
			snap, ok := w.state(n.ID)
			if !ok {
				delete(known, n.ID)
				delete(history, n.ID)
				continue
			}
			got, ok := snap.Float[key]
			keep := 0
			for i, f := range h {
				if ok && eqFloat(f.val, got) {
					keep = i + 1
				}
			}
			history[n.ID] = h[:keep]
		}
	}
	last := int64(0)
	for _, s := range w.plan.Steps {
		if d := time.Duration(s.At-last) * time.Microsecond; d > 0 {
			w.sleep(d)
		}
		last = s.At
		switch s.Op {
		case "feed":
			w.opener.cur().send(s.bytes(), nil)
			w.sleep(20 * time.Millisecond)
			x, ok := w.state(s.N)
			val := float64(s.A) / 10
			history[s.N] = append(history[s.N], fed{w.now(), val, ok && eqFloat(x.Float[key], val)})
			w.must("list-hangs", "reading all nodes", 30*time.Second, look)
		case "kill":
			kill(time.Duration(s.B) * time.Millisecond)
		case "disk":
			bad = s
			badFrom, badTo = w.now(), w.now()+time.Duration(s.B)*time.Second
		case "save":
			w.spawnLib("save", func() { w.ctl.SaveConfigurationToFile() })
		}
	}
}
