package main

import (
	"errors"
	"fmt"
	"syscall"
	"time"

	"github.com/stampzilla/gozwave/nodes"
	"gozwavesim/rt"
)

// C14: saving under crashes and disk errors.

func init() {
	register(&Scenario{ID: "C14", gen: genC14, run: runC14, stallMax: 0, quick: 8000, thorough: 300000})
}

// kinds of disk faults
const (
	dfNone  = iota
	dfErr   // one operation fails
	dfShort // one operation fails, a write after some bytes: the disk is full
	dfProc  // the process dies before the operation
	dfPower // the power fails before the operation
	dfSlow  // operations take a while
	dfDead  // this and all later operations fail
	dfKinds
)

func genC14(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0.2), K: map[string]int{"nostates": 1}}
	switch g.Intn(5) {
	case 0: // the first save ever
		p.K["discover"] = 1
	default:
		p.K["known"] = len(p.Nodes)
	}
	ctr := g.rng(1, 400)
	t := int64(0)
	add := func(s Step) { s.At = t; t += 1000; p.Steps = append(p.Steps, s) }
	for phase := g.rng(1, 4); phase > 0; phase-- {
		for k := g.rng(1, 3); k > 0; k-- {
			for n := g.rng(0, 4); n > 0; n-- {
				nd := p.Nodes[g.Intn(len(p.Nodes))]
				add(Step{Op: "change", X: hx(g.uniqueReport(nd.ID, ctr*g.pick(1, 1, 100)))})
				ctr++
			}
			s := Step{Op: "save", B: g.Intn(dfKinds), A: g.rng(1, 14), C: g.pick(0, 0, 1, 100, 1000, 5000), N: g.pick(1, 1, 1, 2, 3)}
			switch g.Intn(6) {
			case 0:
				s.Op = "auto" // the library saves by itself
			case 1:
				s.B = dfNone
			}
			add(s)
			if g.chance(0.4) {
				add(Step{Op: "save", B: dfNone, N: 1})
			}
			if g.chance(0.3) {
				add(Step{Op: "rest", A: g.pick(1, 12, 45)})
			}
			if g.chance(0.25) { // a change between saves that overlap
				nd := p.Nodes[g.Intn(len(p.Nodes))]
				add(Step{Op: "chase", X: hx(g.uniqueReport(nd.ID, ctr)), N: g.rng(1, 4), A: g.Intn(60), B: g.pick(0, 0, 1, 30), C: g.Intn(3)})
				if hold := p.Nodes[g.Intn(len(p.Nodes))]; hold.ID != nd.ID && g.chance(0.7) {
					// somebody works on another node meanwhile
					p.Steps[len(p.Steps)-1].L = []int{hold.ID}
				}
				ctr++
			}
		}
		add(Step{Op: "restart", B: g.pick(0, 0, 1)}) // killed or power loss
	}
	return p
}

func runC14(w *World) {
	disk := w.s.Disk
	type version struct {
		snap map[int]NodeSnap
		at   time.Duration // when it was the current one last
	}
	var cands []map[int]NodeSnap // what the file may hold as seen by a process
	var past []version           // versions that a power loss may bring back
	if w.plan.k("known") > 0 {
		k := w.plan.k("known")
		if k > len(w.plan.Nodes) {
			k = len(w.plan.Nodes)
		}
		disk.Put(configFile, configJSON(w.plan.Nodes[:k]))
		w.plan.K["nodiscovery"] = 1
	}
	w.mustConnect(configFile)
	cur := w.snapshot()
	cands = []map[int]NodeSnap{cur}
	w.drainEvents()
	if w.plan.k("discover") == 1 && w.plan.k("nodiscovery") == 0 {
		// nothing can be saved meanwhile
		disk.Fault = func(rt.DiskOp) rt.DiskFault { return rt.DiskFault{Err: syscall.EROFS} }
		w.sleep(5 * time.Second)
		w.plan.K["nodiscovery"] = 1
		w.sleep(40 * time.Second)
		disk.Fault = nil
		cur = w.snapshot()
	}
	has := func(l []map[int]NodeSnap, m map[int]NodeSnap) bool {
		for _, x := range l {
			if diffSnap(x, m) == "" {
				return true
			}
		}
		return false
	}
	// supersede: the file holds m for certain now
	supersede := func(m map[int]NodeSnap) {
		for _, x := range cands {
			if diffSnap(x, m) != "" {
				past = append(past, version{x, w.now()})
			}
		}
		cands = []map[int]NodeSnap{m}
	}
	may := func(m map[int]NodeSnap) {
		if !has(cands, m) {
			cands = append(cands, m)
		}
	}
	lastChange := w.now()
	crashed := false
	wasPower := false
	arm := func(s Step) *int {
		n := 0
		injected := new(int)
		disk.Fault = func(op rt.DiskOp) rt.DiskFault {
			n++
			f := rt.DiskFault{}
			if n < s.A || s.B == dfNone || crashed {
				return f
			}
			if n > s.A && s.B != dfSlow && s.B != dfDead {
				return f
			}
			*injected++
			switch s.B {
			case dfErr, dfDead:
				f.Err = syscall.EIO
				w.fault("disk-error-" + op.Kind)
			case dfShort:
				f.Err, f.Short = syscall.ENOSPC, s.C
				w.fault("disk-full-" + op.Kind)
			case dfProc, dfPower:
				f.Short = s.C
				f.Crash = "proc"
				if s.B == dfPower {
					f.Crash = "power"
					wasPower = true
				}
				w.fault("crash-" + f.Crash + "-" + op.Kind)
				f.Done = func() { crashed = true }
				w.s.Logf("crash %s at operation %d: %s %s", f.Crash, n, op.Kind, op.Path)
			case dfSlow:
				f.Delay = time.Duration(s.C) * time.Millisecond / 10
				w.fault("slow-disk")
			}
			if f.Err != nil {
				w.s.Logf("operation %d: %s %s fails: %v", n, op.Kind, op.Path, f.Err)
			}
			return f
		}
		return injected
	}
	// restart starts again, possibly after a crash that has already happened
	restart := func(power bool) {
		if !crashed {
			w.s.Crash()
			if power {
				disk.PowerLoss(rt.NewRand(mix(uint64(disk.Ops), uint64(w.now()), w.s.Steps())))
			}
		}
		disk.Fault = nil
		ok := append([]map[int]NodeSnap(nil), cands...)
		if power {
			w.fault("power-loss")
			for _, v := range past {
				ok = append(ok, v.snap) // not yet settled
			}
		} else {
			w.fault("kill-restart")
		}
		crashed, wasPower = false, false
		w.sleep(500 * time.Millisecond)
		w.events = nil
		w.mustConnect(configFile)
		got := w.snapshot()
		if !has(ok, got) {
			raw, _ := disk.Peek(configFile)
			if len(raw) > 200 {
				raw = append(raw[:200:200], "..."...)
			}
			w.fail("torn", "after the restart (power loss: %v) the nodes are neither those before nor those after the save: against the latest, %s\nfile: %s", power, diffSnap(ok[len(ok)-1], got), raw)
		}
		w.reach(fmt.Sprintf("restart-candidates-%d", len(ok)))
		supersede(got)
		if power {
			past = nil
		}
		cur = got
		w.drainEvents()
		w.sleep(1500 * time.Millisecond)
	}
	dirty := false
	for _, s := range w.plan.Steps {
		// what was written long ago has reached the platter by itself
		if len(past) > 0 && w.now()-past[len(past)-1].at >= 40*time.Second {
			disk.Settle()
			past = nil
		}
		switch s.Op {
		case "change":
			w.opener.cur().send(s.bytes(), nil)
			w.sleep(20 * time.Millisecond)
			lastChange = w.now()
			dirty = true
			w.sleep(100 * time.Millisecond)
			cur = w.snapshot()
		case "rest":
			w.sleep(time.Duration(s.A) * time.Second)
			if dirty && w.now() > lastChange+11*time.Second {
				supersede(cur) // saved by the library itself
				dirty = false
			}
		case "auto":
			if w.now() > lastChange+9500*time.Millisecond || !dirty {
				continue
			}
			w.sleepUntil(lastChange + 9500*time.Millisecond)
			inj := arm(s)
			w.waitFor(3*time.Second, 100*time.Millisecond, func() bool { return crashed })
			may(cur)
			if !crashed && s.B == dfSlow {
				w.sleep(20 * time.Second)
			}
			disk.Fault = nil
			if crashed {
				restart(wasPower)
			} else if *inj == 0 {
				supersede(cur)
			}
			dirty = false
		case "save":
			inj := arm(s)
			// the library may save by itself at the same time
			may(cur)
			type result struct {
				err  error
				call *Call
			}
			var rs []*result
			for k := 0; k < s.N || k == 0; k++ {
				r := &result{}
				ctl := w.ctl
				r.call = w.spawnLib("save", func() { r.err = ctl.SaveConfigurationToFile() })
				rs = append(rs, r)
			}
			ok := w.waitFor(60*time.Second, 10*time.Millisecond, func() bool {
				for _, r := range rs {
					if !r.call.done {
						return crashed
					}
				}
				return true
			})
			if !ok {
				w.fail("save-hangs", "a save has not returned after a minute\n%s", w.s.Dump())
			}
			disk.Fault = nil
			saved := false
			for _, r := range rs {
				if r.call.done && r.err == nil && !crashed {
					saved = true
				}
				if r.call.done && r.err != nil {
					w.reach("save-reported-error")
					if *inj == 0 || s.B == dfNone || s.B == dfSlow {
						w.fail("save-error", "saving failed without a disk error: %v", r.err)
					}
					if errors.Is(r.err, syscall.EIO) || errors.Is(r.err, syscall.ENOSPC) {
						w.reach("save-error-kind-kept")
					}
				}
			}
			if saved {
				supersede(cur)
				w.reach("saved")
			}
			if crashed {
				restart(wasPower)
				dirty = false
			}
		case "chase":
			may(cur)
			if s.B > 0 {
				disk.Fault = func(rt.DiskOp) rt.DiskFault {
					return rt.DiskFault{Delay: time.Duration(s.B) * time.Millisecond}
				}
				w.fault("slow-disk")
			}
			type result struct {
				err  error
				call *Call
			}
			var rs []*result
			ctl := w.ctl
			save := func() {
				r := &result{}
				r.call = w.spawnLib("save", func() { r.err = ctl.SaveConfigurationToFile() })
				rs = append(rs, r)
			}
			var held *nodes.Node
			if len(s.L) > 0 {
				held = ctl.Nodes.Get(s.L[0])
			}
			if held != nil {
				held.Lock()
			}
			for k := 0; k < s.N; k++ {
				save()
				for j := 0; j < s.A%20; j++ {
					rt.Gosched()
				}
			}
			w.opener.cur().feed(s.bytes())
			dirty = true
			lastChange = w.now()
			id := int(s.bytes()[5])
			old, _ := w.state(id)
			now := old
			for j := 0; j < 2000 && eqState(old, now); j++ {
				rt.Gosched()
				now, _ = w.state(id)
			}
			if eqState(old, now) { // it says nothing new, or it takes its time
				w.sleep(20 * time.Millisecond)
			}
			lastChange = w.now()
			for k := 0; k <= s.C; k++ {
				save()
				for j := 0; j < s.A%7; j++ {
					rt.Gosched()
				}
			}
			if held != nil {
				w.sleep(time.Millisecond)
				held.Unlock()
			}
			cur = w.snapshot()
			may(cur)
			if !w.waitFor(60*time.Second, 10*time.Millisecond, func() bool {
				for _, r := range rs {
					if !r.call.done {
						return false
					}
				}
				return true
			}) {
				w.fail("save-hangs", "a save has not returned after a minute\n%s", w.s.Dump())
			}
			disk.Fault = nil
			for _, r := range rs {
				if r.err != nil {
					w.fail("save-error", "saving failed without a disk error: %v", r.err)
				}
			}
			supersede(cur) // the last ones began after the change could be seen
			w.reach("saved-after-change")
			w.sleep(100 * time.Millisecond)
			if d := diffSnap(cur, w.snapshot()); d != "" {
				w.fail("harness", "a change too late: %s", d)
			}
		case "restart":
			if dirty && w.now() > lastChange+9*time.Second {
				may(cur)
			}
			restart(s.B == 1)
			dirty = false
		}
	}
	// a later save without faults succeeds
	disk.Fault = nil
	w.opener.cur().send(rSwitchBinary(w.plan.Nodes[0].ID, true), nil)
	w.opener.cur().send(rLevel(w.plan.Nodes[0].ID, 77), nil)
	w.sleep(200 * time.Millisecond)
	cur = w.snapshot()
	var err error
	w.must("save-hangs", "saving", 60*time.Second, func() { err = w.ctl.SaveConfigurationToFile() })
	if err != nil {
		w.fail("save-error", "the last save, without faults, failed: %v", err)
	}
	supersede(cur)
	restart(false)
	// and not only the process survives it
	w.sleep(45 * time.Second)
	disk.Settle()
	past = nil
	restart(true)
}
