package main

import (
	"fmt"
	"reflect"
	"sort"
	"syscall"
	"time"
	"unsafe"

	"gozwavesim/rt"
)

// C19: slow and absent clients.  C20: nothing is left behind.

func init() {
	register(&Scenario{ID: "C19", gen: genC19, run: runC19, stallMax: 20, stallSum: 60, quick: 6000, thorough: 200000})
	register(&Scenario{ID: "C20", gen: genC20, run: runC20, stallMax: 50, stallSum: 200, quick: 8000, thorough: 150000})
}

func genC19(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	p.K["events"] = g.pick(0, 0, 0, 1, 2) // never read, read, read slowly
	n := g.rng(0, 10)
	span := int64(g.pick(1, 300_000, 2_000_000))
	for k := 0; k < n; k++ {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 1))), Op: "req", A: g.Intn(nKinds), N: p.Nodes[g.Intn(len(p.Nodes))].ID,
			B: g.pick(100, 300, 1000, 3000, 10000), C: g.pick(0, 0, 1)})
	}
	m := g.rng(2, 30)
	if i%40 == 3 {
		m = g.rng(500, 1200) // more events than any queue holds
		span = 4_000_000
	}
	for k := 0; k < m; k++ {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 1_000_000))), Op: "feed", X: hx(g.uniqueReport(nd.ID, k+1))})
	}
	if g.chance(0.6) {
		p.Fates = g.fates(3*n, 0.2, "late resp lost dup", 300)
	}
	return p
}

func runC19(w *World) {
	w.plan.K["nostates"] = 1
	w.plan.K["nodiscovery"] = 1
	w.s.Disk.Put(configFile, configJSON(w.plan.Nodes))
	w.mustConnect(configFile)
	st := w.stick
	switch w.plan.k("events") {
	case 0:
		w.fault("events-never-read")
	case 1:
		w.drainEvents()
	case 2:
		w.fault("events-read-slowly")
		ch := w.ctl.GetNextEvent()
		rt.SpawnLib("slow event client", func() {
			for {
				if _, ok := rt.Recv2((<-chan interface{})(ch)); !ok {
					return
				}
				rt.Sleep(700 * time.Millisecond)
			}
		})
	}
	w.sleep(1500 * time.Millisecond)
	st.answer = func(h *HostFrame) [][]byte {
		if w.plan.k("nodiscovery") == 1 && h.fn() == 0x13 {
			if h.payload()[0] == 0x26 || h.payload()[0] == 0x25 { // the answers must not change the state
				return [][]byte{fSendDataResp()}
			}
		}
		return st.defaultAnswer(h)
	}
	t0 := w.now()
	m := newModel()
	known := knownNodes(w.plan.Nodes)
	base := map[int]State{}
	for _, n := range w.plan.Nodes {
		base[n.ID], _ = w.state(n.ID)
	}
	uncollected := 0
	var reqs []*Req
	// every frame is acknowledged, at most as late as the uncollected responses allow
	p := w.opener.cur()
	fedFrames := 0
	base0 := len(st.acks)
	limit := func() time.Duration { return time.Duration(uncollected)*1100*time.Millisecond + 400*time.Millisecond }
	for _, s := range w.plan.Steps {
		w.sleepUntil(t0 + s.at())
		switch s.Op {
		case "req":
			r := w.request(len(reqs), len(reqs), s.A, s.N, time.Duration(s.B)*time.Millisecond, s.C == 1)
			reqs = append(reqs, r)
			if s.C == 0 {
				uncollected++
				w.fault("response-never-collected")
			}
		case "feed":
			b := s.bytes()
			m.apply(b, known)
			fedFrames++
			p.send(b, nil)
		}
	}
	// what the line delivered is handled within the time the uncollected responses account for
	w.sleep(limit())
	if got := len(st.acks) - base0; got < fedFrames {
		w.fail("not-acked", "%d frames were delivered and %d answers, only %d acknowledged %v later\n%s", fedFrames, st.answers, got, limit(), w.s.Dump())
	}
	for _, n := range w.plan.Nodes {
		exp := copyState(base[n.ID])
		for k, v := range m.bools[n.ID] {
			exp.Bool[k] = v
		}
		for k, v := range m.floats[n.ID] {
			exp.Float[k] = v
		}
		got, ok := w.state(n.ID)
		for k, v := range exp.Bool {
			if !ok || got.Bool[k] != v {
				w.fail("not-applied", "node %d has %v, the reports make it %v\n%s", n.ID, got, exp, w.s.Dump())
			}
		}
		for k, v := range exp.Float {
			if got.Float[k] != v && k != "temperature_" {
				w.fail("not-applied", "node %d has %v, the reports make it %v\n%s", n.ID, got, exp, w.s.Dump())
			}
		}
	}
	// the other requests complete
	w.settleReqs(reqs, time.Duration(len(reqs))*12*time.Second+30*time.Second)
	for _, r := range reqs {
		if !r.Returned {
			w.fail("call-blocks", "request %d has not returned\n%s", r.ID, w.s.Dump())
		}
		if !r.Collect {
			continue
		}
		if !r.Closed {
			w.fail("not-finished", "request %d, collected by its client, has not finished\n%s", r.ID, w.s.Dump())
		}
		at, ok := r.turn(st)
		if ok && r.ClosedAt > at+r.Limit+limit() {
			w.fail("late", "request %d had its turn at %v with a limit of %v, and finished at %v", r.ID, at, r.Limit, r.ClosedAt)
		}
		if ok && at > r.CalledAt+time.Duration(len(reqs))*1200*time.Millisecond+limit()+time.Duration(len(reqs))*11*time.Second {
			w.fail("late", "request %d was issued at %v and had its turn at %v", r.ID, r.CalledAt, at)
		}
		// an answer in time reaches its request
		if l := r.frames(st); len(l) == 1 && l[0].Ans && l[0].Fate.Dup == 0 && (r.Kind == qMan || r.Kind == qEnd || r.Kind == qDisc) &&
			l[0].AnsAt-l[0].At+limit() < r.Limit && r.Msgs == 0 {
			w.fail("no-answer", "request %d (kind %d) was answered at %v, %v after its turn, but got nothing", r.ID, r.Kind, l[0].AnsAt, l[0].AnsAt-l[0].At)
		}
	}
	// and the library is as good as ever
	w.sleep(12 * time.Second)
	st.faultEnd = 1
	nd := w.plan.Nodes[0]
	acks := len(st.acks)
	p.feed(rLevel(nd.ID, 41))
	w.sleep(300 * time.Millisecond)
	if len(st.acks) == acks {
		w.fail("no-ack", "a report is not acknowledged any more\n%s", w.s.Dump())
	}
	if s, _ := w.state(nd.ID); s.Float["level"] != 41 {
		w.fail("not-applied", "a report was acknowledged, but not applied")
	}
	r := w.request(900, 0, qMan, nd.ID, 3*time.Second, true)
	w.sleep(4 * time.Second)
	if r.Msgs != 1 || !r.Closed {
		w.fail("not-answered", "a request got %d answers (closed: %v)\n%s", r.Msgs, r.Closed, w.s.Dump())
	}
}

// C20

func genC20(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 3), 0), K: map[string]int{}}
	n := g.rng(5, 40)
	kinds := []string{}
	for _, k := range []string{"req", "req", "req", "ctl", "feed", "alarm", "unknown", "lose", "save", "badsave", "noise", "events"} {
		if g.chance(0.5) {
			kinds = append(kinds, k)
		}
	}
	if len(kinds) == 0 {
		kinds = []string{"req", "feed"}
	}
	for k := 0; k < n; k++ {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		s := Step{Op: kinds[g.Intn(len(kinds))], N: nd.ID, A: g.Intn(nKinds), B: g.pick(1, 50, 300, 1000), C: g.pick(0, 1), At: int64(k) * int64(g.pick(0, 1000, 100_000, 500_000))}
		switch s.Op {
		case "ctl":
			s.A, s.B, s.F = g.Intn(6), g.rng(1, 3), float64(g.Intn(100))
		case "feed":
			s.X = hx(g.uniqueReport(nd.ID, k))
		case "alarm":
			s.X = hx(rAlarm(nd.ID, byte(k), 0xff))
		case "unknown":
			s.X = hx(g.noEffect(p.Nodes))
		case "lose":
			s.A, s.B = 0, g.pick(0, 300, 2500)
		case "noise":
			s.X = hx(g.bytes(g.rng(1, 40)))
		case "badsave":
			s.A, s.B, s.C = g.rng(1, 8), g.pick(dfErr, dfShort), g.pick(0, 1, 100)
		}
		p.Steps = append(p.Steps, s)
	}
	if g.chance(0.7) {
		p.Fates = g.fates(60, 0.2, "nak can none late resp lost dup ck short werr", 1500)
	}
	p.K["rounds"] = g.rng(1, 2)
	p.K["deaddisk"] = g.pick(0, 0, 1, 2, 3)
	if g.chance(0.3) {
		p.K["nofile"] = 1
		var steps []Step
		for _, s := range p.Steps {
			if s.Op != "save" && s.Op != "badsave" {
				steps = append(steps, s)
			}
		}
		p.Steps = steps
	}
	return p
}

// census counts what can be reached from the controller, by type, and the sizes of its containers.
func (w *World) census() (map[string]int, map[string]int) {
	tasks := w.s.LiveLib()
	objs := map[string]int{}
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 60 || !v.IsValid() {
			return
		}
		t := v.Type()
		if p := t.PkgPath(); p == "gozwavesim/rt" || p == "gozwavesim/harness" || p == "main" {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			e := t.Elem()
			if p := e.PkgPath(); p == "gozwavesim/rt" || p == "gozwavesim/harness" || p == "main" {
				return
			}
			seen[v.Pointer()] = true
			objs["*"+e.String()]++
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			objs["elements of "+t.String()] += v.Len()
			if t.Elem().Kind() == reflect.Uint8 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			objs["entries of "+t.String()] += v.Len()
			for it := v.MapRange(); it.Next(); {
				walk(it.Key(), depth+1)
				walk(it.Value(), depth+1)
			}
		case reflect.Chan:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				objs["chan "+t.String()]++
				switch t.Elem().Kind() {
				case reflect.Bool, reflect.Int, reflect.Uint8, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Struct:
					if t.Elem().Size() <= 8 {
						break // a plain value in the channel's own, fixed buffer
					}
					fallthrough
				default:
					objs["items in "+t.String()] += rt.ChanLen(unsafe.Pointer(v.Pointer()))
				}
			}
		}
	}
	walk(reflect.ValueOf(w.ctl), 0)
	objs["open files"] = w.s.Disk.OpenFDs
	objs["files"] = len(w.s.Disk.Paths())
	return tasks, objs
}

func grown(a, b map[string]int) string {
	var l []string
	for k, n := range b {
		if n > a[k] {
			l = append(l, fmt.Sprintf("%s: %d before, %d after", k, a[k], n))
		}
	}
	sort.Strings(l)
	if len(l) == 0 {
		return ""
	}
	return fmt.Sprint(l)
}

func runC20(w *World) {
	st := w.stick
	if w.plan.k("nofile") == 1 { // the nodes are found over the air and stored nowhere
		w.mustConnect("")
		w.drainEvents()
		if !w.waitFor(120*time.Second, time.Second, func() bool {
			for _, n := range w.plan.Nodes {
				if x := w.node(n.ID); x == nil || w.identifiedAs(x, n) != "" {
					return false
				}
			}
			return true
		}) {
			return // what C10 is about
		}
		w.reach("without-a-file")
	} else {
		w.preload()
	}
	st.answer = func(h *HostFrame) [][]byte {
		return st.defaultAnswer(h)
	}
	// warm up: every kind of report and request once for every node, so that what is kept per node or
	// kind of value exists
	var warm []*Req
	for k, n := range w.plan.Nodes {
		p := w.opener.cur()
		for kind := range sensorKinds {
			p.feed(rSensor(n.ID, kind, 5))
			w.sleep(50 * time.Millisecond)
		}
		p.feed(rAlarm(n.ID, 3, 0xff))
		w.sleep(50 * time.Millisecond)
		p.feed(rLevel(n.ID, 50))
		w.sleep(50 * time.Millisecond)
		p.feed(rWakeUp(n.ID))
		w.sleep(50 * time.Millisecond)
		for kind := 0; kind < nKinds; kind++ {
			warm = append(warm, w.request(5000+k*100+kind, 0, kind, n.ID, time.Second, true))
			w.sleep(100 * time.Millisecond)
		}
	}
	for _, id := range []int{0, 1, 60, 222, 255} { // nodes nobody knows
		w.opener.cur().feed(rLevel(id, 1))
		w.sleep(50 * time.Millisecond)
	}
	w.lose(Step{A: 0, B: 0})
	idle := func() {
		if !w.waitFor(90*time.Second, 100*time.Millisecond, func() bool { return w.opener.cur() != nil && w.connected() }) {
			w.fail("not-restored", "the link is not restored\n%s", w.s.Dump())
		}
		w.sleep(90 * time.Second)
	}
	w.settleReqs(warm, 60*time.Second)
	if w.plan.k("nofile") == 0 {
		w.must("save-hangs", "saving", 60*time.Second, func() { w.ctl.SaveConfigurationToFile() })
	}
	idle()
	tasks0, objs0 := w.census()
	st.faultEnd = 0
	if n := len(st.frames); len(w.plan.Fates) > 0 {
		w.plan.Fates = append(make([]Fate, n), w.plan.Fates...)
	}
	var reqs []*Req
	for round := 0; round < w.plan.k("rounds"); round++ {
		t0 := w.now()
		dead := ""
		if round == w.plan.k("rounds")-1 && w.plan.k("nofile") == 0 {
			dead = []string{"", "write", "sync", "rename"}[w.plan.k("deaddisk")%4]
		}
		if dead != "" { // from here on the disk never writes again: whatever a save left behind stays
			w.s.Disk.Fault = func(op rt.DiskOp) rt.DiskFault {
				if op.Kind != dead {
					return rt.DiskFault{}
				}
				w.fault("dead-disk-" + op.Kind)
				return rt.DiskFault{Err: syscall.EIO}
			}
		}
		for _, s := range w.plan.Steps {
			w.sleepUntil(t0 + s.at())
			switch s.Op {
			case "req":
				reqs = append(reqs, w.request(len(reqs), len(reqs), s.A, s.N, time.Duration(s.B)*time.Millisecond, s.C == 1))
			case "ctl":
				s := s
				w.spawnLib("control", func() { w.control(s) })
			case "feed", "alarm", "unknown", "noise":
				if p := w.opener.cur(); p != nil {
					p.send(s.bytes(), nil)
				}
			case "lose":
				w.lose(s)
			case "save":
				w.spawnLib("save", func() { w.ctl.SaveConfigurationToFile() })
			case "badsave":
				w.spawnLib("save", func() { w.ctl.SaveConfigurationToFile() })
				if dead != "" {
					break
				}
				n := 0
				w.s.Disk.Fault = func(op rt.DiskOp) rt.DiskFault {
					// a file that cannot be removed stays
					if op.Kind == "remove" || op.Kind == "close" {
						return rt.DiskFault{}
					}
					if n++; n != s.A {
						return rt.DiskFault{}
					}
					w.fault("disk-error-" + op.Kind)
					if s.B == dfShort {
						return rt.DiskFault{Err: syscall.ENOSPC, Short: s.C}
					}
					return rt.DiskFault{Err: syscall.EIO}
				}
			case "events":
				w.ctl.GetNextEvent()
			}
		}
		if dead == "" {
			w.s.Disk.Fault = nil
		}
		w.settleReqs(reqs, 120*time.Second)
		idle()
	}
	for _, r := range reqs {
		if !r.Returned || r.Collect && !r.Closed {
			w.fail("not-finished", "request %d has not finished after 90 idle seconds\n%s", r.ID, w.s.Dump())
		}
	}
	tasks1, objs1 := w.census()
	for k := 0; k < 5 && objs1["files"]+objs1["open files"] > objs0["files"]+objs0["open files"]; k++ {
		w.sleep(7 * time.Second) // a save that is tried again may just be under way
		tasks1, objs1 = w.census()
	}
	if d := grown(tasks0, tasks1); d != "" {
		w.fail("goroutines", "all work is over for 90 s, but there are more goroutines than before it: %s\n%s", d, w.s.Dump())
	}
	if d := grown(objs0, objs1); d != "" {
		w.fail("objects", "all work is over for 90 s, but more is kept than before it: %s", d)
	}
	w.reach(fmt.Sprintf("compared-%d-operations", len(w.plan.Steps)*w.plan.k("rounds")/20*20))
}
