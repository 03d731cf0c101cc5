package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/nodes"
	"gozwavesim/rt"
)

// C13, C14, C15: the configuration file.

func init() {
	register(&Scenario{ID: "C13", gen: genC13, run: runC13, stallMax: 100, stallSum: 500, quick: 5000, thorough: 150000})
}

// NodeSnap is everything about a node that a restart must bring back.
type NodeSnap struct {
	ID        int
	Awake     bool
	Man       string
	Brand     string
	Product   string
	Desc      string
	Classes   string
	Endpoints string
	State     string
}

func classSet(l []*database.CommandClass) string {
	set := map[byte]bool{}
	for _, c := range l {
		if c != nil {
			set[byte(c.ID)] = true
		}
	}
	return classList(set)
}

func (s State) String() string {
	var l []string
	for k, v := range s.Bool {
		l = append(l, fmt.Sprintf("%s=%v", k, v))
	}
	for k, v := range s.Float {
		l = append(l, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func snapNode(n *nodes.Node) NodeSnap {
	st := readState(n)
	n.RLock()
	defer n.RUnlock()
	s := NodeSnap{ID: n.Id, Awake: n.IsAwake, Brand: n.Brand, Product: n.Product, Desc: n.Description, Classes: classSet(n.CommandClasses), State: st.String()}
	if m := n.ManufacurerSpecific; m != nil {
		s.Man = fmt.Sprintf("%s/%s/%s", m.Manufacturer, m.Type, m.ID)
	}
	for _, e := range n.Endpoints {
		if e == nil {
			s.Endpoints += "nil;"
			continue
		}
		es := State{map[string]bool{}, map[string]float64{}}
		for it, k, v := rt.RangeMap3(e.StateBool); it.Valid(); k, v = it.Next() {
			es.Bool[k] = v
		}
		for it, k, v := rt.RangeMap3(e.StateFloat); it.Valid(); k, v = it.Next() {
			es.Float[k] = v
		}
		s.Endpoints += fmt.Sprintf("%d[%s %s];", e.Id, classSet(e.CommandClasses), es)
	}
	return s
}

// snapshot reads all nodes.
func (w *World) snapshot() map[int]NodeSnap {
	m := map[int]NodeSnap{}
	w.must("list-hangs", "reading all nodes", 30*time.Second, func() {
		for it, k, n := rt.RangeMap3(w.ctl.Nodes.All()); it.Valid(); k, n = it.Next() {
			if n != nil {
				m[k] = snapNode(n)
			}
		}
	})
	return m
}

// diffSnap tells what b lacks or changed against a, "" if nothing.
func diffSnap(a, b map[int]NodeSnap) string {
	var ids []int
	for id := range a {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		y, ok := b[id]
		if !ok {
			return fmt.Sprintf("node %d is missing", id)
		}
		if x := a[id]; x != y {
			return fmt.Sprintf("node %d was %+v, is %+v", id, x, y)
		}
	}
	ids = nil
	for id := range b {
		if _, ok := a[id]; !ok {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	if len(ids) > 0 {
		return fmt.Sprintf("node %d appeared", ids[0])
	}
	return ""
}

// manyNodes draws a large network.
func (g G) manyNodes(count int, battery float64) []NodeSpec {
	l := g.nodes(1, battery)
	used := map[int]bool{1: true, l[0].ID: true}
	for len(l) < count {
		id := g.rng(2, 232)
		if used[id] {
			continue
		}
		used[id] = true
		n := g.nodes(1, battery)[0]
		n.ID = id
		l = append(l, n)
	}
	return l
}

func genC13(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 5), 0.25), K: map[string]int{"nostates": 1}}
	if g.chance(0.1) {
		p.Nodes = g.manyNodes(g.pick(9, 10, 11, 12, 25), 0.1)
	}
	if i%1000 == 7 {
		p.Nodes = g.manyNodes(231, 0.1)
	}
	if g.chance(0.3) {
		p.K["coalesce"] = 1
	}
	switch g.Intn(3) {
	case 0: // nothing is known before
		p.K["discover"] = 1
	case 1: // known, and identified again after every start
		p.K["discover"] = 1
		p.K["known"] = g.rng(0, len(p.Nodes))
	default: // known; the controller lists nothing
		p.K["nodiscovery"] = 1
		p.K["known"] = len(p.Nodes)
	}
	if p.K["discover"] == 1 && len(p.Nodes) < 8 && g.chance(0.3) {
		// some devices never answer what the controller asks about them
		p.K["noproto"] = g.rng(0, len(p.Nodes))
	}
	t := int64(0)
	ctr := 1
	for phase := g.rng(1, 3); phase > 0; phase-- {
		gap := g.pick(0, 1_000, 100_000, 3_000_000, 9_900_000, 10_000_000, 10_100_000, 14_000_000)
		for k := g.pick(0, 1, 1, 2, 5, 12); k > 0; k-- {
			nd := p.Nodes[g.Intn(len(p.Nodes))]
			var b []byte
			if g.chance(0.15) {
				b = rAlarm(nd.ID, byte(g.pick(0, 1, 7, 200)), 0xff)
			} else if g.chance(0.1) {
				b = g.noEffect([]NodeSpec{nd})
			} else {
				b = g.uniqueReport(nd.ID, ctr*g.pick(1, 7, 111))
			}
			ctr++
			p.Steps = append(p.Steps, Step{At: t, Op: "feed", X: hx(b)})
			if g.chance(0.1) {
				p.Steps = append(p.Steps, Step{At: t, Op: "save"})
			}
			if g.chance(0.7) {
				t += int64(gap)
			} else {
				t += int64(g.Intn(11_000_000))
			}
		}
		t += 2_000_000
		p.Steps = append(p.Steps, Step{At: t, Op: "restart", A: g.pick(16, 16, 17, 21, 60), B: g.pick(0, 1, 700, 5000)})
		t += 100_000_000
	}
	if g.chance(0.3) {
		p.K["slowdisk"] = g.pick(5, 100, 600)
	}
	return p
}

func runC13(w *World) {
	st := w.stick
	silent := map[int]bool{}
	for i := 0; i < w.plan.k("noproto") && i < len(w.plan.Nodes); i++ {
		silent[w.plan.Nodes[i].ID] = true
	}
	st.asleep = map[int]bool{}
	for _, n := range w.plan.Nodes {
		if n.Battery {
			st.asleep[n.ID] = true
		}
	}
	st.answer = func(h *HostFrame) [][]byte {
		if h.fn() == 0x41 && len(h.Body) > 2 && silent[int(h.Body[2])] {
			w.fault("no-answer")
			return nil
		}
		return st.defaultAnswer(h)
	}
	slow := time.Duration(w.plan.k("slowdisk")) * time.Millisecond
	if slow > 0 {
		w.s.Disk.Fault = func(op rt.DiskOp) rt.DiskFault {
			w.fault("slow-disk")
			return rt.DiskFault{Delay: slow}
		}
	}
	if k := w.plan.k("known"); k > 0 {
		if k > len(w.plan.Nodes) {
			k = len(w.plan.Nodes)
		}
		w.s.Disk.Put(configFile, configJSON(w.plan.Nodes[:k]))
	}
	w.slowConnect(slow)
	w.drainEvents()
	settle := func() {
		if w.plan.k("discover") == 0 {
			w.sleep(2 * time.Second)
			return
		}
		// identification of devices that answer; the others are asked again and again
		ok := w.waitFor(600*time.Second, 2*time.Second, func() bool {
			for _, n := range w.plan.Nodes {
				x := w.node(n.ID)
				if x == nil {
					return false
				}
				if silent[n.ID] {
					continue
				}
				if n.Battery { // asleep all the time
					if x.ProtocolInfo() == nil {
						return false
					}
					continue
				}
				if w.identifiedAs(x, n) != "" {
					return false
				}
			}
			return true
		})
		if !ok {
			w.fail("not-identified", "the devices are not identified after ten minutes without faults")
		}
		w.sleep(25 * time.Second)
	}
	settle()
	for _, s := range w.plan.Steps {
		if s.Op == "restart" {
			w.sleep(1500 * time.Millisecond)
			w.restartC13(s, slow)
			settle()
			continue
		}
		// planned times are relative to the last restart
		w.sleep(0)
		switch s.Op {
		case "feed":
			w.waitGap(s)
			w.opener.cur().send(s.bytes(), s.L)
		case "save":
			w.waitGap(s)
			w.spawnLib("save", func() { w.ctl.SaveConfigurationToFile() })
		}
	}
}

// waitGap sleeps as long as the step is planned after the one before it.
func (w *World) waitGap(s Step) {
	prev := int64(-1)
	for _, x := range w.plan.Steps {
		if x.At < s.At && x.At > prev {
			prev = x.At
		}
	}
	if prev < 0 || s.At-prev > 20_000_000 {
		return
	}
	if w.lastGap == s.At {
		return
	}
	w.lastGap = s.At
	w.sleep(time.Duration(s.At-prev) * time.Microsecond)
}

func (w *World) restartC13(s Step, slow time.Duration) {
	w.sleep(time.Duration(s.A)*time.Second + 50*slow)
	before := w.snapshot()
	w.s.Logf("kill")
	w.fault("kill-restart")
	w.s.Crash()
	w.sleep(time.Duration(s.B) * time.Millisecond)
	w.events = nil
	first := len(w.stick.frames)
	connected := w.now()
	w.slowConnect(slow)
	after := w.snapshot()
	if w.now() > connected+5*time.Second+40*slow {
		w.fail("slow-start", "the start took %v", w.now()-connected)
	}
	w.drainEvents()
	if d := diffSnap(before, after); d != "" {
		w.fail("restore", "a restart %d s after the last change does not restore the nodes: %s", s.A, d)
	}
	// they can be controlled at once
	want := map[setCommand]int{}
	for k, spec := range w.plan.Nodes {
		if k > 6 {
			break
		}
		snap, ok := before[spec.ID]
		if !ok || snap.Classes != fmt.Sprintf("%x", classesOf(spec)) {
			continue
		}
		calls := []Step{{A: 0, N: spec.ID}}
		if strings.HasPrefix(snap.Endpoints, "1[") {
			calls = append(calls, Step{A: 4, N: spec.ID, B: 1})
		}
		for _, c := range calls {
			for _, x := range expectedSet(c, spec) {
				want[x]++
			}
			c := c
			w.must("control-hangs", "a control call after the restart", 30*time.Second, func() {
				if c.A >= 3 && w.ctl.Nodes.Get(c.N).Endpoint(1) == nil {
					w.fail("no-endpoint", "node %d has no endpoint 1 after the restart", c.N)
				}
				w.control(c)
			})
		}
	}
	w.sleep(3 * time.Second)
	for _, h := range w.stick.frames[first:] {
		if c, ok, _ := parseSet(h); ok {
			want[c]--
		}
	}
	for c, n := range want {
		if n != 0 {
			w.fail("not-controlled", "after the restart %v was sent %d times too few", c, n)
		}
	}
	for id := range before {
		if n := w.discovered(id); n != 1 {
			w.fail("announced", "node %d was announced %d times after the restart", id, n)
		}
	}
	w.reach(fmt.Sprintf("restored-%d", len(before)/5*5))
}

// slowConnect connects while every disk operation may take a while.
func (w *World) slowConnect(slow time.Duration) {
	if err := w.connect(configFile, 10*time.Second+40*slow); err != nil {
		w.fail("connect-error", "connecting to a healthy port failed: %v", err)
	}
}
