package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	gozwave "github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands/reports"
	"gozwavesim/rt"
)

// C32: controllers in one process have nothing to do with each other.

func init() {
	register(&Scenario{ID: "C32", gen: genC32, run: runC32, stallMax: 15, stallSum: 150, quick: 10000, thorough: 200000})
}

func genC32(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 3), 0), K: map[string]int{"nostates": 1}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	p.K["split"] = len(p.Nodes)
	// the nodes of the second controller have, mostly, the numbers of those of the first
	for _, n := range g.nodes(g.rng(1, 3), 0) {
		if k := g.Intn(4); k < p.K["split"] {
			n.ID = p.Nodes[k].ID
		}
		dup := false
		for _, m := range p.Nodes[p.K["split"]:] {
			dup = dup || m.ID == n.ID
		}
		if !dup {
			p.Nodes = append(p.Nodes, n)
		}
	}
	p.K["troubled"] = g.pick(0, 1)
	p.K["discovered"] = g.pick(0, 0, 1, 2, 3) // which of them find their nodes on the network
	p.K["sameDir"] = g.pick(0, 1, 1)
	span := int64(g.pick(200_000, 1_500_000, 6_000_000, 20_000_000))
	p.K["ms"] = int(span / 1000)
	who := func() (int, int) {
		k := g.Intn(len(p.Nodes))
		if k < p.K["split"] {
			return 0, p.Nodes[k].ID
		}
		return 1, p.Nodes[k].ID
	}
	add := func(s Step) {
		s.At = int64(g.Intn(int(span)))
		s.C, s.N = who()
		p.Steps = append(p.Steps, s)
	}
	ctr := 1
	for k := g.rng(3, 16); k > 0; k-- {
		add(Step{Op: "feed"})
	}
	for _, kind := range []string{"req", "req", "write", "save", "save", "lose", "slowdisk", "third", "hold", "together", "burst", "burst", "ask"} {
		if g.chance(0.45) {
			continue
		}
		switch kind {
		case "req":
			for k := g.rng(1, 6); k > 0; k-- {
				add(Step{Op: "req", A: g.pick(qMan, qEnd, qProto, qDisc), B: g.pick(1500, 5000, 20000)})
			}
		case "write":
			for k := g.rng(1, 8); k > 0; k-- {
				add(Step{Op: "write"})
			}
		case "save":
			for k := g.rng(1, 4); k > 0; k-- {
				add(Step{Op: "save"})
			}
		case "lose":
			for k := g.rng(1, 2); k > 0; k-- {
				add(Step{Op: "lose", A: g.pick(0, 0, 1, 30, 900), B: g.pick(0, 300, 2500, 20000)})
			}
		case "slowdisk":
			p.K["slowdisk"] = g.pick(5, 300, 5000)
		case "third":
			add(Step{Op: "third", A: g.pick(0, 100, 3000)})
		case "hold":
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "hold", A: g.pick(30, 300, 1500)})
			}
		case "burst": // both have many commands at once
			for k := g.rng(1, 4); k > 0; k-- {
				add(Step{Op: "burst", A: g.rng(2, 8)})
				if s := p.Steps[len(p.Steps)-1]; g.chance(0.8) {
					s.C, s.At = 1-s.C, s.At+int64(g.pick(0, 0, 500, 2000))
					p.Steps = append(p.Steps, s)
				}
			}
		case "ask": // one asks and hears nothing for long, the other asks as well
			add(Step{Op: "mute", A: g.pick(3000, 15000, 40000)})
			at := p.Steps[len(p.Steps)-1].At
			for k := range []int{0, 1} {
				c, n := who()
				if k == 0 {
					c = p.K["troubled"]
				}
				p.Steps = append(p.Steps, Step{At: at + int64(1+k*g.pick(10, 1000, 100_000)), Op: "req", C: c, N: n, A: g.pick(qMan, qEnd, qProto, qProto), B: g.pick(1500, 5000, 20000)})
			}
		case "together": // both save at the same moment
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "save"})
				s := p.Steps[len(p.Steps)-1]
				s.C = 1 - s.C
				p.Steps = append(p.Steps, s)
			}
		}
	}
	if g.chance(0.7) {
		p.Fates = g.fates(60, []float64{0.1, 0.3, 0.6}[g.Intn(3)], "nak can none late resp lost dup short slow werr twice", g.pick(100, 1500))
	}
	sort.SliceStable(p.Steps, func(i, j int) bool { return p.Steps[i].At < p.Steps[j].At })
	for k := range p.Steps {
		if p.Steps[k].Op == "feed" {
			p.Steps[k].A = ctr
			ctr++
		}
	}
	return p
}

// pairIdent is what node id of controller k says of itself.
func pairIdent(k, id int) NodeSpec {
	return NodeSpec{ID: id, Basic: 4, Generic: byte(id) ^ byte(k*0x40), Specific: byte(id), Man: 0x4000 + 0x1000*k + id, Typ: 0x100, Prod: id, Endpoints: 1 + (id+k*50)%100}
}

func runC32(w *World) {
	split := w.plan.k("split")
	if split > len(w.plan.Nodes) {
		split = len(w.plan.Nodes)
	}
	files := []string{configFile, "/data/second.json"}
	if w.plan.k("sameDir") == 0 {
		files[1] = "/data2/config.json"
		rt.OsMkdir("/data2", 0755)
	}
	worlds := []*World{w, newWorld(w.plan)}
	mute := time.Duration(0)
	v := worlds[1]
	v.s, v.up, v.faults, v.probes = w.s, w, w.faults, w.probes
	troubled := w.plan.k("troubled")
	specs := [][]NodeSpec{w.plan.Nodes[:split], w.plan.Nodes[split:]}
	full := *w.plan
	for k, x := range worlds {
		k := k
		p := full
		p.Nodes = specs[k]
		p.K = map[string]int{}
		for name, val := range full.K {
			p.K[name] = val
		}
		if full.k("discovered")>>uint(k)&1 == 0 {
			p.K["nodiscovery"] = 1
			w.s.Disk.Put(files[k], configJSON(specs[k]))
		}
		if k != troubled {
			p.Fates = nil
		}
		x.plan = &p
		st := x.stick
		st.asleep = map[int]bool{}
		st.answer = func(h *HostFrame) [][]byte {
			ours := func(id int) bool { return st.spec(id) != nil }
			if k == troubled && w.now() < mute {
				w.fault("no-answers-for-long")
				return nil
			}
			switch c := h.payload(); {
			case h.fn() == 0x41 && len(h.Body) >= 3 && ours(int(h.Body[2])):
				return [][]byte{fProtocolInfo(pairIdent(k, int(h.Body[2])))}
			case len(c) >= 2 && c[0] == 0x72 && ours(h.node()):
				return [][]byte{fSendDataResp(), rManufacturer(pairIdent(k, h.node()))}
			case len(c) >= 2 && c[0] == 0x60 && ours(h.node()):
				return [][]byte{fSendDataResp(), rEndpoints(pairIdent(k, h.node()))}
			}
			return st.defaultAnswer(h)
		}
	}
	slow := time.Duration(w.plan.k("slowdisk")) * time.Millisecond
	if slow > 0 {
		w.s.Disk.Fault = func(op rt.DiskOp) rt.DiskFault {
			if !strings.HasPrefix(op.Path, files[troubled]) {
				return rt.DiskFault{}
			}
			w.fault("slow-disk-of-the-other")
			return rt.DiskFault{Delay: slow}
		}
	}
	// both connect at once
	errs := make([]error, 2)
	calls := make([]*Call, 2)
	for k, x := range worlds {
		k, x := k, x
		calls[k] = w.spawnLib("connect", func() {
			var c *gozwave.Controller
			c, errs[k] = gozwave.ConnectWithCustomPortOpener("/dev/ttySIM", files[k], x.opener)
			x.ctl = c
		})
	}
	for k, x := range worlds {
		if !calls[k].wait(10*time.Second + 100*slow) {
			w.fail("connect-hangs", "connecting controller %d did not return\n%s", k, w.s.Dump())
		}
		if errs[k] != nil || x.ctl == nil {
			w.fail("connect-error", "connecting controller %d failed: %v", k, errs[k])
		}
		x.drainEvents()
	}
	names := []string{"first", "second"}
	key := rSensorKey(0)
	// what one sees must be its own
	own := func(k int) {
		x := worlds[k]
		ids := x.nodeIDs()
		for _, id := range ids {
			if x.stick.spec(id) == nil {
				w.fail("foreign-node", "the %s controller lists node %d, which is on the other network", names[k], id)
			}
			val, _ := x.state(id)
			if f, ok := val.Float[key]; ok && (int(f*10+0.5)/1000)%2 != k {
				w.fail("foreign-state", "node %d of the %s controller has the reading %v of the other network", id, names[k], f)
			}
		}
		for _, e := range x.events {
			if x.stick.spec(e.Node) == nil {
				w.fail("foreign-event", "the %s controller announced node %d, which is on the other network", names[k], e.Node)
			}
		}
	}
	w.sleep(1500 * time.Millisecond)
	t0 := w.now()
	latest := []map[int]int{{}, {}}
	held := map[[2]int]int{}
	heldTo := map[[2]int]time.Duration{}
	reqs := [][]*Req{nil, nil}
	sent := []map[string]bool{{}, {}}
	called := map[string]time.Duration{}
	n := 0
	for _, s := range w.plan.Steps {
		s := s
		x := worlds[s.C&1]
		k := s.C & 1
		w.sleepUntil(t0 + s.at())
		p := x.opener.cur()
		switch s.Op {
		case "feed":
			if p == nil {
				break
			}
			known := x.ctl.Nodes.Get(s.N) != nil
			if p.closed || p.failed != nil {
				break
			}
			num := s.A + 1000*k
			since, stalled := w.now(), w.s.Stalled()
			latest[k][s.N] = num
			p.feed(rSensor(s.N, 0, num))
			p.good++
			good := p.good
			w.spawn("check", func() {
				for {
					d := promptly + w.s.Stalled() - stalled - (w.now() - since)
					if d < 0 {
						break
					}
					w.sleep(d + time.Millisecond)
				}
				if p.closed || p.failed != nil || k == troubled {
					return
				}
				if p.acked < good {
					w.fail("ack-late", "the %s controller: %d frames had arrived at %v, %d of them are acknowledged at %v\n%s", names[k], good, since, p.acked, w.now(), w.s.Dump())
				}
				id := [2]int{k, s.N}
				if !known || held[id] > 0 || heldTo[id] >= since {
					return
				}
				val, ok := x.state(s.N)
				if held[id] > 0 || heldTo[id] >= since {
					return
				}
				if got := int(val.Float[key]*10 + 0.5); !ok || got < num || got > latest[k][s.N] {
					w.fail("applied-late", "the %s controller: report %d of node %d arrived at %v, at %v the node says %v\n%s", names[k], num, s.N, since, w.now(), val, w.s.Dump())
				}
				w.reach("report-beside-a-troubled-controller")
			})
		case "req":
			r, enc := newReq(n, 0, s.A, s.N, n+400*k, time.Duration(s.B)*time.Millisecond, true)
			n++
			sent[k][string(r.body)] = true
			if r.Kind != qProto {
				called[string(r.body)] = w.now()
			}
			reqs[k] = append(reqs[k], r)
			r.Call = w.spawnLib("client request", func() { x.doRequest(r, enc) })
		case "write", "burst":
			for i := s.A; i >= 0; i-- {
				a, b := nonce(n + 400*k)
				enc := sendData(s.N, 0x70, 0x04, a, b)
				n++
				body := string(append([]byte{0}, enc...))
				sent[k][body], called[body] = true, w.now()
				w.spawnLib("client write", func() { x.ctl.Connection.Write(enc) })
			}
		case "mute":
			if d := w.now() + time.Duration(s.A)*time.Millisecond; d > mute {
				mute = d
			}
		case "save":
			since, stalled := w.now(), w.s.Stalled()
			w.spawnLib("save", func() {
				err := x.ctl.SaveConfigurationToFile()
				if err != nil {
					w.fail("save-failed", "the %s controller could not save: %v", names[k], err)
				}
				free := k != troubled
				for _, nd := range specs[k] { // a client that holds a node holds up those who want to read it, with a report between them
					id := [2]int{k, nd.ID}
					free = free && held[id] == 0 && heldTo[id] < since
				}
				if d := w.now() - since - (w.s.Stalled() - stalled); free && d > promptly {
					w.fail("save-waits", "saving the %s controller, called at %v, took %v", names[k], since, d)
				}
			})
		case "hold":
			w.spawnLib("holder", func() {
				nd := x.ctl.Nodes.Get(s.N)
				if nd == nil {
					return
				}
				id := [2]int{k, s.N}
				held[id]++
				nd.RLock()
				rt.Sleep(time.Duration(s.A) * time.Millisecond)
				nd.RUnlock()
				held[id]--
				heldTo[id] = w.now()
			})
		case "lose":
			if k == troubled {
				x.lose(s)
			}
		case "third": // another one that cannot be connected
			o := &Opener{w: &World{s: w.s, plan: full.clone(), up: w, faults: w.faults, probes: w.probes}, Down: true}
			o.Delay = func(int) time.Duration { return time.Duration(s.A) * time.Millisecond }
			w.fault("another-controller-fails-to-connect")
			w.spawnLib("connect", func() {
				if c, err := gozwave.ConnectWithCustomPortOpener("/dev/ttySIM3", "", o); err == nil || c != nil {
					w.fail("third-connected", "a controller without a port was connected")
				}
			})
		}
	}
	w.sleepUntil(t0 + time.Duration(w.plan.k("ms"))*time.Millisecond)
	w.settleReqs(append(append([]*Req(nil), reqs[0]...), reqs[1]...), 300*time.Second)
	w.sleep(2 * time.Second)
	own(0)
	own(1)
	calm := worlds[1-troubled]
	if calm.opener.Calls != 1 || calm.opener.cur() == nil {
		w.fail("link", "the %s controller had no trouble, but its port was opened %d times", names[1-troubled], calm.opener.Calls)
	}
	slack := w.s.Stalled()
	for _, h := range calm.stick.frames {
		prev, end := calm.stick.lineFree(h)
		if prev == nil {
			continue
		}
		if h.At < end {
			w.fail("early", "the %s controller transmitted %x at %v, but the command before it, of %v, had not been answered", names[1-troubled], h.Body, h.At, prev.At)
		}
		at, ok := called[string(h.Body)]
		if !ok {
			continue
		}
		if at > end {
			end = at
		} else {
			w.reach("waited-for-its-own-line")
		}
		if h.At > end+120*time.Millisecond+slack {
			w.fail("idle-line", "the %s controller was handed a command at %v and transmitted it at %v, but its line was free from %v", names[1-troubled], at, h.At, end)
		}
	}
	for k, x := range worlds {
		for _, h := range x.stick.frames {
			if sent[1-k][string(h.Body)] {
				w.fail("wrong-line", "a command of the %s controller went out on the line of the other: %x", names[1-k], h.Body)
			}
		}
		for _, r := range reqs[k] {
			if r.Msgs == 0 {
				if k != troubled && r.Kind != qDisc {
					w.fail("no-answer", "request %d (kind %d, node %d, limit %v, called %v) of the %s controller got no answer, though it had no trouble", r.ID, r.Kind, r.Node, r.Limit, r.CalledAt, names[k])
				}
				continue
			}
			if k != troubled && r.Kind != qDisc && r.MsgAt > r.CalledAt+3*time.Second+time.Duration(len(calm.stick.frames))*150*time.Millisecond+slack {
				w.fail("answer-late", "request %d (kind %d, node %d) of the %s controller, called at %v, was answered at %v, though it had no trouble", r.ID, r.Kind, r.Node, names[k], r.CalledAt, r.MsgAt)
			}
			id := pairIdent(k, r.Node)
			if m, ok := r.Rep.(*reports.ManufacturerSpecific); ok && m.Manufacturer != fmt.Sprintf("%04x", id.Man) {
				w.fail("foreign-answer", "request %d to node %d of the %s controller was answered by %v", r.ID, r.Node, names[k], m)
			}
			if m, ok := r.Rep.(*reports.MultiChannelEndpoints); ok && m.Endpoints != id.Endpoints {
				w.fail("foreign-answer", "request %d to node %d of the %s controller was answered by %v", r.ID, r.Node, names[k], m)
			}
			w.reach("answered-beside-another")
		}
	}
	// both have their own file
	w.s.Disk.Fault = nil
	w.sleep(20*time.Second + 100*slow)
	type snap map[int]State
	want := make([]snap, 2)
	for k, x := range worlds {
		x := x
		if !w.waitFor(200*time.Second, time.Second, func() bool { return x.opener.cur() != nil }) {
			w.fail("not-restored", "the link of the %s controller is not restored", names[k])
		}
		w.must("save-hangs", "saving", 60*time.Second, func() {
			if err := x.ctl.SaveConfigurationToFile(); err != nil {
				w.fail("save-failed", "the %s controller could not save: %v", names[k], err)
			}
		})
		want[k] = snap{}
		for _, id := range x.nodeIDs() {
			want[k][id], _ = x.state(id)
		}
	}
	w.s.Crash()
	for k, x := range worlds {
		x.events = nil
		x.plan.K["nodiscovery"] = 1
		if err := x.connect(files[k], 10*time.Second); err != nil {
			w.fail("connect-error", "connecting controller %d again failed: %v", k, err)
		}
	}
	w.sleep(500 * time.Millisecond)
	for k, x := range worlds {
		ids := x.nodeIDs()
		if len(ids) != len(want[k]) {
			w.fail("file-mixed", "the %s controller had %d nodes, after a restart it has %v", names[k], len(want[k]), ids)
		}
		for _, id := range ids {
			st, _ := x.state(id)
			if old, ok := want[k][id]; !ok || !eqFloat(old.Float[key], st.Float[key]) {
				w.fail("file-mixed", "node %d of the %s controller had %v, after a restart it has %v", id, names[k], old, st)
			}
		}
	}
	own(0)
	own(1)
}
