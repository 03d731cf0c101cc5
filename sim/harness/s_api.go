package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/stampzilla/gozwave/nodes"
	"gozwavesim/rt"
)

// C18: the API from many goroutines at once.

func init() {
	register(&Scenario{ID: "C18", gen: genC18, run: runC18, stallMax: 50, stallSum: 500, quick: 10000, thorough: 200000, races: true})
}

const (
	aGet = iota
	aAll
	aRead
	aMarshalNode
	aMarshalList
	aMarshalController
	aControl
	aSave
	aAccessors
	aEndpoint
	aHold
	aRequest
	aWrite
	aEvents
	aQuery
	aKinds
)

// borrowed are workloads of other properties that C18 watches for crashes and unsynchronised accesses only.
var borrowed = []string{"C05", "C09", "C10", "C11", "C12", "C14", "C16", "C19", "C20", "C24"}

func genC18(g G, i int) *Plan {
	if g.chance(0.15) {
		k := g.Intn(len(borrowed))
		p := scenarios[borrowed[k]].gen(g, i)
		if p.K == nil {
			p.K = map[string]int{}
		}
		p.K["borrow"] = k + 1
		return p
	}
	p := &Plan{Nodes: g.nodes(g.rng(1, 6), 0.3), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	switch g.Intn(3) {
	case 0:
		p.K["discover"] = 1
	case 1: // known, and identified again meanwhile
		p.K["discover"] = 1
		p.K["known"] = len(p.Nodes)
	default:
		p.K["known"] = len(p.Nodes)
	}
	if p.K["discover"] == 1 {
		p.K["early"] = g.pick(0, 0, 1) // before or after the first answers
	}
	if p.K["known"] == 0 && g.chance(0.5) {
		p.K["watchers"] = g.rng(1, 3) // clients that use a node as soon as it appears
	}
	p.K["events"] = g.pick(0, 1, 1)
	span := int64(g.pick(1_000, 100_000, 1_000_000, 3_000_000))
	clients := g.rng(2, 8)
	// swarm: some kinds of calls per run
	var kinds []int
	for k := 0; k < aKinds; k++ {
		if g.chance(0.5) {
			kinds = append(kinds, k)
		}
	}
	if len(kinds) == 0 {
		kinds = []int{g.Intn(aKinds), g.Intn(aKinds)}
	}
	for k := g.rng(4, 50); k > 0; k-- {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "call", A: kinds[g.Intn(len(kinds))], N: nd.ID, B: g.Intn(6), C: g.Intn(clients), F: float64(g.Intn(100))})
	}
	for k := g.rng(0, 25); k > 0; k-- {
		b := g.goodFrame(p.Nodes, k)
		if g.chance(0.7) {
			b = g.uniqueReport(p.Nodes[g.Intn(len(p.Nodes))].ID, k)
		}
		if g.chance(0.2) {
			b = rWakeUp(p.Nodes[g.Intn(len(p.Nodes))].ID)
		}
		if g.chance(0.2) {
			b = rAlarm(p.Nodes[g.Intn(len(p.Nodes))].ID, byte(k), 0xff)
		}
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "feed", X: hx(b)})
	}
	if g.chance(0.5) {
		p.Fates = g.fates(60, 0.1, "nak can none late resp lost dup", g.pick(50, 500))
	}
	if g.chance(0.25) {
		g.losses(p, 1, span)
	}
	return p
}

// apiCall makes one call of a client.
func (w *World) apiCall(s Step, hold map[int]bool) {
	ctl := w.ctl
	switch s.A {
	case aGet:
		for k := 0; k < 3; k++ {
			if n := ctl.Nodes.Get(s.N); n != nil && n.Id != s.N {
				w.fail("wrong-node", "Get(%d) returns node %d", s.N, n.Id)
			}
		}
	case aAll:
		for it, k, n := rt.RangeMap3(ctl.Nodes.All()); it.Valid(); k, n = it.Next() {
			if n == nil || n.GetID() != k {
				w.fail("wrong-node", "All holds a wrong node under %d", k)
			}
		}
	case aRead:
		if n := ctl.Nodes.Get(s.N); n != nil {
			snapNode(n)
		}
	case aMarshalNode:
		if n := ctl.Nodes.Get(s.N); n != nil {
			b, err := rt.JSONMarshal(n)
			if err != nil || !json.Valid(b) {
				w.fail("marshal", "serialising node %d: %v", s.N, err)
			}
		}
	case aMarshalList:
		if b, err := rt.JSONMarshal(ctl.Nodes); err != nil || !json.Valid(b) {
			w.fail("marshal", "serialising the list: %v", err)
		}
	case aMarshalController:
		if b, err := rt.JSONMarshalIndent(ctl, "", "\t"); err != nil || !json.Valid(b) {
			w.fail("marshal", "serialising the controller: %v", err)
		}
	case aControl:
		w.control(Step{A: s.B, N: s.N, B: 1 + int(s.F)%4, F: s.F})
	case aSave:
		if err := ctl.SaveConfigurationToFile(); err != nil {
			w.fail("save-error", "saving failed without a disk error: %v", err)
		}
	case aAccessors:
		if n := ctl.Nodes.Get(s.N); n != nil {
			n.GetID()
			n.ProtocolInfo()
			n.IsDeviceClass(0x10, 0x01)
			n.HasCommand(0x25)
		}
	case aEndpoint:
		if n := ctl.Nodes.Get(s.N); n != nil {
			n.Endpoint(s.B)
		}
	case aHold: // a client that takes its time while it reads
		if n := ctl.Nodes.Get(s.N); n != nil {
			n.RLock()
			rt.Sleep(time.Duration(s.B*10) * time.Millisecond)
			n.RUnlock()
		}
	case aRequest:
		r, enc := newReq(int(w.s.Steps()%100000), s.C, []int{qProto, qMan, qEnd, qSwitch, qSensor, qDisc}[s.B], s.N, int(w.s.Steps()%100000), 500*time.Millisecond, true)
		w.doRequest(r, enc)
	case aWrite:
		ctl.Connection.Write(sendData(s.N, 0x20, 0x02))
	case aQuery:
		if n := ctl.Nodes.Get(s.N); n != nil {
			w.queryNode(n, s.B)
		}
	case aEvents:
		ch := ctl.GetNextEvent()
		if ch == nil {
			w.fail("no-events", "there is no event channel")
		}
	}
}

// queryNode asks a device for something on behalf of a client.
func (w *World) queryNode(n *nodes.Node, what int) {
	switch what {
	case 0:
		n.RequestManufacturerSpecific()
	case 1:
		n.RequestStates()
	default:
		n.RequestProtocolInfo()
	}
}

func runC18(w *World) {
	if k := w.plan.k("borrow"); k > 0 && k <= len(borrowed) {
		w.deaf = true
		scenarios[borrowed[k-1]].run(w)
		return
	}
	st := w.stick
	st.asleep = map[int]bool{}
	for _, n := range w.plan.Nodes {
		if n.Battery {
			st.asleep[n.ID] = true
		}
	}
	if w.plan.k("known") > 0 {
		w.s.Disk.Put(configFile, configJSON(w.plan.Nodes))
	}
	if w.plan.k("discover") == 0 {
		w.plan.K["nodiscovery"] = 1
	}
	w.mustConnect(configFile)
	if w.plan.k("events") == 1 {
		w.drainEvents()
	}
	if w.plan.k("early") == 0 {
		w.sleep(time.Duration(w.plan.k("discover")) * 10 * time.Millisecond)
	}
	t0 := w.now()
	type client struct {
		l    []Step
		call *Call
		at   int
	}
	clients := map[int]*client{}
	var order []*client
	for _, s := range w.plan.Steps {
		if s.Op != "call" {
			continue
		}
		c := clients[s.C]
		if c == nil {
			c = &client{}
			clients[s.C] = c
			order = append(order, c)
		}
		c.l = append(c.l, s)
	}
	for i, c := range order {
		c := c
		c.call = w.spawnLib(fmt.Sprintf("client %d", i), func() {
			for k, s := range c.l {
				w.sleepUntil(t0 + s.at())
				c.at = k
				w.apiCall(s, nil)
			}
			c.at = len(c.l)
		})
	}
	var watchers []*Call
	for k := 0; k < w.plan.k("watchers"); k++ {
		k := k
		id := w.plan.Nodes[k%len(w.plan.Nodes)].ID
		watchers = append(watchers, w.spawnLib(fmt.Sprintf("watcher %d", k), func() {
			for i := 0; w.now() < t0+20*time.Second; i++ {
				if n := w.ctl.Nodes.Get(id); n != nil {
					w.queryNode(n, 2)
					w.control(Step{A: k, N: id, F: 20})
					return
				}
				switch {
				case w.now() > t0+2*time.Second:
					rt.Sleep(50 * time.Millisecond)
				case i%4 == 0:
					rt.Sleep(time.Millisecond)
				default:
					rt.Gosched()
				}
			}
		}))
	}
	for _, s := range w.plan.Steps {
		if s.Op == "call" {
			continue
		}
		w.sleepUntil(t0 + s.at())
		switch s.Op {
		case "feed":
			if p := w.opener.cur(); p != nil {
				p.send(s.bytes(), s.L)
			}
		case "lose":
			w.lose(s)
		}
	}
	// every call returns
	for i, c := range order {
		if !c.call.wait(120*time.Second + time.Duration(len(w.plan.Steps))*3*time.Second) {
			w.fail("call-blocks", "client %d's call %d (%+v) has not returned at %v\n%s", i, c.at, c.l[c.at], w.now(), w.s.Dump())
		}
	}
	for _, c := range watchers {
		if !c.wait(120 * time.Second) {
			w.fail("call-blocks", "the calls for a new node have not returned at %v\n%s", w.now(), w.s.Dump())
		}
	}
	// and nobody is in anybody's way afterwards
	w.sleep(15 * time.Second)
	st.faultEnd = 1
	if !w.waitFor(15*time.Second, 100*time.Millisecond, func() bool { return w.opener.cur() != nil && w.connected() }) {
		w.fail("not-restored", "the link is not restored\n%s", w.s.Dump())
	}
	id := w.plan.Nodes[0].ID
	known := w.node(id) != nil
	if w.plan.k("known") > 0 && !known {
		w.fail("forgotten", "node %d is not known any more", id)
	}
	w.plan.K["nostates"] = 1
	w.sleep(time.Second)
	acks := len(st.acks)
	w.opener.cur().feed(rLevel(id, 88))
	w.sleep(time.Second)
	if len(st.acks) == acks {
		w.fail("no-ack", "a report is not acknowledged any more\n%s", w.s.Dump())
	}
	if s, ok := w.state(id); known && (!ok || s.Float["level"] != 88) {
		w.fail("not-applied", "a report was acknowledged, but not applied: %v\n%s", s, w.s.Dump())
	}
	w.must("save-hangs", "saving", 30*time.Second, func() {
		if err := w.ctl.SaveConfigurationToFile(); err != nil {
			w.fail("save-error", "saving failed: %v", err)
		}
	})
	c := w.spawnLib("last command", func() { w.ctl.Connection.Write(sendData(id, 0x70, 0x04, 0xaa, 0xbb)) })
	if !c.wait(30 * time.Second) {
		w.fail("call-blocks", "a command cannot be issued any more\n%s", w.s.Dump())
	}
}
