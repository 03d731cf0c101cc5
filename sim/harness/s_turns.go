package main

import (
	"fmt"
	"sort"
	"time"

	"gozwavesim/rt"
)

// C30: commands take turns and the line is not left idle. C31: what arrives is served at once.

func init() {
	register(&Scenario{ID: "C30", gen: genC30, run: runC30, stallMax: 15, stallSum: 100, quick: 15000, thorough: 200000})
	register(&Scenario{ID: "C31", gen: genC31, run: runC31, stallMax: 15, stallSum: 150, quick: 15000, thorough: 200000})
}

func genC30(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	clients := g.rng(2, 10)
	at := int64(0)
	for c := 0; c < clients; c++ {
		// some send all the time, some now and then
		n, gap := g.rng(1, 4), g.pick(0, 10_000, 200_000, 1_500_000)
		if g.chance(0.4) {
			n, gap = g.rng(5, 25), 0
		}
		kinds := []int{qWrite}
		if g.chance(0.6) {
			kinds = append(kinds, g.Intn(nKinds), g.Intn(nKinds))
		}
		at = int64(g.pick(0, 0, 1000, 60_000, 700_000))
		for k := 0; k < n; k++ {
			if gap > 0 {
				at += int64(g.Intn(2 * gap))
			}
			p.Steps = append(p.Steps, Step{At: at, Op: "cmd", A: kinds[g.Intn(len(kinds))], N: p.Nodes[g.Intn(len(p.Nodes))].ID, B: g.pick(1, 50, 300, 1000, 3000), C: c, F: float64(g.pick(0, 0, 1))})
		}
	}
	p.Fates = g.fates(100, []float64{0.05, 0.2, 0.4}[g.Intn(3)], "nak can none late resp lost dup ck short slow werr twice", g.pick(50, 1000))
	for k := g.rng(0, 8); k > 0; k-- {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(6_000_000)), Op: "feed", X: hx(g.goodFrame(p.Nodes, k))})
	}
	if g.chance(0.25) {
		g.losses(p, g.rng(1, 2), 6_000_000)
	}
	return p
}

func runC30(w *World) {
	st := w.stick
	w.preload()
	w.sleep(2 * time.Second) // what the library asks on its own
	t0 := w.now()
	first := len(st.frames)
	var all []*Req
	lists := map[int][]*Req{}
	encs := map[*Req]encoded{}
	ats := map[*Req]time.Duration{}
	waits := map[*Req]bool{} // its client waits for the answer before it goes on
	clients := 0
	lost := false
	for _, s := range w.plan.Steps {
		if s.Op != "cmd" {
			continue
		}
		id := len(all)
		var r *Req
		var enc encoded
		if s.A == qWrite {
			r, enc = newReq(id, s.C, qSwitch, s.N, id, 0, false)
			a, b := nonce(id)
			enc = sendData(s.N, 0x70, 0x04, a, b, byte(id))
			r.Kind, r.body = qWrite, append([]byte{0x00}, enc...)
		} else {
			r, enc = newReq(id, s.C, s.A, s.N, id, time.Duration(s.B)*time.Millisecond, true)
		}
		all = append(all, r)
		encs[r], ats[r], waits[r] = enc, t0+s.at(), s.F == 1
		lists[s.C] = append(lists[s.C], r)
		if s.C >= clients {
			clients = s.C + 1
		}
	}
	for c := 0; c < clients; c++ {
		l := lists[c]
		if len(l) == 0 {
			continue
		}
		w.spawnLib(fmt.Sprintf("client %d", c), func() {
			for _, r := range l {
				w.sleepUntil(ats[r])
				if r.Kind == qWrite {
					r.CalledAt = w.now()
					w.ctl.Connection.Write(encs[r])
					r.Returned, r.ReturnedAt, r.Closed = true, w.now(), true
					continue
				}
				if collect := w.issue(r, encs[r]); collect != nil {
					if waits[r] {
						collect()
					} else {
						w.spawnLib("collector", collect)
					}
				}
			}
		})
	}
	for _, s := range w.plan.Steps {
		switch s.Op {
		case "feed":
			w.sleepUntil(t0 + s.at())
			if p := w.opener.cur(); p != nil {
				p.send(s.bytes(), s.L)
				w.fault("unrequested-input")
			}
		case "lose":
			w.sleepUntil(t0 + s.at())
			w.lose(s)
			lost = true
		}
	}
	w.settleReqs(all, time.Duration(len(all))*9*time.Second+60*time.Second)
	w.sleep(10 * time.Second)
	slack := w.s.Stalled()
	// the first transmission of every command
	owner := map[string]*Req{}
	for _, r := range all {
		owner[string(r.body)] = r
	}
	type turn struct {
		r *Req
		h *HostFrame
	}
	var turns []turn
	had := map[*Req]bool{}
	for _, h := range st.frames[first:] {
		if r := owner[string(h.Body)]; r != nil && !had[r] {
			had[r] = true
			turns = append(turns, turn{r, h})
		}
	}
	if !lost {
		for _, r := range all {
			if !had[r] {
				w.fail("never", "command %d (kind %d), handed over at %v, was never transmitted, %d commands were", r.ID, r.Kind, r.CalledAt, len(turns))
			}
		}
	}
	// no command overtakes one that was handed over clearly earlier
	for i, t := range turns {
		for _, u := range turns[i+1:] {
			if u.r.Kind == qProto { // these wait for each other as well
				continue
			}
			if u.r.CalledAt+20*time.Millisecond+slack < t.r.CalledAt {
				w.fail("overtaken", "command %d was handed over at %v and transmitted at %v, before command %d, which had been handed over at %v and was transmitted at %v", t.r.ID, t.r.CalledAt, t.h.At, u.r.ID, u.r.CalledAt, u.h.At)
			}
		}
	}
	// nor does one wait while the line is free
	contended := 0
	for _, t := range turns {
		if t.h.N == 0 || t.r.Kind == qProto {
			continue
		}
		prev, end := st.lineFree(t.h)
		if prev == nil {
			continue
		}
		if t.r.CalledAt > end {
			end = t.r.CalledAt
		} else {
			contended++
		}
		if t.h.At > end+120*time.Millisecond+slack {
			w.fail("idle-line", "command %d was handed over at %v and transmitted at %v, but the line was free from %v (command before: %x of %v, answered %02x at %v)", t.r.ID, t.r.CalledAt, t.h.At, end, prev.Body, prev.At, prev.Ctl, prev.CtlAt)
		}
	}
	w.reach(fmt.Sprintf("commands-that-waited-%d", contended/10*10))
}

// lineFree says when the line was free for frame h, and which frame it had to wait for.
func (st *Stick) lineFree(h *HostFrame) (*HostFrame, time.Duration) {
	if h.N == 0 || st.frames[h.N-1].Port != h.Port {
		return nil, 0
	}
	prev := st.frames[h.N-1]
	end := prev.At + time.Second
	// any control byte the controller has sent meanwhile lets the next one go
	for _, c := range st.ctlLog[prev.CtlN:] {
		if c.Port == prev.Port {
			if c.At < end {
				end = c.At
			}
			break
		}
	}
	if d := prev.At + time.Duration(prev.Fate.WriteMs)*time.Millisecond; d > end {
		end = d
	}
	return prev, end
}

func genC31(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 5), []float64{0, 0.3}[g.Intn(2)]), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	switch g.Intn(4) {
	case 0:
		p.K["known"] = len(p.Nodes)
	case 1, 2:
		p.K["known"], p.K["nodiscovery"] = len(p.Nodes), 1
	}
	p.K["events"] = g.pick(0, 1, 1)
	span := int64(g.pick(300_000, 1_500_000, 6_000_000, 25_000_000))
	p.K["ms"] = int(span / 1000)
	add := func(s Step) {
		s.At = int64(g.Intn(int(span)))
		p.Steps = append(p.Steps, s)
	}
	any := func() int { return p.Nodes[g.Intn(len(p.Nodes))].ID }
	ctr := 1
	for k := g.rng(4, 30); k > 0; k-- {
		add(Step{Op: "feed", N: any()})
	}
	for _, kind := range []string{"req", "req", "ctl", "query", "save", "lose", "alarm", "wake", "slowdisk", "slowopen", "crowd", "hold", "hold", "list"} {
		if g.chance(0.5) {
			continue
		}
		switch kind {
		case "req":
			for k := g.rng(1, 6); k > 0; k-- {
				add(Step{Op: "req", N: any(), A: g.Intn(nKinds), B: g.pick(1, 100, 1000, 3000, 30000), C: 1})
			}
		case "ctl":
			for k := g.rng(1, 8); k > 0; k-- {
				add(Step{Op: "ctl", N: any(), A: g.Intn(6), B: g.rng(1, 3), F: float64(g.Intn(100))})
			}
		case "query":
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "query", N: any(), A: g.Intn(3)})
			}
		case "save":
			for k := g.rng(1, 3); k > 0; k-- {
				add(Step{Op: "save"})
			}
		case "lose":
			add(Step{Op: "lose", A: g.pick(0, 0, 1, 30, 900), B: g.pick(0, 300, 2500)})
		case "alarm":
			for k := g.rng(1, 4); k > 0; k-- {
				add(Step{Op: "alarm", N: any(), X: hx(rAlarm(any(), byte(g.rng(1, 9)), 0xff))})
			}
		case "wake":
			for k := g.rng(1, 4); k > 0; k-- {
				add(Step{Op: "wake", N: any()})
			}
		case "slowdisk":
			p.K["slowdisk"] = g.pick(5, 300, 5000, 60000)
		case "slowopen":
			p.K["slowopen"] = g.pick(100, 4000)
		case "crowd":
			if g.chance(0.3) {
				at := int64(g.Intn(int(span)))
				for k := g.rng(50, 300); k > 0; k-- {
					p.Steps = append(p.Steps, Step{At: at + int64(k)*2000, Op: "feed", N: any()})
				}
			}
		case "hold":
			for k := g.rng(1, 4); k > 0; k-- {
				add(Step{Op: "hold", N: any(), A: g.pick(30, 300, 1500, 4000)})
			}
		case "list":
			for k := g.rng(1, 4); k > 0; k-- {
				add(Step{Op: "list", N: any(), A: g.Intn(3)})
			}
		}
	}
	if g.chance(0.75) {
		p.Fates = g.fates(80, []float64{0.05, 0.2, 0.4}[g.Intn(3)], "nak can none late resp lost dup short twice", g.pick(100, 1500, 2500))
	}
	sort.SliceStable(p.Steps, func(i, j int) bool { return p.Steps[i].At < p.Steps[j].At })
	for k := range p.Steps {
		if p.Steps[k].Op == "feed" {
			p.Steps[k].A = ctr
			p.Steps[k].X = hx(rSensor(p.Steps[k].N, 0, ctr))
			ctr++
		}
	}
	return p
}

func runC31(w *World) {
	st := w.stick
	st.asleep = map[int]bool{}
	for _, n := range w.plan.Nodes {
		st.asleep[n.ID] = n.Battery
	}
	if k := w.plan.k("known"); k > 0 {
		if k > len(w.plan.Nodes) {
			k = len(w.plan.Nodes)
		}
		w.s.Disk.Put(configFile, configJSON(w.plan.Nodes[:k]))
	}
	w.mustConnect(configFile)
	if w.plan.k("events") == 1 {
		w.drainEvents()
	} else {
		w.fault("events-never-read")
	}
	if ms := w.plan.k("slowdisk"); ms > 0 {
		w.s.Disk.Fault = func(rt.DiskOp) rt.DiskFault {
			w.fault("slow-disk")
			return rt.DiskFault{Delay: time.Duration(ms) * time.Millisecond}
		}
	}
	if ms := w.plan.k("slowopen"); ms > 0 {
		w.opener.Delay = func(int) time.Duration {
			w.fault("slow-open")
			return time.Duration(ms) * time.Millisecond
		}
	}
	key := rSensorKey(0)
	latest := map[int]int{} // counter of the last report of a node that is on the line
	held := map[int]int{}   // clients that hold a node
	heldTo := map[int]time.Duration{}
	w.sleep(time.Duration(w.plan.k("startMs")) * time.Millisecond)
	t0 := w.now()
	n, checked := 0, 0
	for _, s := range w.plan.Steps {
		s := s
		w.sleepUntil(t0 + s.at())
		p := w.opener.cur()
		switch s.Op {
		case "feed":
			if p == nil {
				break
			}
			known := w.ctl.Nodes.Get(s.N) != nil
			if p.closed || p.failed != nil { // it broke meanwhile
				break
			}
			since, stalled := w.now(), w.s.Stalled()
			latest[s.N] = s.A
			p.feed(s.bytes())
			p.good++
			good := p.good
			w.spawn("check", func() {
				for {
					d := promptly + w.s.Stalled() - stalled - (w.now() - since)
					if d < 0 {
						break
					}
					w.sleep(d + time.Millisecond)
				}
				if p.closed || p.failed != nil {
					return
				}
				if p.acked < good {
					w.fail("ack-late", "%d frames had arrived at %v, %d of them are acknowledged at %v\n%s", good, since, p.acked, w.now(), w.s.Dump())
				}
				if !known || held[s.N] > 0 || heldTo[s.N] >= since {
					return
				}
				x, ok := w.state(s.N)
				got := x.Float[key]
				if held[s.N] > 0 || heldTo[s.N] >= since {
					return
				}
				if !ok || int(got*10+0.5) < s.A || int(got*10+0.5) > latest[s.N] {
					w.fail("applied-late", "the report %d of node %d arrived at %v, at %v the node says %v\n%s", s.A, s.N, since, w.now(), x, w.s.Dump())
				}
				checked++
			})
		case "alarm":
			if p != nil {
				p.feed(s.bytes())
				p.good++
			}
		case "wake":
			if spec := st.spec(s.N); p != nil && spec != nil && spec.Battery {
				w.fault("wake-up")
				st.asleep[s.N] = false
				p.feed(rWakeUp(s.N))
				p.good++
				w.s.After(8*time.Second, func() { st.asleep[s.N] = true })
			}
		case "req":
			w.request(n, n, s.A, s.N, time.Duration(s.B)*time.Millisecond, true)
			n++
		case "ctl":
			w.spawnLib("control", func() { w.control(s) })
		case "query":
			w.spawnLib("query", func() {
				if n := w.ctl.Nodes.Get(s.N); n != nil {
					w.queryNode(n, s.A)
				}
			})
		case "save":
			w.spawnLib("save", func() { w.ctl.SaveConfigurationToFile() })
		case "list":
			w.spawnLib("list", func() { w.look([]int{aMarshalNode, aMarshalList, aMarshalController}[s.A%3], s.N) })
		case "hold":
			w.spawnLib("holder", func() {
				x := w.ctl.Nodes.Get(s.N)
				if x == nil {
					return
				}
				held[s.N]++
				x.RLock()
				w.fault("client-holds-a-node")
				rt.Sleep(time.Duration(s.A) * time.Millisecond)
				x.RUnlock()
				held[s.N]--
				heldTo[s.N] = w.now()
			})
		case "lose":
			w.lose(s)
		}
	}
	w.sleepUntil(t0 + time.Duration(w.plan.k("ms"))*time.Millisecond)
	w.sleep(8 * time.Second)
	w.reach(fmt.Sprintf("reports-judged-%d", checked/10*10))
}
