package main

import (
	"fmt"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/serialapi"
)

// C04 to C07: requests and commands.

func init() {
	register(&Scenario{ID: "C04", gen: genC04, run: runC04, stallMax: 50, stallSum: 200, quick: 30000, thorough: 200000})
	register(&Scenario{ID: "C05", gen: genC05, run: runC05, stallMax: 20, stallSum: 60, quick: 30000, thorough: 200000})
	register(&Scenario{ID: "C06", gen: genC06, run: runC06, stallMax: 100, stallSum: 200, quick: 24000, thorough: 200000})
	register(&Scenario{ID: "C07", gen: genC07, run: runC07, stallMax: 50, stallSum: 200, quick: 25000, thorough: 200000})
}

const qWrite = 100 // fire and forget

// stall is the total time the scheduler may take away from the library in this run.
const stallAll = 500 * time.Millisecond

// losses plans link losses: At, A = delay until reads fail (ms), B = time the device is away (ms).
func (g G) losses(p *Plan, n int, span int64) {
	for ; n > 0; n-- {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span))), Op: "lose", A: g.pick(0, 0, 1, 30, 200, 900), B: g.pick(0, 0, 300, 1500, 2500, 6000)})
	}
}

// lose breaks the open port and keeps the device away for a while.
func (w *World) lose(s Step) {
	p := w.opener.cur()
	if p == nil {
		return
	}
	w.fault("link-lost")
	w.opener.Down = true
	p.fail(time.Duration(s.A) * time.Millisecond)
	gone := time.Duration(s.B) * time.Millisecond
	w.s.After(gone, func() { w.opener.Down = false })
}

func genC04(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0), K: map[string]int{"rawdamage": 1}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	n := g.rng(1, 18)
	g.twins(p)
	span := int64(g.pick(1, 1_000_000, 4_000_000, 20_000_000))
	if g.chance(0.02) { // a crowd, and none of it is answered
		n, span = g.rng(20, 120), 1
	}
	for k := 0; k < n; k++ {
		kind := g.Intn(nKinds)
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 1))), Op: "req", A: kind, N: p.Nodes[g.Intn(len(p.Nodes))].ID,
			B: g.pick(1, 10, 50, 100, 300, 1000, 1010, 2000, 5000), C: g.pick(1, 1, 1, 0)})
	}
	p.Fates = g.fates(2*n+6, []float64{0.05, 0.15, 0.4}[g.Intn(3)], "nak can none late resp lost dup ck short slow werr twice", g.pick(50, 500, 3000))
	if g.chance(0.5) {
		for k := g.rng(1, 6); k > 0; k-- {
			nd := p.Nodes[g.Intn(len(p.Nodes))]
			p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 1))), Op: "feed", X: hx(g.goodFrame([]NodeSpec{nd}, k))})
		}
	}
	if n > 18 {
		for k := range p.Fates {
			if g.chance(0.9) {
				p.Fates[k] = Fate{NoResp: true}
			}
		}
	}
	if g.chance(0.3) {
		for k := g.rng(1, 4); k > 0; k-- {
			p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 1))), Op: "feed", X: hx([]byte{byte(g.pick(ACK, NAK, CAN))})})
		}
	}
	if g.chance(0.4) {
		g.losses(p, g.rng(1, 3), span+3_000_000)
	}
	return p
}

// play runs the planned steps of the request scenarios.
func (w *World) play() []*Req {
	t0 := w.now()
	var reqs []*Req
	for _, s := range w.plan.Steps {
		w.sleepUntil(t0 + s.at())
		switch s.Op {
		case "req":
			reqs = append(reqs, w.request(len(reqs), len(reqs), s.A, s.N, time.Duration(s.B)*time.Millisecond, s.C != 0))
		case "feed":
			if p := w.opener.cur(); p != nil {
				w.fault("unrequested-input")
				p.send(s.bytes(), s.L)
			}
		case "lose":
			w.lose(s)
		}
	}
	return reqs
}

func (w *World) settleReqs(reqs []*Req, limit time.Duration) {
	w.waitFor(limit, 500*time.Millisecond, func() bool {
		for _, r := range reqs {
			if !r.Returned || r.Collect && !r.Closed {
				return false
			}
		}
		return true
	})
}

func runC04(w *World) {
	w.preload()
	reqs := w.play()
	longest := time.Duration(0)
	for _, r := range reqs {
		if r.Limit > longest {
			longest = r.Limit
		}
	}
	w.settleReqs(reqs, 60*time.Second+time.Duration(len(reqs))*(longest+2*time.Second))
	w.sleep(2 * time.Second)
	for _, r := range reqs {
		if !r.Returned {
			w.fail("call-blocks", "request %d (kind %d) issued at %v has not returned at %v, although the link is up\n%s", r.ID, r.Kind, r.CalledAt, w.now(), w.s.Dump())
		}
		if !r.Collect {
			continue
		}
		if r.Msgs > 1 {
			w.fail("two-responses", "request %d (kind %d) delivered %d responses", r.ID, r.Kind, r.Msgs)
		}
		if !r.Closed {
			w.fail("not-closed", "request %d (kind %d, limit %v) returned at %v, but its channel is not closed at %v", r.ID, r.Kind, r.Limit, r.ReturnedAt, w.now())
		}
		from := r.ReturnedAt
		if t, ok := r.turn(w.stick); ok && t > from {
			from = t
		}
		if r.alike(reqs) > 1 {
			w.reach("requests-with-the-same-bytes")
			if t := r.lastTurn(w.stick); t > from {
				from = t
			}
		}
		if max := from + r.Limit + 900*time.Millisecond + 200*time.Millisecond; r.ClosedAt > max {
			w.fail("closed-late", "request %d (kind %d, limit %v) had its turn at %v, but its channel was closed only at %v", r.ID, r.Kind, r.Limit, from, r.ClosedAt)
		}
		if r.Msgs == 0 {
			w.reach("request-timed-out")
		} else {
			w.reach("request-answered")
		}
	}
}

// twins lets some runs have requests that do not differ in a byte.
func (g G) twins(p *Plan) {
	if g.chance(0.25) {
		p.K["twins"] = g.rng(1, 3)
	}
}

// C05

func ident(node int) NodeSpec {
	return NodeSpec{ID: node, Basic: 4, Generic: byte(node), Specific: byte(node) ^ 0x5a, Man: 0x4000 + node, Typ: 0x100 + node, Prod: node, Endpoints: node}
}

func rSensorIdent(node int) []byte {
	return report(node, 0x31, 0x05, 4, 0<<5|4, 0, 0, 7, byte(node))
}

func genC05(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 5), 0), K: map[string]int{}}
	if g.chance(0.25) { // ids close to values that occur elsewhere in frames
		p.Nodes[0].ID = g.pick(3, 4, 5, 6, 7, 8, 9)
		for j := 1; j < len(p.Nodes); j++ {
			if p.Nodes[j].ID == p.Nodes[0].ID {
				p.Nodes[j].ID += 20
			}
		}
	}
	if g.chance(0.5) {
		p.K["coalesce"] = 1
	}
	n := g.rng(1, 12)
	g.twins(p)
	span := int64(g.pick(1, 500_000, 4_000_000))
	if g.chance(0.01) {
		n = g.rng(20, 100)
	}
	kinds := []int{qProto, qMan, qEnd, qSwitch, qSensor, qLevel, qDisc, qVer}
	if g.chance(0.3) {
		kinds = []int{qProto, qProto, qMan}
	}
	for k := 0; k < n; k++ {
		kind := kinds[g.Intn(len(kinds))]
		lim := g.pick(300, 1000, 2500, 6000)
		if kind == qProto {
			lim = g.pick(20000, 30000)
		}
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 1))), Op: "req", A: kind, N: p.Nodes[g.Intn(len(p.Nodes))].ID, B: lim, C: 1})
	}
	p.Fates = g.fates(2*n+6, []float64{0.05, 0.15, 0.3}[g.Intn(3)], "nak can none late resp lost dup ck short twice", 900)
	p.Fates[0] = Fate{}
	if g.chance(0.8) {
		for k := g.rng(1, 14); k > 0; k-- {
			p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 2_000_000))), Op: "feed", X: hx(g.distractor(p.Nodes))})
		}
	}
	return p
}

// distractor is input that answers no request it should not answer.
func (g G) distractor(nodes []NodeSpec) []byte {
	n := nodes[g.Intn(len(nodes))].ID
	switch g.Intn(12) {
	case 0:
		return report(n, 0x31, 0x02, byte(g.Intn(8)))
	case 1:
		return report(n, 0x72, 0x07, 1, 2, 3)
	case 2:
		return report(n, 0x60, 0x0a, 1, 2)
	case 3:
		return rAlarm(n, 7, 0)
	case 4:
		return rWakeUp(n)
	case 5: // nodes nobody asked
		m := g.pick(50, 51, 52)
		switch g.Intn(5) {
		case 0:
			return rManufacturer(ident(m))
		case 1:
			return rEndpoints(ident(m))
		case 2:
			return rSensorIdent(m)
		case 3:
			return rLevel(m, byte(m))
		}
		return rSwitchBinary(m, true)
	case 6: // short frames whose neighbours complete the picture
		b := frame(0x01, 0x13, byte(g.Intn(256)))
		class := byte(g.pick(0x25, 0x26, 0x31, 0x60, 0x72))
		tail := frame(append([]byte{0x00, byte(g.pick(0x49, 0x0a)), byte(n), class, byte(g.pick(3, 5, 8))}, g.bytes(g.rng(0, 4))...)...)
		return append(b, tail...)
	case 7: // checksum equal to the node
		for v := 0; v < 256; v++ {
			f := frame(0x01, 0x13, byte(v))
			if int(f[len(f)-1]) == n {
				// frame followed by a frame of length equal to a class
				class := g.pick(0x25, 0x26, 0x31)
				body := append([]byte{byte(g.pick(3, 5, 8)), 0x0a}, g.bytes(class-3)...)
				return append(f, frame(body...)...)
			}
		}
	case 8:
		return frame(0x00, 0x13, byte(g.Intn(256)), byte(n), 0)
	case 9: // application command without a command
		return frame(0x00, 0x04, 0x00, byte(n), 0x00)
	case 10:
		return frame(0x00, 0x04, 0x00, byte(n), 0x01, byte(g.pick(0x25, 0x31, 0x60, 0x72))) // not 26: it would answer a level request
	case 11: // the same class from a node, truncated
		return report(n, byte(g.pick(0x60, 0x72, 0x31)), byte(g.pick(1, 4, 6, 9)), 1)
	}
	return report(n, 0x86, 0x12, 1, 2)
}

func runC05(w *World) {
	w.preload()
	w.stick.answer = func(h *HostFrame) [][]byte {
		switch h.fn() {
		case 0x41:
			return [][]byte{fProtocolInfo(ident(int(h.Body[2])))}
		case 0x02:
			return [][]byte{fDiscovery(nil)}
		case 0x15:
			return [][]byte{frame(append([]byte{0x01, 0x15}, []byte("Z-Wave 3.95\x00\x01")...)...)}
		}
		n := h.node()
		r := [][]byte{fSendDataResp()}
		switch c := h.payload(); {
		case len(c) < 2:
		case c[0] == 0x72:
			r = append(r, rManufacturer(ident(n)))
		case c[0] == 0x60:
			r = append(r, rEndpoints(ident(n)))
		case c[0] == 0x25:
			r = append(r, rSwitchBinary(n, true))
		case c[0] == 0x31:
			r = append(r, rSensorIdent(n))
		case c[0] == 0x26:
			r = append(r, rLevel(n, byte(n)%90))
		}
		return r
	}
	reqs := w.play()
	w.settleReqs(reqs, 600*time.Second)
	w.sleep(1 * time.Second)
	short := map[string]bool{} // an undecodable answer ends every request it answers
	for _, h := range w.stick.frames {
		if h.Fate.Garble == "short" && len(h.Body) > 5 {
			short[string(h.Body[2:3])+string(h.Body[4:5])] = true
		}
	}
	for _, r := range reqs {
		if r.Nils > 0 {
			w.fail("nil-message", "request %d (kind %d) was completed with a nil message", r.ID, r.Kind)
		}
		if r.Msgs > 0 {
			if bad := wrongAnswer(r); bad != "" {
				w.fail("wrong-answer", "request %d to node %d was completed by %s", r.ID, r.Node, bad)
			}
			w.reach("request-answered")
			continue
		}
		if r.Kind == qVer || len(r.body) > 5 && short[string(r.body[2:3])+string(r.body[4:5])] {
			continue
		}
		turn, ok := r.turn(w.stick)
		if !ok {
			continue
		}
		if r.alike(reqs) > 1 { // whichever of them it was
			least := r.Limit
			for _, x := range reqs {
				if eqBytes(x.body, r.body) && x.Limit < least {
					least = x.Limit
				}
			}
			fs := r.frames(w.stick)
			all := len(fs) == r.alike(reqs)
			for _, h := range fs {
				all = all && h.Ans && h.AnsAt <= h.At+least-200*time.Millisecond && (h.Ctl == ACK || h.Ctl == 0)
			}
			if all {
				w.fail("answer-missed", "request %d (kind %d, limit %v) to node %d is one of %d with the same bytes, each of them was answered within %v, but its caller got nothing", r.ID, r.Kind, r.Limit, r.Node, len(fs), least)
			}
			continue
		}
		for _, h := range r.frames(w.stick) {
			if h.Ans && h.AnsAt <= turn+r.Limit-200*time.Millisecond && (h.Ctl == ACK || h.Ctl == 0) {
				w.fail("answer-missed", "request %d (kind %d, limit %v) to node %d was sent at %v and answered at %v, but its caller got nothing", r.ID, r.Kind, r.Limit, r.Node, turn, h.AnsAt)
			}
		}
	}
}

// wrongAnswer says what is wrong with the message a request got.
func wrongAnswer(r *Req) string {
	id := ident(r.Node)
	switch r.Kind {
	case qProto:
		pi, ok := r.Msg.Data.(*serialapi.FuncGetNodeProtocolInfo)
		if !ok {
			return fmt.Sprintf("a message of type %T", r.Msg.Data)
		}
		if pi.Generic != id.Generic || pi.Specific != id.Specific {
			return fmt.Sprintf("the protocol information of node %d", pi.Generic)
		}
	case qDisc:
		if _, ok := r.Msg.Data.(*serialapi.DiscoverdNodes); !ok {
			return fmt.Sprintf("a message of type %T", r.Msg.Data)
		}
	case qVer:
		return fmt.Sprintf("a message of type %T, although the answer cannot be decoded", r.Msg.Data)
	case qLevel:
		f, ok := r.Msg.Data.(*serialapi.FuncApplicationCommandHandler)
		if !ok {
			return fmt.Sprintf("a message of type %T", r.Msg.Data)
		}
		if int(r.Msg.NodeID) != r.Node {
			return fmt.Sprintf("a message of node %d", r.Msg.NodeID)
		}
		if _, ok := f.Report.(*reports.SwitchMultilevelV1); !ok {
			return fmt.Sprintf("a report of type %T", f.Report)
		}
	case qMan:
		m, ok := r.Rep.(*reports.ManufacturerSpecific)
		if !ok {
			return fmt.Sprintf("a report of type %T", r.Rep)
		}
		if m.Manufacturer != fmt.Sprintf("%04x", id.Man) {
			return fmt.Sprintf("the manufacturer report %v", m)
		}
	case qEnd:
		m, ok := r.Rep.(*reports.MultiChannelEndpoints)
		if !ok {
			return fmt.Sprintf("a report of type %T", r.Rep)
		}
		if m.Endpoints != id.Endpoints {
			return fmt.Sprintf("the endpoint report of another node: %v", m)
		}
	case qSensor:
		m, ok := r.Rep.(*reports.SensorMultiLevel)
		if !ok {
			return fmt.Sprintf("a report of type %T", r.Rep)
		}
		if m.Value != float64(0x700+r.Node) {
			return fmt.Sprintf("the sensor report of another node: %v", m.Value)
		}
	case qSwitch:
		if _, ok := r.Rep.(*reports.SwitchBinaryV1); !ok {
			return fmt.Sprintf("a report of type %T", r.Rep)
		}
	}
	return ""
}

// C06

func genC06(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	n := g.rng(2, 25)
	span := int64(g.pick(1, 300_000, 3_000_000, 15_000_000))
	for k := 0; k < n; k++ {
		s := Step{At: int64(g.Intn(int(span + 1))), Op: "req", A: g.Intn(nKinds), N: p.Nodes[g.Intn(len(p.Nodes))].ID, B: g.pick(1, 50, 300, 1000, 3000), C: g.pick(1, 1, 0)}
		if g.chance(0.4) {
			s.Op = "ctl"
			s.A = g.Intn(6)
			s.F = float64(g.Intn(120))
			s.B = g.rng(1, 3)
		}
		p.Steps = append(p.Steps, s)
	}
	p.Fates = g.fates(3*n, []float64{0.05, 0.2, 0.5}[g.Intn(3)], "nak can none late resp lost dup ck short slow werr twice", g.pick(50, 1000))
	for k := g.rng(0, 8); k > 0; k-- {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 1))), Op: "feed", X: hx(g.goodFrame(p.Nodes, k))})
	}
	if g.chance(0.5) {
		g.losses(p, g.rng(1, 4), span+5_000_000)
	}
	return p
}

func runC06(w *World) {
	st := w.stick
	st.strict = true
	st.onFrame = func(h *HostFrame) {
		if h.N == 0 {
			return
		}
		prev := st.frames[h.N-1]
		if prev.Port != h.Port || w.now() >= prev.At+950*time.Millisecond-w.s.Stalled() { // a second less what the scheduler may stall it
			return
		}
		for _, c := range st.ctlLog[prev.CtlN:] {
			if c.Port == h.Port {
				return
			}
		}
		w.fail("two-in-transit", "frame %x was started at %v, while frame %x of %v was not acknowledged, refused or cancelled", h.Body, w.now(), prev.Body, prev.At)
	}
	w.preload()
	t0 := w.now()
	var reqs []*Req
	n := 0
	for _, s := range w.plan.Steps {
		w.sleepUntil(t0 + s.at())
		switch s.Op {
		case "req":
			reqs = append(reqs, w.request(n, n, s.A, s.N, time.Duration(s.B)*time.Millisecond, s.C != 0))
			n++
		case "ctl":
			s := s
			w.spawnLib("control", func() { w.control(s) })
		case "feed":
			if p := w.opener.cur(); p != nil {
				p.send(s.bytes(), s.L)
			}
		case "lose":
			w.lose(s)
		}
	}
	w.settleReqs(reqs, 120*time.Second)
	w.sleep(30 * time.Second)
	if len(st.buf) > 0 {
		w.fail("partial-frame", "the library left an incomplete frame on the line: %x", st.buf)
	}
	w.reach(fmt.Sprintf("frames-%d", len(st.frames)/10*10))
}

// control makes one control call as planned: A = call, N = node, B = endpoint, F = level.
func (w *World) control(s Step) {
	n := w.ctl.Nodes.Get(s.N)
	if n == nil {
		return
	}
	switch s.A {
	case 0:
		n.On()
	case 1:
		n.Off()
	case 2:
		n.Level(s.F)
	default:
		e := n.Endpoint(s.B)
		if e == nil {
			return
		}
		switch s.A {
		case 3:
			e.On()
		case 4:
			e.Off()
		case 5:
			e.Level(s.F)
		}
	}
}

// C07

func genC07(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	clients := g.rng(1, 5)
	n := g.rng(1, 22)
	g.twins(p)
	span := int64(g.pick(1, 300_000, 3_000_000))
	if g.chance(0.02) { // a crowd
		n = g.rng(30, 150)
	}
	for k := 0; k < n; k++ {
		kind := g.Intn(nKinds)
		if g.chance(0.4) {
			kind = qWrite
		}
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 1))), Op: "cmd", A: kind, N: p.Nodes[g.Intn(len(p.Nodes))].ID, B: g.pick(1, 50, 300, 1000, 3000), C: g.Intn(clients)})
	}
	p.Fates = g.fates(3*n+5, []float64{0.05, 0.2, 0.4}[g.Intn(3)], "nak can none late resp lost dup ck short twice", g.pick(50, 1000))
	p.Fates[0] = Fate{}
	if g.chance(0.4) {
		for k := range p.Fates {
			if g.chance(0.3) {
				p.Fates[k].WriteMs = g.rng(1, 50)
			}
		}
	}
	for k := g.rng(0, 10); k > 0; k-- {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		f := [][]byte{rSwitchBinary(nd.ID, true), rLevel(nd.ID, 3), rManufacturer(nd), rEndpoints(nd), rSensor(nd.ID, 1, 7)}
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 2_000_000))), Op: "feed", X: hx(f[g.Intn(len(f))])})
	}
	return p
}

func runC07(w *World) {
	w.preload()
	t0 := w.now()
	var all []*Req
	lists := map[int][]*Req{}
	encs := map[*Req]encoded{}
	ats := map[*Req]time.Duration{}
	for _, s := range w.plan.Steps {
		if s.Op != "cmd" {
			continue
		}
		id := len(all)
		kind := s.A
		var r *Req
		var enc encoded
		if kind == qWrite {
			k := w.plan.nonceOf(id)
			r, enc = newReq(id, s.C, qSwitch, s.N, k, 0, false)
			a, b := nonce(k)
			enc = sendData(s.N, 0x70, 0x04, a, b, byte(k))
			r.Kind, r.body = qWrite, append([]byte{0x00}, enc...)
		} else {
			r, enc = newReq(id, s.C, kind, s.N, w.plan.nonceOf(id), time.Duration(s.B)*time.Millisecond, true)
		}
		all = append(all, r)
		encs[r], ats[r] = enc, t0+s.at()
		lists[s.C] = append(lists[s.C], r)
	}
	for c := 0; c < 8; c++ {
		l := lists[c]
		if len(l) == 0 {
			continue
		}
		w.spawnLib(fmt.Sprintf("client %d", c), func() {
			for _, r := range l {
				w.sleepUntil(ats[r])
				if r.Kind == qWrite {
					r.CalledAt = w.now()
					w.ctl.Connection.Write(encs[r])
					r.Returned, r.ReturnedAt, r.Closed = true, w.now(), true
					continue
				}
				if collect := w.issue(r, encs[r]); collect != nil {
					w.spawnLib("collector", collect)
				}
			}
		})
	}
	for _, s := range w.plan.Steps {
		if s.Op == "feed" {
			w.sleepUntil(t0 + s.at())
			w.opener.cur().send(s.bytes(), s.L)
			w.fault("unrequested-input")
		}
	}
	w.settleReqs(all, time.Duration(len(all))*8*time.Second+30*time.Second)
	w.sleep(15 * time.Second)
	st := w.stick
	owner := map[string]*Req{}
	for _, r := range all {
		owner[string(r.body)] = r
		if !r.Returned {
			w.fail("call-blocks", "command %d issued at %v has not returned at %v", r.ID, r.CalledAt, w.now())
		}
		alike := r.alike(all)
		want := alike
		fs := r.frames(st)
		for _, h := range fs {
			if h.Ctl == CAN {
				want++
			}
		}
		if len(fs) != want {
			w.fail("count", "command %d (kind %d, issued %d times) was cancelled %d times, but transmitted %d times", r.ID, r.Kind, alike, want-alike, len(fs))
		}
		if alike > 1 {
			w.reach("commands-with-the-same-bytes")
			continue
		}
		for _, h := range fs {
			if h.Ctl == NAK && r.Kind != qWrite && (!r.Closed || r.ClosedAt > h.CtlAt+500*time.Millisecond+200*time.Millisecond) {
				w.fail("refused-waits", "command %d (limit %v) was refused at %v, but its caller was released at %v", r.ID, r.Limit, h.CtlAt, r.ClosedAt)
			}
		}
	}
	for _, h := range st.frames {
		if owner[string(h.Body)] == nil && !(len(h.Body) == 2 && h.fn() == 0x02) {
			w.fail("foreign-frame", "frame %x was transmitted, but nobody issued it", h.Body)
		}
	}
	for c := 0; c < 8; c++ {
		last := uint64(0)
		for _, r := range lists[c] {
			if r.alike(all) > 1 {
				continue
			}
			f := r.frames(st)[0]
			if f.Seq < last {
				w.fail("order", "client %d: command %d was transmitted before a command the client issued earlier", c, r.ID)
			}
			last = f.Seq
		}
	}
}
