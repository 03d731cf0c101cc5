package main

import (
	"fmt"
	"time"
)

// C01, C02, C03: what the serial line delivers.

func init() {
	register(&Scenario{ID: "C01", gen: genC01, run: runC01, stallMax: 20, stallSum: 100, quick: 40000, thorough: 150000})
	register(&Scenario{ID: "C02", gen: genC02, run: runC02, quick: 40000, thorough: 150000})
	register(&Scenario{ID: "C03", gen: genC03, run: runC03, quick: 40000, thorough: 150000})
}

func (g G) noise(nodes []NodeSpec) []byte {
	var b []byte
	node := byte(nodes[g.Intn(len(nodes))].ID)
	switch g.Intn(16) {
	case 0:
		b = g.bytes(g.rng(1, 40))
	case 1: // random bytes over the interesting alphabet
		n := g.rng(1, 60)
		for i := 0; i < n; i++ {
			b = append(b, byte(g.pick(0x01, 0x01, 0x06, 0x15, 0x18, 0x00, 0x04, 0x13, 0x41, 0x02, 0xff, 3, 4, 5, int(node))))
		}
	case 2: // well-formed frame, any body
		b = frame(g.bytes(g.rng(0, 40))...)
	case 3: // well-formed frame of a known function, any payload
		body := append([]byte{byte(g.Intn(2)), byte(g.pick(0x04, 0x04, 0x02, 0x41, 0x13, 0x15, 0x49))}, g.bytes(g.rng(0, 50))...)
		b = frame(body...)
	case 4: // report that is shorter or longer than it says
		cmd := g.bytes(g.rng(0, 12))
		body := append([]byte{0, 4, 0, node, byte(g.pick(0, 1, 2, 3, 5, 40, 200, 255))}, cmd...)
		b = frame(body...)
	case 5: // report of a known class with any payload
		cmd := append([]byte{byte(g.pick(0x71, 0x72, 0x60, 0x31, 0x25, 0x26, 0x84)), byte(g.pick(5, 8, 3, 7, 2, 0))}, g.bytes(g.rng(0, 9))...)
		b = report(int(node), cmd...)
	case 6: // node list with a mask of any size
		m := g.bytes(g.pick(0, 1, 5, 6, 28, 29, 30, 31, 60))
		for i := range m {
			m[i] &= byte(g.pick(0, 0, 0xff)) // mostly nobody
		}
		b = frame(append([]byte{1, 2, 5, 0, byte(len(m))}, m...)...)
	case 7:
		b = frame(append([]byte{1, 0x41}, g.bytes(g.rng(0, 8))...)...)
	case 8: // a good frame cut off
		f := rSwitchBinary(int(node), true)
		b = f[:g.rng(1, len(f)-1)]
	case 9:
		b = []byte{0x01, byte(g.pick(0, 1, 2, 3, 255, 200, 128))}
		b = append(b, g.bytes(g.rng(0, 20))...)
	case 10: // control bytes
		n := g.rng(1, 30)
		for i := 0; i < n; i++ {
			b = append(b, byte(g.pick(0x06, 0x15, 0x18)))
		}
	case 11: // tiny frames
		b = frame(g.bytes(g.rng(0, 5))...)
	case 12: // zero length
		b = []byte{0x01, 0x00, byte(g.pick(0x00, 0xff))}
	case 13: // a big burst
		b = g.bytes(g.rng(128, 400))
	case 14: // frames with one byte changed
		f := report(int(node), append([]byte{byte(g.pick(0x71, 0x72, 0x60, 0x31, 0x25, 0x26)), 5}, g.bytes(g.rng(1, 8))...)...)
		f[g.Intn(len(f))] ^= byte(1 << uint(g.Intn(8)))
		b = f
	case 15: // good frame behind rubbish
		b = append(g.bytes(g.rng(1, 5)), rSwitchBinary(int(node), g.chance(0.5))...)
	}
	return b
}

func genC01(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 3), 0), K: map[string]int{"rawdamage": 1}}
	if g.chance(0.1) {
		p.K["debug"] = 1
	}
	if g.chance(0.5) {
		p.K["coalesce"] = 1
	}
	rounds := g.rng(1, 3)
	t := int64(0)
	p.Fates = g.fates(20, 0.15, "nak can none late resp lost dup ck short", 900)
	p.Fates[0] = Fate{} // the node list is read before the noise: noise may contain node lists as well
	for r := 0; r < rounds; r++ {
		n := g.rng(1, 12)
		reqs := g.chance(0.6)
		for k := 0; k < n; k++ {
			b := g.noise(p.Nodes)
			for g.chance(0.3) {
				b = append(b, g.noise(p.Nodes)...)
			}
			s := Step{At: t + int64(g.Intn(2_000_000)), Op: "noise", X: hx(b)}
			if g.chance(0.5) {
				s.L = g.chunks(len(b), g.pick(500, 5000, 50_000, 300_000))
			}
			p.Steps = append(p.Steps, s)
		}
		if reqs {
			for k := g.rng(1, 4); k > 0; k-- {
				p.Steps = append(p.Steps, Step{At: t + int64(g.Intn(1_000_000)), Op: "req", A: g.Intn(nKinds), N: p.Nodes[g.Intn(len(p.Nodes))].ID, B: g.pick(100, 500, 1500)})
			}
		}
		pr := Step{At: t + 10_000_000, Op: "probe", N: p.Nodes[g.Intn(len(p.Nodes))].ID, A: r % 2}
		if g.chance(0.4) {
			pr.L = g.chunks(10, 12_000)
			p.K["nostall"] = 1
		}
		p.Steps = append(p.Steps, pr)
		t += 13_000_000
	}
	return p
}

func runC01(w *World) {
	w.preload()
	t0 := w.now()
	nreq := 0
	probes := 0
	for _, s := range w.plan.Steps {
		w.sleepUntil(t0 + s.at())
		port := w.opener.cur()
		if port == nil {
			w.fail("port-lost", "the library gave up a healthy port")
		}
		switch s.Op {
		case "noise":
			w.fault("line-noise")
			port.send(s.bytes(), s.L)
		case "req":
			w.request(nreq, nreq, s.A, s.N, time.Duration(s.B)*time.Millisecond, true)
			nreq++
		case "probe":
			w.probe(port, s.N, s.A == 0, s.L, "after-noise")
			probes++
		}
	}
	if probes == 0 { // a minimised plan
		w.sleep(8 * time.Second)
		w.probe(w.opener.cur(), w.plan.Nodes[0].ID, true, nil, "after-noise")
	}
	if w.opener.Calls != 1 {
		w.fail("port-lost", "the library opened the port %d times although it never failed", w.opener.Calls)
	}
}

// probe sends a well-formed frame on a quiet line: it must be acknowledged once and applied.
func (w *World) probe(port *Port, node int, on bool, chunks []int, key string) {
	if port == nil {
		w.fail(key+"-no-port", "no port is open")
	}
	w.probeOnce(port, node, !on, nil, key)
	w.probeOnce(port, node, on, chunks, key)
}
func (w *World) probeOnce(port *Port, node int, on bool, chunks []int, key string) {
	a0, e0 := len(w.stick.acks)-w.stick.answers, w.updates(node)
	port.send(rSwitchBinary(node, on), chunks)
	w.sleep(1 * time.Second)
	// the library may be asking something itself just now; those answers are acknowledged as well
	w.waitFor(300*time.Millisecond, 7*time.Millisecond, func() bool { return len(w.stick.acks)-w.stick.answers-a0 == 1 })
	if n := len(w.stick.acks) - w.stick.answers - a0; n != 1 {
		w.fail(key+"-not-acked", "a well-formed frame on a quiet line was acknowledged %d times within a second\n%s", n, w.s.Dump())
	}
	st, ok := w.state(node)
	if !ok {
		w.fail(key+"-node-gone", "node %d is not known any more", node)
	}
	if v, has := st.Bool["on"]; !has || v != on {
		w.fail(key+"-not-applied", "a well-formed report on=%v of node %d on a quiet line was not applied within a second (state %v)", on, node, st)
	}
	if n := w.updates(node) - e0; n < 1 { // noise that reads as a node list may have started more identifications
		w.fail(key+"-events", "a well-formed report on a quiet line was announced by %d events", n)
	}
}

// lineItem is one frame or control byte of a stream and its effect.
type model struct {
	bools  map[int]map[string]bool
	floats map[int]map[string]float64
	events map[int]int
	acks   int
}

func newModel() *model {
	return &model{map[int]map[string]bool{}, map[int]map[string]float64{}, map[int]int{}, 0}
}
func (m *model) setB(n int, k string, v bool) {
	if m.bools[n] == nil {
		m.bools[n] = map[string]bool{}
	}
	m.bools[n][k] = v
}
func (m *model) setF(n int, k string, v float64) {
	if m.floats[n] == nil {
		m.floats[n] = map[string]float64{}
	}
	m.floats[n][k] = v
}

// apply is the reference meaning of one frame.
func (m *model) apply(f []byte, known map[int]bool) {
	m.acks++
	if len(f) < 9 || f[3] != 0x04 {
		return
	}
	node := int(f[5])
	if 7+int(f[6]) > len(f)-1 {
		return
	}
	cmd := f[7 : 7+int(f[6])]
	if !known[node] || len(cmd) < 3 {
		return
	}
	switch {
	case cmd[0] == 0x25 && cmd[1] == 0x03 && len(cmd) == 3:
		m.setB(node, "on", cmd[2] == 0xff)
	case cmd[0] == 0x25 && cmd[1] == 0x03 && len(cmd) == 5:
		m.setB(node, "on", cmd[2] != 0)
	case cmd[0] == 0x26 && cmd[1] == 0x03 && (len(cmd) == 3 || len(cmd) == 5):
		v := float64(cmd[2])
		if v > 100 {
			v = 100
		}
		m.setB(node, "on", v > 0)
		m.setF(node, "level", v)
	case cmd[0] == 0x31 && cmd[1] == 0x05:
		key, v, ok := readingOf(cmd)
		if !ok {
			return
		}
		m.setF(node, key, v)
	default:
		return
	}
	m.events[node]++
}

// check compares the library's view of the nodes with the model.
func (w *World) checkModel(m *model, nodes []NodeSpec, key string) {
	for _, n := range nodes {
		st, ok := w.state(n.ID)
		if !ok {
			w.fail(key+"-node-gone", "node %d is not known any more", n.ID)
		}
		for k, v := range m.bools[n.ID] {
			if g, has := st.Bool[k]; !has || g != v {
				w.fail(key+"-state", "node %d: %s is %v (present %v), its reports say %v", n.ID, k, g, has, v)
			}
		}
		for k, v := range m.floats[n.ID] {
			if g, has := st.Float[k]; !has || !eqFloat(g, v) {
				w.fail(key+"-state", "node %d: %s is %v (present %v), its reports say %v", n.ID, k, g, has, v)
			}
		}
		for k, v := range st.Float {
			if _, has := m.floats[n.ID][k]; !has && !(len(k) >= 5 && k[:5] == "alarm") {
				w.fail(key+"-state", "node %d: %s=%v appeared, but no report said so", n.ID, k, v)
			}
		}
		if e := w.updates(n.ID); e != m.events[n.ID] {
			w.fail(key+"-events", "node %d: %d reports, but %d update events", n.ID, m.events[n.ID], e)
		}
	}
}

// goodFrame draws a well-formed frame with a definite effect.
func (g G) goodFrame(nodes []NodeSpec, i int) []byte {
	n := nodes[g.Intn(len(nodes))].ID
	switch g.Intn(12) {
	case 0, 1:
		return rSwitchBinary(n, g.chance(0.5))
	case 2:
		return report(n, 0x25, 0x03, byte(g.pick(0, 0xff)), byte(g.pick(0, 0xff)), byte(g.Intn(3)))
	case 3, 4:
		return rLevel(n, byte(g.pick(0, 1, 6, 0x15, 0x18, 50, 99, 0xff)))
	case 5:
		return report(n, 0x26, 0x03, byte(g.pick(0, 1, 6, 99)), byte(g.pick(0, 99)), 1)
	case 6, 7, 8:
		return rSensor(n, g.Intn(len(sensorKinds)), g.pick(0x01060115, 0x15181806, -0x01010101, 1, i*7, 0x06060606, 0x18))
	case 9:
		return frame(append([]byte{byte(g.Intn(2)), byte(g.pick(0x13, 0x15, 0x49, 0x61, 0x0a))}, g.bytes(g.rng(0, 12))...)...)
	case 10: // unknown node
		return rSwitchBinary(222, true)
	}
	return report(n, 0x31, 0x02, byte(g.Intn(256))) // well-formed, nothing the library understands
}

func genC02(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 3), 0), K: map[string]int{}}
	if g.chance(0.5) {
		p.K["coalesce"] = 1
	}
	if g.chance(0.1) {
		p.K["debug"] = 1
	}
	ctl := g.chance(0.6)
	reqs := g.chance(0.3)
	if reqs && g.chance(0.6) { // the port is busy while the stream goes on
		p.Fates = make([]Fate, 30)
		for k := range p.Fates {
			p.Fates[k].WriteMs = g.pick(0, 20, 45, 60, 100, 300)
		}
	}
	if g.chance(0.15) {
		p.K["ackms"] = g.pick(1, 10, 45, 80)
	}
	t := int64(0)
	for k := g.rng(2, 14); k > 0; k-- {
		var b []byte
		reportsLeft := g.rng(1, 7)
		var cuts []int
		for n := g.rng(1, 7); n > 0 && reportsLeft > 0; n-- {
			if ctl && g.chance(0.4) {
				b = append(b, byte(g.pick(0x06, 0x15, 0x18)))
				cuts = append(cuts, len(b))
				continue
			}
			if g.chance(0.03) { // as long as frames can be
				b = append(b, frame(append([]byte{byte(g.Intn(2)), byte(g.pick(0x13, 0x15, 0x49, 0x61, 0x0a))}, g.bytes(g.pick(60, 125, 126, 200, 251, 252))...)...)...)
			} else {
				b = append(b, g.goodFrame(p.Nodes, k)...)
			}
			cuts = append(cuts, len(b))
			reportsLeft--
		}
		s := Step{At: t, Op: "group", X: hx(b)}
		switch g.Intn(5) {
		case 0: // all in one
		case 1: // frame by frame
			last := 0
			for _, c := range cuts {
				s.L = append(s.L, c-last, g.Intn(2000))
				last = c
			}
		case 2: // just off the frame boundaries
			last := 0
			for _, c := range cuts {
				c += g.rng(-1, 1)
				if c > last && c < len(b) {
					s.L = append(s.L, c-last, g.Intn(2000))
					last = c
				}
			}
			s.L = append(s.L, len(b)-last, 0)
		default:
			s.L = g.chunks(len(b), 14_000)
		}
		p.Steps = append(p.Steps, s)
		if reqs && g.chance(0.5) {
			p.Steps = append(p.Steps, Step{At: t + int64(g.Intn(20_000)), Op: "req", A: g.pick(qProto, qMan, qSwitch, qSensor, qLevel, qVer, qDisc), N: p.Nodes[g.Intn(len(p.Nodes))].ID, B: g.pick(300, 1000)})
		}
		t += int64(g.pick(60_000, 100_000, 400_000))
	}
	return p
}

func knownNodes(nodes []NodeSpec) map[int]bool {
	m := map[int]bool{}
	for _, n := range nodes {
		m[n.ID] = true
	}
	return m
}

// splitFrames cuts a well-formed stream into its frames.
func splitFrames(b []byte) (fs [][]byte, ctl int) {
	for len(b) > 0 {
		if b[0] != 0x01 {
			ctl++
			b = b[1:]
			continue
		}
		n := int(b[1]) + 2
		fs = append(fs, b[:n])
		b = b[n:]
	}
	return
}

func runC02(w *World) {
	w.preload()
	m := newModel()
	known := knownNodes(w.plan.Nodes)
	// answers only as frames without an effect on the nodes, so that the planned stream decides alone
	w.stick.answer = func(h *HostFrame) [][]byte {
		if h.fn() == 0x02 {
			m.acks++
			return [][]byte{fDiscovery(nil)}
		}
		m.acks++
		return [][]byte{fSendDataResp()}
	}
	acks0 := len(w.stick.acks)
	t0 := w.now()
	nreq := 0
	check := func() {
		w.sleep(30 * time.Millisecond)
		if !w.waitFor(300*time.Millisecond, 10*time.Millisecond, func() bool { return len(w.stick.acks)-acks0 >= m.acks }) {
			w.fail("acks", "%d data frames arrived, %d were acknowledged", m.acks, len(w.stick.acks)-acks0)
		}
	}
	for i, s := range w.plan.Steps {
		w.sleepUntil(t0 + s.at())
		port := w.opener.cur()
		if port == nil {
			w.fail("port-lost", "the library gave up a healthy port")
		}
		switch s.Op {
		case "group":
			w.fault("chunked-delivery")
			b := s.bytes()
			fs, _ := splitFrames(b)
			for _, f := range fs {
				m.apply(f, known)
			}
			w.sleep(port.send(b, s.L))
			if i+1 >= len(w.plan.Steps) || w.plan.Steps[i+1].At > s.At+50_000 {
				w.sleep(10 * time.Millisecond)
			}
		case "req":
			w.request(nreq, nreq, s.A, s.N, time.Duration(s.B)*time.Millisecond, true)
			nreq++
		}
	}
	if nreq > 0 {
		w.sleep(time.Duration(nreq)*1600*time.Millisecond + 3*time.Second)
	}
	w.sleep(time.Duration(m.acks*w.plan.k("ackms")) * time.Millisecond)
	check()
	w.sleep(500 * time.Millisecond)
	if n := len(w.stick.acks) - acks0; n != m.acks {
		w.fail("acks", "%d data frames arrived, %d acknowledgements were written", m.acks, n)
	}
	w.checkModel(m, w.plan.Nodes, "stream")
}

// damage makes a frame's checksum wrong without making its remains look like a frame or a control code.
func (g G) damage(f []byte) ([]byte, bool) {
	for try := 0; try < 20; try++ {
		d := append([]byte(nil), f...)
		switch g.Intn(5) {
		case 0:
			d[len(d)-1] ^= byte(g.rng(1, 255))
		case 1:
			d[g.rng(2, len(d)-1)] ^= byte(1 << uint(g.Intn(8)))
		case 2:
			for k := g.rng(1, 4); k > 0; k-- {
				d[g.rng(2, len(d)-1)] = byte(g.Uint64() >> 20)
			}
		case 3:
			a := g.rng(2, len(d)-2)
			d[a], d[a+1] = d[a+1], d[a]
		case 4: // the value byte
			d[len(d)-2] ^= byte(g.rng(1, 255))
		}
		ok := checksum(d[1:len(d)-1]) != d[len(d)-1]
		for _, x := range d[1:] {
			if x == 0x01 || x == ACK || x == NAK || x == CAN {
				ok = false
			}
		}
		if ok {
			return d, true
		}
	}
	return nil, false
}

// damageLengths damages the length byte of some of the already damaged frames of a group: what they
// claim to be ends within the group and has a wrong checksum.
func (g G) damageLengths(b []byte, lens, dmg []int) {
	at := len(b)
	for i := len(lens) - 1; i >= 0; i-- { // backwards, so that what follows stays as it is
		n := lens[i]
		at -= n
		if dmg[i] == 1 && g.chance(0.5) {
			for try := 0; try < 10; try++ {
				l := n - 2 + g.rng(-(n-3), 12)
				if g.chance(0.2) {
					l = g.rng(0, len(b))
				}
				if l == 0x01 || l == ACK || l == NAK || l == CAN || at+l+2 > len(b) || l > 255 {
					continue
				}
				if l > 0 && checksum(b[at+1:at+l+1])^b[at+1]^byte(l) == b[at+l+1] {
					continue // would be a good frame
				}
				if l == 0 {
					continue
				}
				b[at+1] = byte(l)
				break
			}
		}
	}
}

// cut cuts a stream into pieces of the given lengths.
func cut(b []byte, lens []int) (fs [][]byte) {
	for _, n := range lens {
		fs = append(fs, b[:n])
		b = b[n:]
	}
	return
}

func genC03(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 3), 0), K: map[string]int{}}
	if g.chance(0.5) {
		p.K["coalesce"] = 1
	}
	t := int64(0)
	reqs := g.chance(0.5)
	for k := g.rng(2, 12); k > 0; k-- {
		var b []byte
		var dmg, lens []int // per frame: 1 damaged, and its length
		left := g.rng(1, 6)
		for n := g.rng(1, 6); n > 0; n-- {
			f := g.goodFrame(p.Nodes, k)
			if g.chance(0.45) {
				if d, ok := g.damage(f); ok {
					b = append(b, d...)
					dmg, lens = append(dmg, 1), append(lens, len(d))
					continue
				}
			}
			if left == 0 {
				continue
			}
			left--
			b = append(b, f...)
			dmg, lens = append(dmg, 0), append(lens, len(f))
		}
		if len(b) == 0 {
			continue
		}
		g.damageLengths(b, lens, dmg)
		mask := 0
		for i, d := range dmg {
			mask |= d << uint(i)
		}
		s := Step{At: t, Op: "group", X: hx(b), A: mask, D: lens}
		if g.chance(0.6) {
			s.L = g.chunks(len(b), 14_000)
		}
		p.Steps = append(p.Steps, s)
		if reqs && g.chance(0.3) {
			n := p.Nodes[g.Intn(len(p.Nodes))]
			f := map[int][]byte{qSwitch: rSwitchBinary(n.ID, true), qSensor: rSensor(n.ID, 2, 0x22334455), qMan: rManufacturer(n), qLevel: rLevel(n.ID, 77)}
			kind := g.pick(qSwitch, qSensor, qMan, qLevel)
			if d, ok := g.damage(f[kind]); ok {
				p.Steps = append(p.Steps, Step{At: t + 50_000, Op: "req", A: kind, N: n.ID, B: g.pick(300, 800), X: hx(d)})
				t += 2_500_000
			}
		}
		t += int64(g.pick(60_000, 100_000, 400_000))
	}
	return p
}

func runC03(w *World) {
	w.preload()
	m := newModel()
	known := knownNodes(w.plan.Nodes)
	var damagedAnswer []byte
	w.stick.answer = func(h *HostFrame) [][]byte {
		if damagedAnswer != nil {
			w.fault("answer-damaged")
			return [][]byte{damagedAnswer}
		}
		return nil
	}
	acks0 := len(w.stick.acks)
	t0 := w.now()
	nreq := 0
	for _, s := range w.plan.Steps {
		w.sleepUntil(t0 + s.at())
		port := w.opener.cur()
		if port == nil {
			w.fail("port-lost", "the library gave up a healthy port")
		}
		switch s.Op {
		case "group":
			b := s.bytes()
			for i, f := range cut(b, s.D) {
				if s.A>>uint(i)&1 == 0 {
					m.apply(f, known)
				} else {
					w.fault("frame-damaged")
				}
			}
			w.sleep(port.send(b, s.L) + 20*time.Millisecond)
			if n := len(w.stick.acks) - acks0; n != m.acks {
				w.fail("acks", "%d intact frames arrived so far, %d were acknowledged", m.acks, n)
			}
		case "req":
			damagedAnswer = s.bytes()
			r := w.request(nreq, nreq, s.A, s.N, time.Duration(s.B)*time.Millisecond, true)
			nreq++
			w.sleep(2200 * time.Millisecond)
			damagedAnswer = nil
			if r.Msgs > 0 {
				w.fail("damaged-answer", "request %d (kind %d) was completed by a damaged frame %s", r.ID, r.Kind, s.X)
			}
		}
	}
	w.sleep(500 * time.Millisecond)
	if n := len(w.stick.acks) - acks0; n != m.acks {
		w.fail("acks", "%d intact frames arrived, %d acknowledgements were written", m.acks, n)
	}
	w.checkModel(m, w.plan.Nodes, "damaged")
	_ = fmt.Sprint
}
