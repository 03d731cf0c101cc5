package main

import (
	"fmt"
	"math"
	"strings"
	"time"
)

// C12: control calls.

func init() {
	register(&Scenario{ID: "C12", gen: genC12, run: runC12, stallMax: 200, stallSum: 2000, quick: 25000, thorough: 300000})
}

func genC12(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 5), 0.2), K: map[string]int{}}
	if g.chance(0.4) {
		p.K["coalesce"] = 1
	}
	switch g.Intn(4) {
	case 0: // the devices are found and identified instead of known from a file
		p.K["discover"] = 1
	case 1: // and after a restart
		p.K["restart"] = 1
	}
	clients := g.rng(1, 6)
	n := g.rng(1, 20)
	span := int64(g.pick(1, 1, 200_000, 2_000_000))
	for k := 0; k < n; k++ {
		nd := p.Nodes[g.Intn(len(p.Nodes))]
		s := Step{At: int64(g.Intn(int(span + 1))), Op: "ctl", A: g.Intn(6), N: nd.ID, C: g.Intn(clients)}
		s.B = g.rng(1, 4)
		if g.chance(0.15) {
			s.B = g.pick(0, -1, nd.Endpoints+1, nd.Endpoints, 255, 256)
		}
		switch g.Intn(8) {
		case 0:
			s.F = []float64{-1, -0.5, -1e300, 0.2, 0.999, 1, 98.5, 98.999, 99.4, 99.99, 100, 101, 255, 256, 300, 1e300}[g.Intn(16)]
		case 1:
			s.X = g.picks("nan", "+inf", "-inf")
		default:
			s.F = float64(g.Intn(10000)) / 100
			if g.chance(0.5) {
				s.F = float64(g.Intn(100))
			}
		}
		p.Steps = append(p.Steps, s)
	}
	if g.chance(0.7) {
		p.Fates = g.fates(3*n+10, []float64{0.05, 0.2, 0.4}[g.Intn(3)], "nak can none late lost slow werr", 50)
	}
	for k := g.rng(0, 6); k > 0; k-- {
		p.Steps = append(p.Steps, Step{At: int64(g.Intn(int(span + 1))), Op: "feed", X: hx(g.goodFrame(p.Nodes, k))})
	}
	return p
}

// setCommand reads a command frame as a device would: what it sets, on which node and endpoint (0: the
// node itself).
type setCommand struct {
	node, ep, class int
	val             int
}

func (c setCommand) String() string {
	t := fmt.Sprintf("node %d", c.node)
	if c.ep != 0 {
		t += fmt.Sprintf(" endpoint %d", c.ep)
	}
	return fmt.Sprintf("%s class %02x value %d", t, c.class, c.val)
}

func parseSet(h *HostFrame) (c setCommand, ok bool, bad string) {
	b := h.Body
	if len(b) < 5 || b[0] != 0 || b[1] != 0x13 {
		return c, false, "not a device command"
	}
	l := int(b[3])
	if l == 0 || len(b) < 4+l+1 {
		return c, false, "wrong length inside of the frame"
	}
	p := b[4 : 4+l]
	c.node = int(b[2])
	if p[0] == 0x60 && len(p) > 1 && p[1] == 0x0d {
		if len(p) < 5 {
			return c, false, "wrapped command without content"
		}
		c.ep = int(p[3])
		p = p[4:]
		if c.ep == 0 {
			c.ep = -1
		}
	}
	if len(p) >= 2 && (p[0] == 0x25 || p[0] == 0x26) && p[1] == 0x01 {
		if len(p) != 3 {
			return c, false, "a set command of the wrong length"
		}
		c.class, c.val = int(p[0]), int(p[2])
		return c, true, ""
	}
	return c, false, ""
}

// expected is what a control call must put on the wire: nil for nothing, else the acceptable commands.
func (s Step) level() float64 {
	switch s.X {
	case "nan":
		return math.NaN()
	case "+inf":
		return math.Inf(1)
	case "-inf":
		return math.Inf(-1)
	}
	return s.F
}
func expectedSet(s Step, spec NodeSpec) []setCommand {
	c := setCommand{node: spec.ID}
	if s.A >= 3 {
		if s.B < 1 || s.B > spec.Endpoints {
			return nil
		}
		c.ep = s.B
	}
	switch s.A % 3 {
	case 0, 1:
		on := s.A%3 == 0
		switch {
		case spec.has(0x25):
			c.class = 0x25
			if on {
				c.val = 0xff
			}
		case spec.has(0x26):
			c.class = 0x26
			if on {
				c.val = 99
			}
		default:
			return nil
		}
		return []setCommand{c}
	}
	if !spec.has(0x26) {
		return nil
	}
	c.class = 0x26
	v := s.level()
	if math.IsNaN(v) {
		var l []setCommand
		for c.val = 0; c.val <= 99; c.val++ {
			l = append(l, c)
		}
		return l
	}
	v = math.Max(0, math.Min(99, v))
	lo, hi := int(math.Floor(v)), int(math.Round(v))
	c.val = lo
	l := []setCommand{c}
	if hi != lo {
		c.val = hi
		l = append(l, c)
	}
	return l
}

type ctlCall struct {
	s    Step
	want []setCommand
	call *Call
	at   time.Duration
}

func runC12(w *World) {
	st := w.stick
	st.faultEnd = 1
	nofates := func() { st.faultEnd = 1 }
	fates := func() { st.faultEnd = 0 }
	st.asleep = map[int]bool{}
	if w.plan.k("discover") == 1 {
		for i, n := range w.plan.Nodes {
			w.plan.Nodes[i].Battery = false
			if len(classesOf(n)) == 0 {
				w.plan.Nodes[i].Endpoints = 0 // the library asks nothing of a device without any class
			}
		}
	}
	if w.plan.k("discover") == 1 {
		w.mustConnect("")
		w.drainEvents()
		if !w.waitFor(60*time.Second, time.Second, func() bool {
			for _, n := range w.plan.Nodes {
				x := w.node(n.ID)
				if x == nil || w.identifiedAs(x, n) != "" {
					return false
				}
			}
			return true
		}) {
			w.fail("not-identified", "the devices are not identified after a minute without faults")
		}
		w.sleep(30 * time.Second)
	} else {
		w.preload()
		if w.plan.k("restart") == 1 {
			w.must("save-hangs", "saving", 30*time.Second, func() {
				if err := w.ctl.SaveConfigurationToFile(); err != nil {
					w.fail("save-error", "saving failed without a fault: %v", err)
				}
			})
			w.s.Crash()
			w.sleep(time.Second)
			w.mustConnect(configFile)
			w.drainEvents()
			w.sleep(1500 * time.Millisecond)
		}
	}
	nofates()
	first := len(st.frames)
	// fates are drawn for the frames from here on
	if n := first; len(w.plan.Fates) > 0 {
		w.plan.Fates = append(make([]Fate, n), w.plan.Fates...)
	}
	fates()
	spec := map[int]NodeSpec{}
	for _, n := range w.plan.Nodes {
		spec[n.ID] = n
	}
	t0 := w.now()
	var all []*ctlCall
	lists := map[int][]*ctlCall{}
	for _, s := range w.plan.Steps {
		if s.Op == "ctl" {
			c := &ctlCall{s: s, want: expectedSet(s, spec[s.N])}
			all = append(all, c)
			lists[s.C] = append(lists[s.C], c)
		}
	}
	var clients []*Call
	for cl := 0; cl < 8; cl++ {
		l := lists[cl]
		if len(l) == 0 {
			continue
		}
		clients = append(clients, w.spawnLib(fmt.Sprintf("client %d", cl), func() {
			for _, c := range l {
				w.sleepUntil(t0 + c.s.at())
				s := c.s
				s.F = s.level()
				if s.A >= 3 {
					n := w.ctl.Nodes.Get(s.N)
					e := n.Endpoint(s.B)
					if exists := s.B >= 1 && s.B <= spec[s.N].Endpoints; exists != (e != nil) {
						w.fail("endpoint", "node %d has %d endpoints, but Endpoint(%d) is found: %v", s.N, spec[s.N].Endpoints, s.B, e != nil)
					}
				}
				w.control(s)
			}
		}))
	}
	for _, s := range w.plan.Steps {
		if s.Op == "feed" {
			w.sleepUntil(t0 + s.at())
			w.opener.cur().send(s.bytes(), s.L)
			w.fault("unrequested-input")
		}
	}
	for i, c := range clients {
		if !c.wait(time.Duration(len(all))*5*time.Second + 30*time.Second) {
			w.fail("call-blocks", "control calls of client %d have not returned at %v\n%s", i, w.now(), w.s.Dump())
		}
	}
	w.sleep(15 * time.Second)

	// what was sent, each cancelled transmission being repeated once
	count := map[setCommand]int{}
	cancelled := map[setCommand]bool{}
	seq := map[string][]setCommand{} // per target
	tgt := func(c setCommand) string { return fmt.Sprint(c.node, "/", c.ep) }
	for _, h := range st.frames[first:] {
		if h.fn() != 0x13 {
			if w.plan.k("discover") == 0 && h.fn() != 0x02 {
				w.fail("foreign-frame", "frame %x was transmitted, but nobody asked for it", h.Body)
			}
			continue
		}
		c, ok, bad := parseSet(h)
		if !ok {
			w.fail("foreign-frame", "frame %x was transmitted (%s), but no control call leads to it", h.Body, bad)
		}
		if h.Ctl == CAN {
			cancelled[c] = true
			continue // it comes again
		}
		count[c]++
		seq[tgt(c)] = append(seq[tgt(c)], c)
	}
	// match the calls with the commands: those with a single acceptable command first
	for choice := 1; choice <= 100; choice++ {
		for _, c := range all {
			if len(c.want) != choice {
				continue
			}
			done := false
			for _, x := range c.want {
				if count[x] > 0 {
					count[x]--
					done = true
					break
				}
			}
			if !done {
				w.fail("missing", "call %s was not sent: expected %v; on the wire:%s", callName(c.s), short(c.want), w.wire(first))
			}
		}
	}
	for _, h := range st.frames[first:] {
		if c, ok, _ := parseSet(h); ok && count[c] > 0 {
			w.fail("extra", "%d more command(s) for %v than were asked for; on the wire:%s", count[c], c, w.wire(first))
		}
	}
	// where one client alone addresses a target and nothing was cancelled, the order is the client's
	for cl := 0; cl < 8; cl++ {
		want := map[string][]*ctlCall{}
		for _, c := range lists[cl] {
			if len(c.want) > 0 {
				want[tgt(c.want[0])] = append(want[tgt(c.want[0])], c)
			}
		}
		for t, l := range want {
			alone := true
			for _, c := range all {
				if c.s.C != cl && len(c.want) > 0 && tgt(c.want[0]) == t {
					alone = false
				}
			}
			for c := range cancelled {
				if tgt(c) == t {
					alone = false
				}
			}
			if !alone || len(seq[t]) != len(l) {
				continue
			}
			w.reach("order-compared")
			for i, c := range l {
				ok := false
				for _, x := range c.want {
					ok = ok || x == seq[t][i]
				}
				if !ok {
					w.fail("order", "client %d's call %d for %s was %s, but command %d sent there is %v", cl, i, t, callName(c.s), i, seq[t][i])
				}
			}
		}
	}
	for _, c := range all {
		w.reach([]string{"node-on", "node-off", "node-level", "endpoint-on", "endpoint-off", "endpoint-level"}[c.s.A])
		if len(c.want) == 0 {
			w.reach("unsupported")
		}
	}
}

func callName(s Step) string {
	t := fmt.Sprintf("node %d", s.N)
	if s.A >= 3 {
		t += fmt.Sprintf(" endpoint %d", s.B)
	}
	switch s.A % 3 {
	case 0:
		return t + " On"
	case 1:
		return t + " Off"
	}
	return t + fmt.Sprintf(" Level(%v)", s.level())
}
func short(l []setCommand) string {
	if len(l) == 0 {
		return "nothing"
	}
	if len(l) > 2 {
		l = l[:2]
	}
	return fmt.Sprint(l)
}
func (w *World) wire(first int) string {
	var b strings.Builder
	for _, h := range w.stick.frames[first:] {
		fmt.Fprintf(&b, "\n  %v %x ctl %02x", h.At, h.Body, h.Ctl)
	}
	return b.String()
}
