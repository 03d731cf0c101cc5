package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"syscall"
	"time"

	"gozwavesim/rt"
)

// C15: starting from any configuration file.

func init() {
	register(&Scenario{ID: "C15", gen: genC15, run: runC15, stallMax: 100, stallSum: 400, quick: 10000, thorough: 200000})
}

// damageValue replaces something inside of a JSON value.
func (g G) damageValue(v interface{}) interface{} {
	type slot struct {
		m map[string]interface{}
		k string
		l []interface{}
		i int
	}
	var slots []slot
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				slots = append(slots, slot{m: x, k: k})
				walk(x[k])
			}
		case []interface{}:
			for i := range x {
				slots = append(slots, slot{l: x, i: i})
				walk(x[i])
			}
		}
	}
	walk(v)
	if len(slots) == 0 {
		return v
	}
	s := slots[g.Intn(len(slots))]
	if g.chance(0.5) { // not always deep inside of the class lists
		var top []slot
		for _, x := range slots {
			if x.m != nil && x.k != "InNIF" && x.k != "Secure" && x.k != "NonSecure" && x.k != "Version" && x.k != "ID" {
				top = append(top, x)
			}
		}
		if len(top) > 0 {
			s = top[g.Intn(len(top))]
		}
	}
	var nv interface{}
	switch g.Intn(12) {
	case 0, 1, 2, 3:
		nv = nil
	case 4:
		nv = map[string]interface{}{}
	case 5:
		nv = []interface{}{}
	case 6:
		nv = ""
	case 7:
		nv = []float64{0, -1, 1, 255, 256, 300, 1e9, 0.5, 1e300}[g.Intn(9)]
	case 8:
		nv = g.chance(0.5)
	case 9:
		nv = []interface{}{nil, nil, map[string]interface{}{}}
	case 10:
		nv = map[string]interface{}{"x": nil, "1": nil, "on": "yes"}
	default: // leave it out
		if s.m != nil {
			delete(s.m, s.k)
			return v
		}
	}
	if s.m != nil {
		s.m[s.k] = nv
	} else {
		s.l[s.i] = nv
	}
	return v
}

func genC15(g G, i int) *Plan {
	p := &Plan{Nodes: g.nodes(g.rng(1, 4), 0.1), K: map[string]int{"nostates": 1}}
	good := configJSON(p.Nodes)
	b := append([]byte(nil), good...)
	switch g.Intn(10) {
	case 0:
		p.Variant = g.picks("missing", "directory", "open-error", "read-error", "slow-read")
		p.K["at"] = g.rng(1, 5)
	case 1:
		p.Variant = "truncated"
		b = b[:g.Intn(len(b))]
	case 2:
		p.Variant = "flipped"
		for k := g.rng(1, 8); k > 0; k-- {
			b[g.Intn(len(b))] = byte(g.Uint64() >> 40)
		}
	case 3:
		p.Variant = "noise"
		b = g.bytes(g.pick(0, 1, 2, 16, 300, 5000))
	case 4:
		p.Variant = "shape"
		b = []byte(g.picks("", "null", "{}", "[]", "5", `"x"`, "true", "\x00", "\xef\xbb\xbf{}", "{", "[[[[[[[[", `{"Nodes":null}`, `{"Nodes":[]}`,
			`{"Nodes":{}}`, `{"Nodes":{"5":null}}`, `{"Nodes":{"5":{}}}`, `{"Nodes":{"5":[]}}`, `{"Nodes":{"x":{"id":5}}}`, `{"Nodes":{"2":{"id":2,"Endpoints":[null]}}}`,
			`{"Nodes":{"2":{"id":2,"CommandClasses":[null]}}}`, `{"Nodes":"x"}`, `{"Nodes":{"2":{"id":2},"3":{"id":2}}}`, `{"nodes":{"2":{"ID":2}}}`, `{"Nodes":{"2":{"id":"2"}}}`,
			`{"Nodes":{"2":{"id":2}}}{"Nodes":{}}`, `{"Nodes":{"2":{"id":2}}}garbage`, `{"Connection":{"Connected":true},"Nodes":null}`))
	case 5:
		p.Variant = "zeroes"
		for j := g.Intn(len(b)); j < len(b); j++ {
			b[j] = 0
		}
	case 6:
		p.Variant = "mixed" // parts of two files
		o := configJSON(g.nodes(g.rng(1, 3), 0))
		b = append(b[:g.Intn(len(b)):len(b)], o[g.Intn(len(o)):]...)
	default:
		p.Variant = "values"
		var v interface{}
		json.Unmarshal(good, &v)
		for k := g.rng(1, 4); k > 0; k-- {
			v = g.damageValue(v)
		}
		b, _ = json.Marshal(v)
	}
	p.Blob = hx(b)
	if g.chance(0.3) {
		p.K["reportfirst"] = 1
	}
	return p
}

func runC15(w *World) {
	disk := w.s.Disk
	w.fault("config-" + w.plan.Variant)
	path := configFile
	switch w.plan.Variant {
	case "missing":
	case "directory":
		path = "/data"
	default:
		disk.Put(configFile, Step{X: w.plan.Blob}.bytes())
	}
	switch w.plan.Variant {
	case "open-error", "read-error", "slow-read":
		n := 0
		disk.Fault = func(op rt.DiskOp) rt.DiskFault {
			n++
			switch {
			case w.plan.Variant == "slow-read":
				return rt.DiskFault{Delay: 100 * time.Millisecond}
			case w.plan.Variant == "open-error" && op.Kind == "open":
				return rt.DiskFault{Err: []error{syscall.EACCES, syscall.EIO, syscall.EMFILE}[n%3]}
			case w.plan.Variant == "read-error" && op.Kind == "read" && n >= w.plan.k("at"):
				return rt.DiskFault{Err: syscall.EIO}
			}
			return rt.DiskFault{}
		}
	}
	if err := w.connect(path, 15*time.Second); err != nil {
		w.fail("connect-error", "connecting to a healthy port failed: %v", err)
	}
	w.drainEvents()
	disk.Fault = nil
	if w.plan.k("reportfirst") == 1 {
		for _, n := range w.plan.Nodes {
			w.opener.cur().feed(rLevel(n.ID, 12))
			w.opener.cur().feed(rAlarm(n.ID, 7, 0xff))
			w.opener.cur().feed(rSensor(n.ID, 1, 77))
		}
	}
	// every listed node is found
	ok := w.waitFor(60*time.Second, time.Second, func() bool {
		for _, n := range w.plan.Nodes {
			x := w.node(n.ID)
			if x == nil || x.ProtocolInfo() == nil {
				return false
			}
		}
		return true
	})
	if !ok {
		w.fail("not-discovered", "only the nodes %v are known a minute after the start from a damaged file", w.nodeIDs())
	}
	w.sleep(25 * time.Second)
	// reports are handled
	for i, n := range w.plan.Nodes {
		w.opener.cur().feed(rLevel(n.ID, byte(20+i)))
		w.opener.cur().feed(rSensor(n.ID, 1, 123+i))
		w.opener.cur().feed(rAlarm(n.ID, 9, 0xff))
	}
	w.sleep(500 * time.Millisecond)
	for i, n := range w.plan.Nodes {
		st, ok := w.state(n.ID)
		if !ok || st.Float["level"] != float64(20+i) || !st.Bool["on"] || !st.Bool["alarm"] {
			w.fail("not-applied", "the reports for node %d were not applied: %v", n.ID, st)
		}
	}
	w.sleep(1500 * time.Millisecond)
	// commands are handled, on every node the library believes in
	first := len(w.stick.frames)
	ids := w.nodeIDs()
	for k, id := range ids {
		if k > 8 {
			break
		}
		id := id
		w.must("control-hangs", "control calls", 60*time.Second, func() {
			n := w.ctl.Nodes.Get(id)
			if n == nil {
				return
			}
			n.On()
			for e := 1; e <= 3; e++ {
				if ep := n.Endpoint(e); ep != nil {
					ep.Off()
				}
			}
		})
	}
	w.sleep(3 * time.Second)
	for _, n := range w.plan.Nodes {
		var class []byte
		for _, c := range devClasses {
			if c.generic == n.Generic && c.specific == n.Specific {
				class = c.classes
			}
		}
		must := 0
		for _, c := range class {
			if c == 0x25 || c == 0x26 && must == 0 {
				must = int(c)
			}
		}
		if must == 0 {
			continue
		}
		got := 0
		for _, h := range w.stick.frames[first:] {
			if c, ok, _ := parseSet(h); ok && c.node == n.ID && c.ep == 0 && (c.class == must || must == 0x26) {
				got++
			}
		}
		if got != 1 {
			w.fail("not-controlled", "switching on node %d led to %d commands", n.ID, got)
		}
	}
	// a save replaces the file
	before := w.snapshot()
	var err error
	w.must("save-hangs", "saving", 60*time.Second, func() { err = w.ctl.SaveConfigurationToFile() })
	if w.plan.Variant == "directory" {
		if err == nil {
			w.fail("save-silent", "saving to a directory reported no error")
		}
		return
	}
	if err != nil {
		w.fail("save-error", "saving over the damaged file failed: %v", err)
	}
	w.s.Crash()
	w.sleep(time.Second)
	w.plan.K["nodiscovery"] = 1
	w.mustConnect(configFile)
	if d := diffSnap(before, w.snapshot()); d != "" {
		w.fail("not-replaced", "the file saved over the damaged one does not restore the nodes: %s", d)
	}
	w.reach(fmt.Sprintf("nodes-%d", len(before)))
}
