package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/serialapi"
	"gozwavesim/rt"
)

// device catalogue: what the library's database says about a few device classes and products.
type devClass struct {
	generic, specific byte
	classes           []byte
}
type product struct {
	man, typ, prod int
	brand, product string
	classes        []byte
}

var devClasses = []devClass{
	{0x10, 0x01, []byte{0x5e, 0x85, 0x59, 0x20, 0x25, 0x5a, 0x72, 0x73, 0x86}},
	{0x11, 0x01, []byte{0x5e, 0x85, 0x59, 0x20, 0x5a, 0x72, 0x26, 0x73, 0x86}},
	{0x21, 0x01, []byte{0x5e, 0x85, 0x59, 0x5a, 0x72, 0x31, 0x73, 0x86}},
	{0x10, 0x04, []byte{0x5e, 0x59, 0x85, 0x20, 0x25, 0x5a, 0x72, 0x60, 0x85, 0x73, 0x86}},
	{0x11, 0x06, []byte{0x5e, 0x85, 0x59, 0x20, 0x25, 0x5a, 0x72, 0x26, 0x73, 0x86}},
	{0x77, 0x07, nil}, // not in the table
}
var products = []product{
	{0x0068, 0x0000, 0x0010, "Good Way Technology Co., Ltd", "TD1311", []byte{0x00, 0x20, 0x25, 0x27, 0x60, 0x70, 0x72, 0x7a, 0x86}},
	{0x010a, 0x1100, 0x4b00, "VDA", "Vitrum III EU Dimmer", []byte{0x00, 0x20, 0x26, 0x27, 0x60, 0x72, 0x77, 0x85, 0x86, 0x87, 0x8e, 0x91}},
	{0x0001, 0x4952, 0x3130, "ACT - Advanced Control Technologies", "ZIR010", []byte{0x00, 0x20, 0x30, 0x70, 0x71, 0x72, 0x80, 0x84, 0x85, 0x86}},
	{0x0086, 0x0002, 0x0005, "AEON Labs", "DSB05", []byte{0x00, 0x20, 0x30, 0x31, 0x70, 0x72, 0x80, 0x84, 0x85, 0x86}},
	{0x0086, 0x0003, 0x0011, "AEON Labs", "DSC17", []byte{0x00, 0x20, 0x25, 0x27, 0x31, 0x32, 0x60, 0x70, 0x72, 0x85, 0x86}},
	{0x0001, 0x544d, 0x3330, "ACT - Advanced Control Technologies", "ZTM230", []byte{0x00, 0x20, 0x25, 0x26, 0x27, 0x70, 0x72, 0x85, 0x86, 0x87}},
	{0x1234, 0x0001, 0x0002, "", "", nil}, // not in the database
}

func classesOf(n NodeSpec) []byte {
	set := map[byte]bool{}
	for _, c := range devClasses {
		if c.generic == n.Generic && c.specific == n.Specific {
			for _, x := range c.classes {
				set[x] = true
			}
		}
	}
	for _, p := range products {
		if p.man == n.Man && p.typ == n.Typ && p.prod == n.Prod {
			for _, x := range p.classes {
				set[x] = true
			}
		}
	}
	var l []byte
	for x := range set {
		l = append(l, x)
	}
	sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
	return l
}
func (n NodeSpec) has(c byte) bool {
	for _, x := range classesOf(n) {
		if x == c {
			return true
		}
	}
	return false
}
func productOf(n NodeSpec) product {
	for _, p := range products {
		if p.man == n.Man && p.typ == n.Typ && p.prod == n.Prod {
			return p
		}
	}
	return product{}
}

// nodes draws devices with distinct ids.
func (g G) nodes(count int, battery float64) []NodeSpec {
	used := map[int]bool{1: true}
	var l []NodeSpec
	for len(l) < count {
		id := g.rng(2, 12)
		if g.chance(0.15) {
			id = g.pick(231, 232, 200, 128, 64, 65, 8, 9, 16, 17)
		}
		if used[id] {
			continue
		}
		used[id] = true
		c := devClasses[g.Intn(len(devClasses))]
		p := products[g.Intn(len(products))]
		l = append(l, NodeSpec{ID: id, Battery: g.chance(battery), Basic: 4, Generic: c.generic, Specific: c.specific,
			Man: p.man, Typ: p.typ, Prod: p.prod, Endpoints: g.pick(0, 1, 1, 2, 2, 3, 4)})
		if g.chance(0.01) {
			l[len(l)-1].Endpoints = g.pick(16, 31, 32, 64, 127)
		}
	}
	return l
}

// configJSON is a configuration file with identified nodes in the library's format.
func configJSON(nodes []NodeSpec) []byte {
	type m map[string]interface{}
	ns := m{}
	for _, n := range nodes {
		var cc []m
		for _, c := range classesOf(n) {
			cc = append(cc, m{"ID": int(c), "InNIF": false, "Secure": false, "NonSecure": true, "Version": "1"})
		}
		var eps []m
		for i := 1; i <= n.Endpoints; i++ {
			eps = append(eps, m{"Id": i, "CommandClasses": cc, "StateBool": m{}, "StateFloat": m{}})
		}
		if eps == nil {
			eps = []m{}
		}
		p := productOf(n)
		ns[strconv.Itoa(n.ID)] = m{"id": n.ID, "is_awake": !n.Battery,
			"ManufacurerSpecific": m{"manufacturer": fmt.Sprintf("%04x", n.Man), "type": fmt.Sprintf("%04x", n.Typ), "id": fmt.Sprintf("%04x", n.Prod)},
			"Brand":               p.brand, "Product": p.product, "Description": "", "CommandClasses": cc, "Endpoints": eps,
			"StateBool": m{"on": false}, "StateFloat": m{}}
	}
	b, err := json.MarshalIndent(m{"Nodes": ns}, "", "\t")
	if err != nil {
		panic("HarnessBug: " + err.Error())
	}
	return b
}

// partJSON is a file that was saved when the identification of some nodes was not finished: two bits of
// part for each of six nodes say how far it was.
func partJSON(nodes []NodeSpec, part int) []byte {
	b := configJSON(nodes)
	if part == 0 {
		return b
	}
	var f struct {
		Nodes map[string]map[string]interface{}
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic("HarnessBug: " + err.Error())
	}
	for i, n := range nodes {
		m := f.Nodes[strconv.Itoa(n.ID)]
		how := part >> uint(2*(i%6)) & 3
		if how >= 1 {
			m["Endpoints"] = nil
		}
		if how >= 2 {
			m["ManufacurerSpecific"], m["Brand"], m["Product"] = nil, "", ""
		}
		if how == 3 {
			m["CommandClasses"], m["is_awake"] = nil, false
		}
	}
	b, err := json.MarshalIndent(f, "", "\t")
	if err != nil {
		panic("HarnessBug: " + err.Error())
	}
	return b
}

// preload starts the library with all planned nodes known from the configuration file and waits until
// the line is quiet. The controller then lists no node, so nothing is identified again.
func (w *World) preload() {
	w.plan.K["nodiscovery"] = 1
	w.s.Disk.Put(configFile, configJSON(w.plan.Nodes))
	w.mustConnect(configFile)
	w.drainEvents()
	w.sleep(1500 * time.Millisecond)
	w.events = nil
}

// kinds of requests
const (
	qProto  = iota // protocol information of a node
	qMan           // manufacturer
	qEnd           // endpoints
	qSwitch        // switch state
	qSensor        // sensor value
	qLevel         // level, as a message
	qDisc          // the node list
	qVer           // controller version: its answer cannot be decoded
	nKinds
)

// Req is one request of a client.
type Req struct {
	ID, Kind, Node int
	Client         int
	Limit          time.Duration
	body           []byte // frame body expected on the wire
	Call           *Call
	CalledAt       time.Duration
	Returned       bool
	ReturnedAt     time.Duration
	ReturnSeq      uint64
	CallSeq        uint64
	Msgs           int
	Nils           int
	Msg            *serialapi.Message
	Rep            reports.Report
	MsgAt          time.Duration
	Closed         bool
	ClosedAt       time.Duration
	Collect        bool
	Err            error
	wireAt         time.Duration
	wire           []*HostFrame
}

// nonce makes a request recognisable on the wire.
func nonce(i int) (byte, byte) { return byte(0x40 + i/180), byte(0x30 + i%180) }

func reqBytes(kind, node, i int) encoded {
	a, b := nonce(i)
	switch kind {
	case qProto:
		return encoded{0x41, byte(node), a, b}
	case qMan:
		return sendData(node, 0x72, 0x04, a, b)
	case qEnd:
		return sendData(node, 0x60, 0x07, a, b)
	case qSwitch:
		return sendData(node, 0x25, 0x02, a, b)
	case qSensor:
		return sendData(node, 0x31, 0x04, a, b)
	case qLevel:
		return sendData(node, 0x26, 0x02, a, b)
	case qDisc:
		return encoded{0x02, 0x00, a, b}
	}
	return encoded{0x15, 0x00, a, b}
}

// request issues a request from a task of its own.
func (w *World) request(id, client, kind, node int, limit time.Duration, collect bool) *Req {
	r, enc := newReq(id, client, kind, node, w.plan.nonceOf(id), limit, collect)
	r.Call = w.spawnLib(fmt.Sprintf("client request %d", id), func() { w.doRequest(r, enc) })
	return r
}

func (w *World) doRequest(r *Req, enc encoded) {
	if collect := w.issue(r, enc); collect != nil {
		collect()
	}
}

// issue makes the call; the returned function collects the result.
func (w *World) issue(r *Req, enc encoded) func() {
	r.CalledAt, r.CallSeq = w.now(), w.s.Steps()
	conn := w.ctl.Connection
	mark := func() {
		r.Returned, r.ReturnedAt, r.ReturnSeq = true, w.now(), w.s.Steps()
		w.s.Logf("request %d returned", r.ID)
	}
	closed := func() {
		r.Closed, r.ClosedAt = true, w.now()
		w.s.Logf("request %d closed", r.ID)
	}
	er := map[int]byte{qMan: 5, qEnd: 8, qSwitch: 3, qSensor: 5}[r.Kind]
	if er != 0 {
		ch, err := conn.WriteAndWaitForReport(enc, r.Limit, er)
		mark()
		if err != nil || ch == nil {
			r.Err = err
			closed()
			return nil
		}
		if !r.Collect {
			return nil
		}
		return func() {
			for {
				m, ok := rt.Recv2(ch)
				if !ok {
					break
				}
				w.s.Logf("request %d got a report", r.ID)
				r.Msgs++
				r.MsgAt = w.now()
				r.Rep = m
				if m == nil {
					r.Nils++
				}
			}
			closed()
		}
	}
	ch, err := conn.WriteWithTimeout(enc, r.Limit)
	mark()
	if err != nil || ch == nil {
		r.Err = err
		closed()
		return nil
	}
	if !r.Collect {
		return nil
	}
	return func() {
		for {
			m, ok := rt.Recv2(ch)
			if !ok {
				break
			}
			w.s.Logf("request %d got a message", r.ID)
			r.Msgs++
			r.MsgAt = w.now()
			r.Msg = m
			if m == nil {
				r.Nils++
			}
		}
		closed()
	}
}

// newReq prepares a request.
func newReq(id, client, kind, node, nonce int, limit time.Duration, collect bool) (*Req, encoded) {
	enc := reqBytes(kind, node, nonce)
	return &Req{ID: id, Kind: kind, Node: node, Client: client, Limit: limit, Collect: collect, body: append([]byte{0x00}, enc...)}, enc
}

// nonceOf is the nonce of the i-th request of a run. In some runs there are few, so that several requests have the same bytes.
func (p *Plan) nonceOf(i int) int {
	if m := p.k("twins"); m > 0 && i < 900 {
		return i % m
	}
	return i
}

// alike counts the requests with the bytes of this one.
func (r *Req) alike(all []*Req) int {
	n := 0
	for _, x := range all {
		if eqBytes(x.body, r.body) {
			n++
		}
	}
	return n
}

// lastTurn is when a request with these bytes last reached the port.
func (r *Req) lastTurn(st *Stick) time.Duration {
	at := time.Duration(0)
	for _, h := range r.frames(st) {
		if h.At > at {
			at = h.At
		}
	}
	f := frame(r.body...)
	for _, a := range st.attempts {
		if eqBytes(a.B, f) && a.At > at {
			at = a.At
		}
	}
	return at
}

// frames finds the transmissions of a request.
func (r *Req) frames(st *Stick) []*HostFrame {
	var l []*HostFrame
	for _, h := range st.frames {
		if eqBytes(h.Body, r.body) {
			l = append(l, h)
		}
	}
	return l
}

// turn is when the request first reached the port, also if the write failed.
func (r *Req) turn(st *Stick) (time.Duration, bool) {
	at, ok := time.Duration(0), false
	if l := r.frames(st); len(l) > 0 {
		at, ok = l[0].At, true
	}
	f := frame(r.body...)
	for _, a := range st.attempts {
		if eqBytes(a.B, f) && (!ok || a.At < at) {
			at, ok = a.At, true
		}
	}
	return at, ok
}

// waitFor polls a condition.
func (w *World) waitFor(limit, every time.Duration, cond func() bool) bool {
	end := w.now() + limit
	for !cond() {
		if w.now() >= end {
			return false
		}
		w.sleep(every)
	}
	return true
}

// genFates draws what the stick does with the first n frames.
func (g G) fates(n int, rate float64, allow string, maxRespMs int) []Fate {
	l := make([]Fate, n)
	has := func(s string) bool {
		for i := 0; i+len(s) <= len(allow); i++ {
			if allow[i:i+len(s)] == s {
				return true
			}
		}
		return false
	}
	// swarm: each run uses a subset of the kinds
	use := map[string]bool{}
	for _, k := range []string{"nak", "can", "none", "late", "resp", "lost", "dup", "ck", "short", "slow", "werr", "twice"} {
		use[k] = has(k) && g.chance(0.6)
	}
	for i := range l {
		f := &l[i]
		if use["nak"] && g.chance(rate) {
			f.Ctl = "nak"
		}
		if use["can"] && g.chance(rate) {
			f.Ctl = "can"
		}
		if use["none"] && g.chance(rate) {
			f.Ctl = "none"
		}
		if use["late"] && g.chance(rate*2) {
			f.CtlMs = g.pick(1, 20, 40, 60, 100, 300, 700)
		}
		if use["twice"] && g.chance(rate*2) {
			f.Twice = true
		}
		if use["resp"] && g.chance(rate*2) {
			f.RespMs = g.rng(1, maxRespMs)
		}
		if use["lost"] && g.chance(rate) {
			f.NoResp = true
		}
		if use["dup"] && g.chance(rate) {
			f.Dup = g.rng(1, 3)
		}
		if use["ck"] && g.chance(rate) {
			f.Garble = "ck"
		}
		if use["short"] && g.chance(rate) {
			f.Garble = "short"
		}
		if use["slow"] && g.chance(rate) {
			f.WriteMs = g.pick(1, 10, 50, 200, 400)
		}
		if use["werr"] && g.chance(rate*0.6) {
			*f = Fate{Ctl: "none", NoResp: true, WriteErr: true, WriteMs: f.WriteMs}
		}
	}
	return l
}

func us(d time.Duration) int64 { return int64(d / time.Microsecond) }
