package main

import (
	"encoding/hex"
	"time"

	"gozwavesim/rt"
)

// A Plan is everything about a run that is not scheduling: the devices, what the controller stick does
// with each frame, and what clients, line and disk do when. Together with a schedule trace it is the
// complete input of a run.
type Plan struct {
	Prop    string         `json:"prop"`
	Variant string         `json:"variant,omitempty"`
	Nodes   []NodeSpec     `json:"nodes,omitempty"`
	Fates   []Fate         `json:"fates,omitempty"`
	Steps   []Step         `json:"steps,omitempty"`
	K       map[string]int `json:"k,omitempty"`
	Blob    string         `json:"blob,omitempty"`
}

// NodeSpec describes one simulated device.
type NodeSpec struct {
	ID        int    `json:"id"`
	Battery   bool   `json:"battery,omitempty"`
	Basic     byte   `json:"basic"`
	Generic   byte   `json:"generic"`
	Specific  byte   `json:"specific"`
	Man       int    `json:"man"`
	Typ       int    `json:"typ"`
	Prod      int    `json:"prod"`
	Endpoints int    `json:"endpoints"`
	Classes   []byte `json:"classes,omitempty"`
}

// Fate is what the stick does with one command frame.
type Fate struct {
	Ctl     string `json:"ctl,omitempty"`   // "" ack, "nak", "can", "none"
	CtlMs   int    `json:"ctlMs,omitempty"` // delay of the control byte
	Twice   bool   `json:"twice,omitempty"` // an acknowledgement is doubled on the line
	RespMs  int    `json:"respMs,omitempty"`
	NoResp  bool   `json:"noResp,omitempty"`
	Dup     int    `json:"dup,omitempty"` // the answer comes again this many times
	Garble  string `json:"garble,omitempty"`
	WriteMs int    `json:"writeMs,omitempty"` // how long the Write call itself takes

	WriteErr bool `json:"writeErr,omitempty"` // the Write call fails and nothing is sent, the port works on
}

// Step is one planned action at a planned time.
type Step struct {
	At int64   `json:"at"` // microseconds
	Op string  `json:"op"`
	N  int     `json:"n,omitempty"`
	A  int     `json:"a,omitempty"`
	B  int     `json:"b,omitempty"`
	C  int     `json:"c,omitempty"`
	F  float64 `json:"f,omitempty"`
	X  string  `json:"x,omitempty"` // bytes, hex
	L  []int   `json:"l,omitempty"` // chunking: alternating size and gap in microseconds
	D  []int   `json:"d,omitempty"` // lengths of the frames, where they cannot be told from the bytes
}

func (s Step) at() time.Duration { return time.Duration(s.At) * time.Microsecond }
func (s Step) bytes() []byte     { b, _ := hex.DecodeString(s.X); return b }

func (p *Plan) k(name string) int { return p.K[name] }

func hx(b []byte) string { return hex.EncodeToString(b) }

func (p *Plan) clone() *Plan {
	q := *p
	q.Nodes = append([]NodeSpec(nil), p.Nodes...)
	q.Fates = append([]Fate(nil), p.Fates...)
	q.Steps = append([]Step(nil), p.Steps...)
	q.K = map[string]int{}
	for k, v := range p.K {
		q.K[k] = v
	}
	return &q
}

// gen helpers

type G struct{ *rt.Rand }

func (g G) rng(lo, hi int) int { return lo + g.Intn(hi-lo+1) }
func (g G) pick(v ...int) int  { return v[g.Intn(len(v))] }
func (g G) picks(v ...string) string {
	return v[g.Intn(len(v))]
}
func (g G) chance(p float64) bool { return g.Bool(p) }
func (g G) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.Uint64() >> 24)
	}
	return b
}

// chunks draws how a blob of n bytes is cut up: size, gap, size, gap ...
func (g G) chunks(n int, maxGapUs int) []int {
	if n <= 1 || g.chance(0.3) {
		return nil
	}
	var l []int
	switch g.Intn(3) {
	case 0: // byte by byte
		for i := 0; i < n; i++ {
			l = append(l, 1, g.Intn(maxGapUs/n+1))
		}
	case 1: // two pieces
		k := g.rng(1, n-1)
		l = []int{k, g.Intn(maxGapUs + 1), n - k, 0}
	default:
		for n > 0 {
			k := g.rng(1, n)
			if k > 6 {
				k = g.rng(1, 6)
			}
			l = append(l, k, g.Intn(maxGapUs/8+1))
			n -= k
		}
	}
	return l
}
