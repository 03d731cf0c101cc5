package main

import (
	"fmt"
	"io"
	"log"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/pborman/uuid"
	"github.com/sirupsen/logrus"
	"gozwavesim/rt"
	_ "gozwavesim/tools/serialrecordingtohex"
)

var siteTable []string

// Scenario is the workload, fault mix and oracle of one property.
type Scenario struct {
	ID string
	// gen draws a plan.
	gen func(g G, i int) *Plan
	// run drives the library and judges it; it runs as the main task.
	run func(w *World)
	// stalls: longest single stall and sum of all stalls of a run, milliseconds (0: none).
	stallMax, stallSum int
	// quick and thorough numbers of runs.
	quick, thorough int
	races           bool // unsynchronised map accesses are violations
	wallTime        bool // the oracle needs an undisturbed wall clock
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.ID] = s }

func mix(a ...uint64) uint64 {
	r := rt.NewRand(0x243f6a8885a308d3)
	h := r.Uint64()
	for _, x := range a {
		r = rt.NewRand(h ^ x*0x9e3779b97f4a7c15)
		h = r.Uint64()
	}
	return h
}
func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// schedule draws how a run is scheduled.
func schedule(sc *Scenario, p *Plan, seed uint64) rt.Config {
	g := G{rt.NewRand(mix(seed, 77))}
	c := rt.Config{Seed: seed, MapShuf: g.chance(0.9), Batch: g.chance(0.4)}
	switch m := g.Intn(10); {
	case m == 0: // run on until blocked
		c.RandBlock = g.chance(0.5)
	case m <= 2:
		c.PCT = 3
		c.MeanGap = g.pick(20, 60, 200, 800, 3000)
	default:
		c.MeanGap = g.pick(3, 10, 10, 30, 30, 100, 300)
		c.RandBlock = g.chance(0.8)
	}
	if sc.stallMax > 0 && p.K["nostall"] == 0 && g.chance(0.6) {
		c.StallProb = []float64{0.002, 0.01, 0.05, 0.2}[g.Intn(4)]
		c.StallMax = int64(g.pick(1, 5, sc.stallMax/4+1, sc.stallMax)) * int64(time.Millisecond)
		if c.StallMax > int64(sc.stallMax)*int64(time.Millisecond) {
			c.StallMax = int64(sc.stallMax) * int64(time.Millisecond)
		}
		c.StallSum = int64(sc.stallSum) * int64(time.Millisecond)
	}
	return c
}

// RunOut is the judged result of one run.
type RunOut struct {
	Key, Msg string // violation; Key is stable under minimisation
	Trouble  string // harness error
	Res      *rt.Result
	W        *World
}

func init() {
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	logrus.StandardLogger().ExitFunc = rt.OsExit
	rt.OnReset(func(seed uint64) {
		uuid.SetRand(rt.NewRand(seed ^ 0x00d1d))
		logrus.SetLevel(logrus.InfoLevel)
	})
}

var reNum = regexp.MustCompile(`0x[0-9a-f]+|[0-9]+`)

// crashKey names a crash by its message and the function of the library it happened in.
func crashKey(o rt.Outcome) string {
	msg := o.Msg
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		msg = msg[:i]
	}
	msg = reNum.ReplaceAllString(msg, "N")
	if len(msg) > 80 {
		msg = msg[:80]
	}
	return "crash: " + msg + " in " + libFrame(o.Stack)
}

func libFrame(stack string) string {
	i := strings.Index(stack, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "github.com/stampzilla/") {
			l = strings.TrimPrefix(l, "github.com/stampzilla/gozwave")
			if k := strings.LastIndexByte(l, '('); k > 0 {
				l = l[:k]
			}
			return strings.TrimLeft(l, "./")
		}
	}
	return "?"
}

// execute performs one run.
func execute(sc *Scenario, p *Plan, cfg rt.Config) *RunOut {
	w := newWorld(p)
	if cfg.MaxNow == 0 {
		cfg.MaxNow = int64(1000 * time.Hour)
	}
	for i := 0; ; i++ {
		at, ok := p.K[fmt.Sprintf("clockAt%d", i)]
		if !ok {
			break
		}
		cfg.Jumps = append(cfg.Jumps, rt.Jump{At: int64(at) * 1e6, By: int64(p.K[fmt.Sprintf("clockBy%d", i)]) * 1e6})
	}
	if seed := p.K["clockWild"]; seed != 0 { // someone keeps setting the clock
		r := rt.NewRand(uint64(seed))
		for at, k := int64(0), 0; k < 150; k++ {
			at += int64(r.Intn(30_000_000))
			cfg.Jumps = append(cfg.Jumps, rt.Jump{At: at, By: int64(r.Intn(400)-200) * 1e6})
		}
	}
	res := rt.Run(cfg, w, func() {
		w.s = rt.S
		if p.k("debug") == 1 {
			logrus.SetLevel(logrus.DebugLevel)
		}
		sc.run(w)
	})
	if w.s != nil && w.s.Jumped > 0 {
		w.faults["clock-jump"] += w.s.Jumped
	}
	o := &RunOut{Res: res, W: w}
	switch res.Kind {
	case "done":
	case "violation":
		o.Key, o.Msg = w.violKey, w.violMsg
	case "crash":
		o.Key = crashKey(res.Outcome)
		o.Msg = "the process dies: " + res.Msg + "\n" + trimStack(res.Stack)
	case "steps":
		o.Key, o.Msg = "busy-loop", "the library spins without end\n"+res.Msg
	case "livelock":
		o.Key, o.Msg = "livelock", res.Msg
	default:
		o.Trouble = res.Kind + ": " + res.Msg + "\n" + res.Stack
	}
	if o.Key == "" && o.Trouble == "" && sc.races && len(res.Races) > 0 {
		r := res.Races[0]
		o.Key = "race"
		o.Msg = fmt.Sprintf("%s is accessed by two goroutines without synchronisation: %s and %s", r.Map, r.A, r.B)
	}
	return o
}

func trimStack(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	l := strings.Split(st, "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

// plan i of a property under a seed.
func planAt(sc *Scenario, seed uint64, i int) (*Plan, rt.Config) {
	s := mix(seed, strHash(sc.ID), uint64(i))
	p := sc.gen(G{rt.NewRand(s)}, i)
	p.Prop = sc.ID
	if p.K == nil {
		p.K = map[string]int{}
	}
	sort.SliceStable(p.Steps, func(a, b int) bool { return p.Steps[a].At < p.Steps[b].At })
	if g := (G{rt.NewRand(mix(s, 2))}); !sc.wallTime && g.chance(0.1) {
		if g.chance(0.3) {
			p.K["clockWild"] = g.rng(1, 1<<30)
		}
		// someone sets the clock of the machine
		for j := g.rng(1, 3); j > 0; j-- {
			p.K[fmt.Sprintf("clockAt%d", j-1)] = g.pick(1, 10, 100, 1000) * g.rng(1, 60)
			p.K[fmt.Sprintf("clockBy%d", j-1)] = g.pick(-1, 1) * g.pick(20, 500, 5000, 3600_000, 86400_000*300)
		}
	}
	if g := (G{rt.NewRand(mix(s, 3))}); g.chance(0.06) { // reads of the port time out with nothing
		p.K["idleMs"] = g.pick(3, 10, 25, 39, 41, 100, 1000)
	}
	return p, schedule(sc, p, mix(s, 1))
}
