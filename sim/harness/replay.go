package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"gozwavesim/rt"
)

// Replay is the file a violation is reported with: the plan, the schedule and what happens.
type Replay struct {
	Property string    `json:"property"`
	Seed     uint64    `json:"seed"`
	Run      int       `json:"run"`
	Key      string    `json:"key"`
	Message  string    `json:"message"`
	Plan     *Plan     `json:"plan"`
	Config   rt.Config `json:"config"`
	Trace    *rt.Trace `json:"trace,omitempty"`
	Log      []string  `json:"log,omitempty"`
	Note     string    `json:"note,omitempty"`
}

func (r *Replay) save(path string) {
	b, err := json.MarshalIndent(r, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func loadReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	r := &Replay{}
	if err == nil {
		err = json.Unmarshal(b, r)
	}
	if err != nil || scenarios[r.Property] == nil {
		fmt.Fprintln(os.Stderr, "cannot replay", path, err)
		os.Exit(2)
	}
	if r.Plan.K == nil {
		r.Plan.K = map[string]int{}
	}
	return r
}

func (r *Replay) exec(log bool) *RunOut {
	cfg := r.Config
	cfg.Replay = r.Trace
	cfg.Log = log
	return execute(scenarios[r.Property], r.Plan.clone(), cfg)
}

func replayCmd(args []string) int {
	keyOnly := false
	if len(args) > 0 && args[0] == "-key" {
		keyOnly = true
		args = args[1:]
	}
	if len(args) != 1 {
		return 2
	}
	r := loadReplay(args[0])
	o := r.exec(!keyOnly)
	if o.Trouble != "" {
		fmt.Fprintln(os.Stderr, o.Trouble)
		return 2
	}
	if keyOnly {
		out("%s\n", o.Key)
	} else {
		for _, l := range o.Res.Log {
			out("%s\n", l)
		}
		if o.Key == "" {
			out("%s: no violation\n", r.Property)
		} else {
			out("%s violated: %s\n%s\n", r.Property, o.Key, o.Msg)
		}
	}
	if o.Key == "" {
		return 0
	}
	return 1
}

// minimiseCmd shrinks the plan and the schedule while the same violation persists.
func minimiseCmd(args []string) {
	r := loadReplay(args[0])
	sc := scenarios[r.Property]
	deadline := time.Now().Add(40 * time.Second)
	left := func() bool { return time.Now().Before(deadline) }
	orig := r.Config
	// the schedules tried for a candidate plan
	try := func(p *Plan, n int) *rt.Trace {
		for k := 0; k < n && left(); k++ {
			cfg := orig
			switch {
			case k == 0:
			case k == 1:
				cfg.MeanGap, cfg.PCT, cfg.StallProb = 0, 0, 0
			default:
				cfg.Seed = mix(orig.Seed, uint64(k))
				cfg.StallProb = orig.StallProb
				if orig.MeanGap > 0 && k%3 == 0 {
					cfg.MeanGap = 10
				}
			}
			o := execute(sc, p.clone(), cfg)
			if o.Key == r.Key {
				t := o.Res.Trace
				r2 := *r
				r2.Config, r2.Plan, r2.Trace = cfg, p, &t
				r2.Config.Replay = nil
				if r2.exec(false).Key == r.Key {
					r.Config = r2.Config
					r.Config.Log = false
					return &t
				}
			}
		}
		return nil
	}
	p := r.Plan
	t := try(p, 1)
	if t == nil {
		fmt.Fprintln(os.Stderr, "minimise: the violation does not repeat")
		return
	}
	r.Trace = t
	steps0, fates0 := len(p.Steps), len(p.Fates)
	keep := func(q *Plan) bool {
		if t := try(q, 8); t != nil {
			p, r.Plan, r.Trace = q, q, t
			return true
		}
		return false
	}
	// drop steps
	for size := (len(p.Steps) + 1) / 2; size >= 1 && left(); {
		changed := false
		for i := 0; i < len(p.Steps) && left(); {
			q := p.clone()
			j := i + size
			if j > len(q.Steps) {
				j = len(q.Steps)
			}
			q.Steps = append(append([]Step(nil), q.Steps[:i]...), q.Steps[j:]...)
			if keep(q) {
				changed = true
			} else {
				i += size
			}
		}
		if size == 1 && !changed {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	// undo faults of the stick
	if len(p.Fates) > 0 {
		q := p.clone()
		q.Fates = nil
		if !keep(q) {
			for len(p.Fates) > 1 && left() {
				q := p.clone()
				q.Fates = q.Fates[:len(q.Fates)/2]
				if !keep(q) {
					break
				}
			}
			for i := range p.Fates {
				if i >= len(p.Fates) || !left() {
					break
				}
				if p.Fates[i] != (Fate{}) {
					q := p.clone()
					q.Fates[i] = Fate{}
					keep(q)
				}
			}
		}
	}
	// no cutting up
	for i := range p.Steps {
		if len(p.Steps[i].L) > 0 && left() {
			q := p.clone()
			q.Steps[i].L = nil
			keep(q)
		}
	}
	// the schedule
	deadline = time.Now().Add(25 * time.Second)
	same := func(t *rt.Trace) bool {
		r2 := *r
		r2.Trace = t
		return r2.exec(false).Key == r.Key
	}
	tr := *r.Trace
	pre0, cho0 := len(tr.Preempts), len(tr.Choices)
	if q := tr; q.MapSeed != 0 {
		q.MapSeed = 0
		if same(&q) {
			tr = q
		}
	}
	for _, which := range []int{0, 1} {
		n := len(tr.Preempts)
		if which == 1 {
			n = len(tr.Choices)
		}
		for size := n; size >= 1 && left(); {
			for i := 0; left(); {
				q := tr
				if which == 0 {
					if i >= len(tr.Preempts) {
						break
					}
					j := min(i+size, len(tr.Preempts))
					q.Preempts = append(append([]rt.Preempt(nil), tr.Preempts[:i]...), tr.Preempts[j:]...)
				} else {
					if i >= len(tr.Choices) {
						break
					}
					j := min(i+size, len(tr.Choices))
					q.Choices = append(append([]rt.Choice(nil), tr.Choices[:i]...), tr.Choices[j:]...)
				}
				if same(&q) {
					tr = q
				} else {
					i += size
				}
			}
			size /= 2
		}
	}
	r.Trace = &tr
	o := r.exec(true)
	if o.Key != r.Key {
		return
	}
	r.Message = o.Msg
	r.Log = o.Res.Log
	if len(r.Log) > 400 {
		r.Log = append(append([]string{}, r.Log[:100]...), append([]string{"..."}, r.Log[len(r.Log)-300:]...)...)
	}
	r.Note = fmt.Sprintf("minimised: %d of %d steps, %d of %d fates, %d of %d pre-emptions, %d of %d choices", len(p.Steps), steps0, len(p.Fates), fates0, len(tr.Preempts), pre0, len(tr.Choices), cho0)
	r.save(args[1])
}
