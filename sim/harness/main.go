// Command sim decides the properties of gozwave by deterministic simulation with fault injection.
//
//	sim check   -prop C01 -tier quick -seed 1 -verif /verif
//	sim worker  ...                      one worker process of a check
//	sim replay  FILE                     replay a violation
//	sim minimise IN OUT                  shrink a violation
//	sim hashes  -prop C01 -seed 1 -n 50  event log hashes, for the determinism check
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"gozwavesim/rt"
)

var realOut *os.File

func main() {
	rt.SetSites(siteTable)
	if len(os.Args) < 2 {
		fmt.Println("usage: sim check|replay|minimise|hashes ...")
		os.Exit(2)
	}
	// the library prints to stdout in places; keep the protocol apart from it
	fd, err := syscall.Dup(1)
	if err != nil {
		os.Exit(2)
	}
	realOut = os.NewFile(uintptr(fd), "out")
	if os.Args[1] != "check" {
		if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			os.Stdout = null
			if os.Getenv("SIM_STDERR") == "" && os.Args[1] == "worker" {
				syscall.Dup3(int(null.Fd()), 1, 0)
			}
		}
	}
	switch os.Args[1] {
	case "check":
		check()
	case "worker":
		worker()
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	case "minimise":
		minimiseCmd(os.Args[2:])
	case "hashes":
		hashes()
	default:
		os.Exit(2)
	}
}

func out(f string, a ...interface{}) { fmt.Fprintf(realOut, f, a...) }

// Stats of a batch of runs.
type Stats struct {
	Runs     int            `json:"runs"`
	SimNs    int64          `json:"sim_ns"`
	Steps    uint64         `json:"steps"`
	Switches uint64         `json:"switches"`
	Preempts uint64         `json:"preempts"`
	Stalls   uint64         `json:"stalls"`
	Timers   uint64         `json:"timers"`
	Tasks    int            `json:"tasks"`
	MaxTasks int            `json:"max_tasks"`
	Frames   int            `json:"frames"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Modes    map[string]int `json:"modes"`
	Variants map[string]int `json:"variants"`
}

func (s *Stats) add(p *Plan, cfg rt.Config, o *RunOut) {
	s.Runs++
	r := o.Res
	s.SimNs += r.Now
	s.Steps += r.Steps
	s.Switches += r.Switches
	s.Preempts += r.Preempts
	s.Stalls += r.Stalls
	s.Timers += r.Timers
	s.Tasks += r.Tasks
	if r.Tasks > s.MaxTasks {
		s.MaxTasks = r.Tasks
	}
	s.Frames += len(o.W.stick.frames)
	for k, v := range o.W.faults {
		s.Faults[k] += v
	}
	for k, v := range o.W.probes {
		s.Probes[k] += v
	}
	m := "run-to-block"
	switch {
	case cfg.PCT > 0:
		m = "priorities"
	case cfg.MeanGap > 0:
		m = "random-preemption"
	}
	if cfg.StallProb > 0 {
		m += "+stalls"
	}
	s.Modes[m]++
	if p.Variant != "" {
		s.Variants[p.Variant]++
	}
}
func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Modes: map[string]int{}, Variants: map[string]int{}}
}
func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	s.SimNs += o.SimNs
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.Preempts += o.Preempts
	s.Stalls += o.Stalls
	s.Timers += o.Timers
	s.Tasks += o.Tasks
	s.Frames += o.Frames
	if o.MaxTasks > s.MaxTasks {
		s.MaxTasks = o.MaxTasks
	}
	for _, m := range []struct{ a, b map[string]int }{{s.Faults, o.Faults}, {s.Probes, o.Probes}, {s.Modes, o.Modes}, {s.Variants, o.Variants}} {
		for k, v := range m.b {
			m.a[k] += v
		}
	}
}

// messages of a worker
type msg struct {
	Begin   *int     `json:"begin,omitempty"`
	Viol    *int     `json:"viol,omitempty"`
	Trouble *int     `json:"trouble,omitempty"`
	Key     string   `json:"key,omitempty"`
	Msg     string   `json:"msg,omitempty"`
	Stats   *Stats   `json:"stats,omitempty"`
	Hashes  []uint64 `json:"hashes,omitempty"`
	Capped  bool     `json:"capped,omitempty"`
}

func worker() {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	n := fs.Int("n", 1, "")
	secs := fs.Float64("secs", 60, "")
	stop := fs.String("stop", "", "")
	fs.Parse(os.Args[2:])
	runtime.GOMAXPROCS(2)
	sc := scenarios[*prop]
	w := bufio.NewWriter(os.NewFile(3, "proto"))
	enc := json.NewEncoder(w)
	send := func(m msg) { enc.Encode(m); w.Flush() }
	st := newStats()
	var hs []uint64
	t0 := time.Now()
	capped := false
	for i := *from; i < *n; i += *step {
		if time.Since(t0).Seconds() > *secs {
			capped = true
			break
		}
		if *stop != "" {
			if b, err := os.ReadFile(*stop); err == nil {
				k := 0
				fmt.Sscan(string(b), &k)
				if i > k {
					break
				}
			}
		}
		i := i
		send(msg{Begin: &i})
		p, cfg := planAt(sc, *seed, i)
		o := execute(sc, p, cfg)
		if o.Trouble != "" {
			send(msg{Trouble: &i, Msg: o.Trouble})
			break
		}
		if o.Key != "" {
			send(msg{Viol: &i, Key: o.Key, Msg: o.Msg})
			break
		}
		st.add(p, cfg, o)
		hs = append(hs, o.Res.SchedHash)
	}
	send(msg{Stats: st, Hashes: hs, Capped: capped})
}

type found struct {
	i        int
	key, msg string
	died     bool
}

func check() {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	workers := fs.Int("workers", 0, "")
	nover := fs.Int("n", 0, "number of runs (default: the tier's)")
	capover := fs.Float64("cap", 0, "wall clock cap in seconds")
	nomin := fs.Bool("nomin", false, "do not minimise")
	fs.Parse(os.Args[2:])
	t0 := time.Now()
	sc := scenarios[*prop]
	if sc == nil {
		fmt.Fprintf(os.Stderr, "no scenario for %s\n", *prop)
		os.Exit(2)
	}
	n, wall := sc.quick, 45.0
	if *tier == "thorough" {
		n, wall = sc.thorough, 600
	}
	if *nover > 0 {
		n = *nover
	}
	if *capover > 0 {
		wall = *capover
	}
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if nw > n {
		nw = n
	}
	scratch, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(scratch)
	exit := func(c int) { os.RemoveAll(scratch); os.Exit(c) }
	stop := filepath.Join(scratch, "stop")
	exe, _ := os.Executable()
	var mu sync.Mutex
	total := newStats()
	hashSet := map[uint64]bool{}
	var viols []found
	var troubles []string
	capped := false
	note := func(f found) {
		mu.Lock()
		defer mu.Unlock()
		viols = append(viols, f)
		min := f.i
		for _, v := range viols {
			if v.i < min {
				min = v.i
			}
		}
		tmp := stop + ".tmp"
		os.WriteFile(tmp, []byte(fmt.Sprint(min)), 0644)
		os.Rename(tmp, stop)
	}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr, pw, _ := os.Pipe()
			cmd := exec.Command(exe, "worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(k), "-step", fmt.Sprint(nw), "-n", fmt.Sprint(n), "-secs", fmt.Sprint(wall), "-stop", stop)
			cmd.ExtraFiles = []*os.File{pw}
			errb := &tailBuf{}
			cmd.Stderr = errb
			if err := cmd.Start(); err != nil {
				mu.Lock()
				troubles = append(troubles, err.Error())
				mu.Unlock()
				return
			}
			pw.Close()
			last, finished := -1, false
			beat := make(chan struct{}, 1)
			stopDog := make(chan struct{})
			hung := false
			go func() {
				for {
					select {
					case <-beat:
					case <-stopDog:
						return
					case <-time.After(60 * time.Second):
						hung = true
						cmd.Process.Kill()
						return
					}
				}
			}()
			dec := json.NewDecoder(pr)
			for {
				var m msg
				if dec.Decode(&m) != nil {
					break
				}
				select {
				case beat <- struct{}{}:
				default:
				}
				switch {
				case m.Begin != nil:
					last = *m.Begin
				case m.Viol != nil:
					note(found{i: *m.Viol, key: m.Key, msg: m.Msg})
				case m.Trouble != nil:
					mu.Lock()
					troubles = append(troubles, fmt.Sprintf("run %d: %s", *m.Trouble, m.Msg))
					mu.Unlock()
				case m.Stats != nil:
					finished = true
					mu.Lock()
					total.merge(m.Stats)
					for _, h := range m.Hashes {
						hashSet[h] = true
					}
					capped = capped || m.Capped
					mu.Unlock()
				}
			}
			cmd.Wait()
			close(stopDog)
			if !finished {
				how := "died: " + errb.String()
				if hung {
					how = "hung"
				}
				if last >= 0 {
					note(found{i: last, key: "worker-died", msg: "the simulated process " + how, died: true})
				} else {
					mu.Lock()
					troubles = append(troubles, "worker "+how)
					mu.Unlock()
				}
			}
		}(k)
	}
	wg.Wait()
	sort.Slice(viols, func(a, b int) bool { return viols[a].i < viols[b].i })
	if len(troubles) > 0 && len(viols) == 0 {
		fmt.Fprintf(os.Stderr, "harness trouble in %s:\n%s\n", *prop, strings.Join(troubles, "\n"))
		exit(2)
	}
	known := loadKnown(filepath.Join(*verif, "known-findings.txt"), *prop)
	nviol := 0
	code := 0
	if len(viols) > 0 {
		v := viols[0]
		p, cfg := planAt(sc, *seed, v.i)
		rf := &Replay{Property: *prop, Seed: *seed, Run: v.i, Key: v.key, Message: v.msg, Plan: p, Config: cfg}
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-run%d.json", *prop, *tier, *seed, v.i))
		rf.save(path)
		if v.died {
			// a death of the whole worker counts if it happens again
			again := runFresh(exe, path, 90*time.Second)
			if again == "" {
				fmt.Fprintf(os.Stderr, "worker %s in run %d of %s, but not again\n", v.msg, v.i, *prop)
				exit(2)
			}
		} else {
			if !*nomin {
				os.RemoveAll(path + ".min")
				cmd := exec.Command(exe, "minimise", path, path+".min")
				cmd.Stderr = os.Stderr
				done := make(chan struct{})
				go func() {
					select {
					case <-done:
					case <-time.After(120 * time.Second):
						cmd.Process.Kill()
					}
				}()
				cmd.Run()
				close(done)
				if _, err := os.Stat(path + ".min"); err == nil && runFresh(exe, path+".min", 90*time.Second) == v.key {
					os.Rename(path+".min", path)
				}
			}
			if got := runFresh(exe, path, 90*time.Second); got != v.key {
				fmt.Fprintf(os.Stderr, "run %d of %s violated %q but its replay gave %q: the simulation is not deterministic\n", v.i, *prop, v.key, got)
				exit(2)
			}
		}
		rf = loadReplay(path)
		if id := known[v.key]; id != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, id)
		} else {
			nviol = 1
			code = 1
			fmt.Printf("%s violated: %s\n%s\n", *prop, rf.Key, rf.Message)
			fmt.Printf("replay with: %s\n", filepath.Join(*verif, "replay.sh")+" "+path)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		}
	}
	w := time.Since(t0).Seconds()
	writeEvidence(sc, *verif, *tier, *seed, total, len(hashSet), n, capped, nviol, w)
	fmt.Printf("%s %s: %d runs, %d distinct schedules, %.0f s simulated, %d frames, %.1f s wall, %d violations\n", *prop, *tier, total.Runs, len(hashSet), float64(total.SimNs)/1e9, total.Frames, w, nviol)
	exit(code)
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 6000 {
		t.b = append(append([]byte(nil), t.b[:3000]...), t.b[len(t.b)-3000:]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// runFresh replays a file in a fresh process and returns the violation's key.
func runFresh(exe, path string, limit time.Duration) string {
	cmd := exec.Command(exe, "replay", "-key", path)
	var sb strings.Builder
	cmd.Stdout = &sb
	if cmd.Start() != nil {
		return ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return "worker-died"
	case err := <-done:
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 1 {
			return "worker-died"
		}
	}
	return strings.TrimSuffix(sb.String(), "\n")
}

func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 key="..." what
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		var key string
		if i := strings.Index(l, "key="); i >= 0 {
			fmt.Sscanf(l[i+4:], "%q", &key)
		}
		m[key] = l
	}
	return m
}

func hashes() {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	n := fs.Int("n", 20, "")
	log := fs.Bool("log", false, "")
	one := fs.Int("run", -1, "")
	fs.Parse(os.Args[2:])
	lo, hi := *from, *from+*n
	if *one >= 0 {
		lo, hi = *one, *one+1
	}
	for _, id := range propIDs() {
		if *prop != "" && *prop != id {
			continue
		}
		for i := lo; i < hi; i++ {
			p, cfg := planAt(scenarios[id], *seed, i)
			cfg.Log = *log
			o := execute(scenarios[id], p, cfg)
			out("%s %d %016x %d %s\n", id, i, o.Res.LogHash, o.Res.Steps, o.Key)
			if *log {
				for _, l := range o.Res.Log {
					out("%s\n", l)
				}
				out("%s\n%s\n", o.Msg, o.Trouble)
			}
		}
	}
}

func propIDs() []string {
	var ids []string
	for id := range scenarios {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
