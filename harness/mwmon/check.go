package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// engine runs case number i of a property and returns the violation it observed.
type engine struct {
	name  string
	run   func(w *World, st *stats, prop string, seed int64, i int) *Violation
	share int // relative number of cases
	// budget: number of cases
	quick, thorough int
	rule            string
}

// plan is how a property is checked.
type plan struct {
	engines []engine
	sleepOK bool
}

func histEngine(prof string, quick, thorough int) engine {
	return engine{name: "history", quick: quick, thorough: thorough, run: func(w *World, st *stats, prop string, seed int64, i int) *Violation {
		r := newRunner(w, prop, st)
		defer r.close()
		setProgress(func() Case { return Case{Prop: prop, Ops: append([]Op(nil), r.ops...)} })
		g := newGen(seed, r, profiles[prof])
		g.scenario(profiles[prof].steps)
		r.roundTripCause()
		st.Relevant += r.relevant
		if r.relevant > 0 {
			st.Shapes[r.shape()] = true
		}
		if len(st.Samples) < 2 && r.viol == nil && len(r.ops) > 0 {
			st.Samples = append(st.Samples, sample(r))
		}
		if r.dead && r.viol == nil {
			st.Abandoned++
		}
		if r.viol != nil {
			r.viol.Case = Case{Prop: prop, Seed: seed, Ops: r.ops, What: r.viol.What}
			return r.viol
		}
		return nil
	}, rule: "a case is a generated history of messages, oracle updates, incoming packets and blocks run on the assembled application, compared with an independent reference model (full state, all balances) after every step; it is non-trivial when at least one accepted step changed the modelled state, and distinct when its sequence of step kinds and outcomes is new"}
}

func sample(r *runner) string {
	var b strings.Builder
	n := 0
	for i := len(r.ops) / 2; i < len(r.ops) && n < 12; i++ {
		b.WriteString(r.ops[i].String())
		b.WriteString(" ")
		n++
	}
	return fmt.Sprintf("%d steps, e.g. from the middle: %s", len(r.ops), b.String())
}

// progress lets the watchdog say which case does not end.
var (
	progMu   sync.Mutex
	progCase func() Case
	progTick atomic.Int64
)

func setProgress(f func() Case) {
	progMu.Lock()
	progCase = f
	progMu.Unlock()
	progTick.Add(1)
}

// workerResult is what a worker prints.
type workerResult struct {
	Stats  *stats     `json:"stats"`
	Shapes []uint64   `json:"shapes"`
	States []uint64   `json:"states"`
	Viol   *Violation `json:"viol"`
	Done   int        `json:"done"`
	Err    string     `json:"err"`
}

func (res *workerResult) write(f string) {
	for h := range res.Stats.Shapes {
		res.Shapes = append(res.Shapes, h)
	}
	for h := range res.Stats.States {
		res.States = append(res.States, h)
	}
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(f+".tmp", b, 0o644))
	must(os.Rename(f+".tmp", f))
}

const opTimeout = 150 * time.Second

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	k := fs.Int("k", 0, "")
	n := fs.Int("n", 1, "")
	out := fs.String("out", "", "")
	secs := fs.Int("secs", 300, "")
	must(fs.Parse(args))
	debug.SetGCPercent(400)
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	st := newStats()
	res := &workerResult{Stats: st}
	go func() {
		last, at := int64(-1), time.Now()
		for {
			time.Sleep(2 * time.Second)
			if t := progTick.Load(); t != last {
				last, at = t, time.Now()
				continue
			}
			if time.Since(at) > opTimeout {
				progMu.Lock()
				f := progCase
				progMu.Unlock()
				r := &workerResult{Stats: newStats()}
				if f == nil {
					r.Err = "the worker did not start"
				} else {
					c := f()
					c.What = fmt.Sprintf("a step did not finish within %s", opTimeout)
					r.Viol = &Violation{Prop: *prop, Step: len(c.Ops) - 1, What: c.What, Case: c}
				}
				r.write(*out)
				os.Exit(0)
			}
		}
	}()
	w := boot()
	p := plans()[*prop]
	var last []byte
	for ei, e := range p.engines {
		if x := os.Getenv("MW_ENGINE"); x != "" && x != e.name {
			continue // while developing
		}
		total := e.quick
		if *tier == "thorough" {
			total = e.thorough
		}
		for i := *k; i < total; i += *n {
			if time.Now().After(deadline) {
				st.ev("time-cap")
				break
			}
			progTick.Add(1)
			s := caseSeed(*seed, *prop+"/"+e.name, i)
			st.Cases++
			st.ev("cases-" + e.name)
			if v := e.run(w, st, *prop, s, i); v != nil {
				v.Prop = *prop
				if v.Case.Mode == "" && v.Case.Ops != nil && len(v.Case.Ops) > 3 {
					v.Case.Ops = shrink(w, *prop, v.Case.Ops, 25*time.Second)
				}
				res.Viol = v
				res.Done = i
				res.write(*out)
				return
			}
		}
		_ = ei
	}
	_ = last
	res.write(*out)
	w.Close()
}

// shrink drops steps that the violation does not need.
func shrink(w *World, prop string, ops []Op, budget time.Duration) []Op {
	end := time.Now().Add(budget)
	fails := func(o []Op) (ok bool, at int) {
		defer func() {
			if e := recover(); e != nil {
				ok = false
			}
		}()
		progTick.Add(1)
		r := newRunner(w, prop, newStats())
		defer r.close()
		r.run(o)
		r.roundTripCause()
		return r.viol != nil, r.step
	}
	if ok, at := fails(ops); !ok {
		return ops
	} else {
		ops = ops[:at+1]
	}
	for size := len(ops) / 2; size >= 1; size /= 2 {
		for i := 0; i+size < len(ops); {
			if time.Now().After(end) {
				return ops
			}
			cand := append(append([]Op(nil), ops[:i]...), ops[i+size:]...)
			if ok, at := fails(cand); ok {
				ops = cand[:at+1]
			} else {
				i += size
			}
		}
	}
	return ops
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	evid := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	nw := fs.Int("workers", 8, "")
	must(fs.Parse(args))
	p, ok := plans()[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	t0 := time.Now()
	secs := 330
	if *tier == "thorough" {
		secs = 3600
	} else if *prop == "D02" {
		secs = 240
	}
	dir, err := os.MkdirTemp("", "mwcheck")
	must(err)
	defer os.RemoveAll(dir)
	type proc struct {
		cmd *exec.Cmd
		out string
		buf *bytes.Buffer
	}
	var procs []*proc
	for k := 0; k < *nw; k++ {
		out := filepath.Join(dir, fmt.Sprintf("w%d.json", k))
		cmd := exec.Command(os.Args[0], "worker", "-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-k", fmt.Sprint(k), "-n", fmt.Sprint(*nw), "-out", out, "-secs", fmt.Sprint(secs))
		gmp := "GOMAXPROCS=1"
		if *nw == 1 {
			gmp = "GOMAXPROCS=8"
		}
		cmd.Env = append(os.Environ(), gmp, "TMPDIR="+dir)
		if *prop == "D02" {
			cmd.Env = append(cmd.Env, "MW_RACELOG="+filepath.Join(dir, "race"), "GORACE=exitcode=0 history_size=4 log_path="+filepath.Join(dir, "race"))
		}
		buf := &bytes.Buffer{}
		cmd.Stdout, cmd.Stderr = buf, buf
		must(cmd.Start())
		procs = append(procs, &proc{cmd, out, buf})
	}
	type fin struct {
		k   int
		err error
	}
	ch := make(chan fin, len(procs))
	for k, pr := range procs {
		go func() { ch <- fin{k, pr.cmd.Wait()} }()
	}
	tot := newStats()
	var viol *Violation
	var errs []string
	left := len(procs)
	killed := false
	for left > 0 {
		f := <-ch
		left--
		pr := procs[f.k]
		b, err := os.ReadFile(pr.out)
		if err != nil {
			if !killed {
				o := pr.buf.String()
				if len(o) > 3000 {
					o = o[:1500] + "\n...\n" + o[len(o)-1500:]
				}
				errs = append(errs, fmt.Sprintf("worker %d ended without a result (%v): %s", f.k, f.err, o))
				if o := pr.buf.String(); strings.Contains(o, "fatal error: concurrent map") && strings.HasPrefix(fatalOwner(o), "repo:") {
					o = o[strings.Index(o, "fatal error: concurrent map"):]
					viol = &Violation{Prop: *prop, What: cut(o, 4000), Case: Case{Prop: *prop, Mode: "crash", What: cut(o, 4000)}}
				} else if strings.Contains(o, "goroutine stack exceeds") {
					viol = &Violation{Prop: *prop, What: "unbounded recursion: " + o, Case: Case{Prop: *prop, Mode: "crash", What: o}}
				}
			}
			continue
		}
		var res workerResult
		must(json.Unmarshal(b, &res))
		tot.merge(&res)
		if res.Err != "" {
			errs = append(errs, res.Err)
		}
		if res.Viol != nil && (viol == nil || len(res.Viol.Case.Ops) < len(viol.Case.Ops)) {
			viol = res.Viol
			if !killed {
				killed = true
				// let the others finish their case, no longer
				time.AfterFunc(500*time.Millisecond, func() {
					for _, x := range procs {
						_ = x.cmd.Process.Kill()
					}
				})
			}
		}
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(*evid, *prop, *tier, *seed, tot, p, wall, viol)
	if viol != nil {
		must(os.MkdirAll(*replays, 0o755))
		f := filepath.Join(*replays, fmt.Sprintf("%s-%d.json", *prop, *seed))
		viol.Case.What = viol.What
		b, err := json.MarshalIndent(viol.Case, "", " ")
		must(err)
		must(os.WriteFile(f, b, 0o644))
		fmt.Printf("property %s violated at step %d: %s\n", *prop, viol.Step, cut(viol.What, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
		_ = os.RemoveAll(dir)
		os.Exit(1)
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, e)
		}
		_ = os.RemoveAll(dir)
		os.Exit(2)
	}
	fmt.Printf("property %s held on %d cases, %d steps, %d distinct states (%.0fs)\n", *prop, tot.Cases, tot.Steps, len(tot.States), wall)
	for _, x := range tot.Foreign {
		fmt.Println("note: a discrepancy outside of this property ended a case:", cut(x, 300))
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (s *stats) merge(r *workerResult) {
	o := r.Stats
	s.Cases += o.Cases
	s.Steps += o.Steps
	s.Abandoned += o.Abandoned
	s.Relevant += o.Relevant
	for k, v := range o.Events {
		s.Events[k] += v
	}
	for _, h := range r.Shapes {
		s.Shapes[h] = true
	}
	for _, h := range r.States {
		s.States[h] = true
	}
	for _, x := range o.Samples {
		if len(s.Samples) < 3 {
			s.Samples = append(s.Samples, x)
		}
	}
	for _, x := range o.Foreign {
		if len(s.Foreign) < 10 {
			s.Foreign = append(s.Foreign, x)
		}
	}
}

func writeEvidence(f, prop, tier string, seed int64, st *stats, p plan, wall float64, v *Violation) {
	if f == "" {
		return
	}
	var rules []string
	for _, e := range p.engines {
		rules = append(rules, e.name+": "+e.rule)
	}
	if st.Samples == nil {
		st.Samples = []string{}
	}
	ks := make([]string, 0, len(st.Events))
	for k := range st.Events {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	cov := map[string]any{
		"evaluations":                 st.Cases,
		"distinct_nontrivial":         len(st.Shapes),
		"rule":                        strings.Join(rules, " | "),
		"samples":                     st.Samples,
		"steps":                       st.Steps,
		"distinct_model_states":       len(st.States),
		"accepted_state_changes":      st.Relevant,
		"events_observed":             st.Events,
		"abandoned_cases":             st.Abandoned,
		"discrepancies_of_other_kind": len(st.Foreign),
		"violation_found":             v != nil,
	}
	b, err := json.MarshalIndent(map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall}, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Dir(f), 0o755))
	must(os.WriteFile(f, b, 0o644))
}

// replayMain runs a recorded case again.
func replayMain(f string) {
	b, err := os.ReadFile(f)
	must(err)
	var c Case
	must(json.Unmarshal(b, &c))
	w := boot()
	defer w.Close()
	if c.Mode != "" {
		for _, p := range plans() {
			for _, e := range p.engines {
				if e.name == c.Mode {
					v := e.run(w, newStats(), c.Prop, c.Seed, int(c.I))
					if v != nil {
						fmt.Println("VIOL", v.What)
						os.Exit(1)
					}
					fmt.Println("no violation")
					return
				}
			}
		}
		fmt.Println("recorded:", c.What)
		return
	}
	prop := c.Prop
	if prop == "" {
		prop = "*"
	}
	st := newStats()
	r := newRunner(w, prop, st)
	r.verbose = true
	r.run(c.Ops)
	r.roundTripCause()
	if r.viol != nil {
		fmt.Println("VIOL", r.viol.What)
		os.Exit(1)
	}
	fmt.Println(st.Events, st.Foreign)
}

func plans() map[string]plan {
	out := map[string]plan{}
	for p := range profiles {
		q, t := 1200, 30000
		if p == "R11" {
			q, t = 600, 12000
		}
		out[p] = plan{engines: []engine{histEngine(p, q, t)}}
		if p == "R11" {
			out[p] = plan{engines: []engine{histEngine(p, q, t), exportEngine(120, 3000)}}
		}
		if p == "A01" {
			out[p] = plan{engines: []engine{valueEngine(4000, 200000), histEngine(p, q*3/4, t)}}
		}
	}
	out["U01"] = plan{engines: []engine{mathEngine(24000, 1200000)}}
	out["G01"] = plan{engines: []engine{govEngine(160, 4000)}}
	out["T01"] = plan{engines: []engine{txEngine(600, 15000)}}
	out["D01"] = plan{engines: []engine{determEngine(240, 6000)}}
	out["D02"] = plan{engines: []engine{raceEngine(30, 1200)}}
	return out
}
