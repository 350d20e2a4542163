// vmon: runtime monitors for github.com/jtejido/linear.
//
//	vmon check ID [-child FILE]     run the workloads of one property under their monitors
//	vmon replay FILE                re-run the case recorded in a replay file
//	vmon list                       property ids
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var verifDir = "/verif"

type Viol struct {
	Property string   `json:"property"`
	Workload string   `json:"workload"`
	Index    int      `json:"index"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Message  string   `json:"message"`
	Notes    []string `json:"notes,omitempty"`
	Stack    string   `json:"stack,omitempty"`
}

type ChildResult struct {
	Stats    map[string]interface{}
	Cases    int
	Checks   int64
	Distinct int
	Trivial  int
	Events   map[string]int64
	Worst    map[string]float64
	PerWL    map[string]int
	Samples  []string
	Viols    []Viol
}

type slot struct {
	wl    atomic.Pointer[Workload]
	idx   int64
	start int64 // unix nano; 0 = idle
}

func envSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}
func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// caseLimit is the wall-clock bound on one case. Cases take milliseconds (the
// largest a second or two), so reaching it means that the code under test does
// not come back.
const caseLimit = 150 * time.Second
const heapLimit = 14 << 30

func runCase(seed int64, p *Prop, w *Workload, idx int, thorough, verbose bool, st *Stats) (v *Viol) {
	c := newCtx(seed, p, w, idx, thorough)
	c.Verbose = verbose
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			stack := ""
			if vv, ok := r.(violation); ok {
				msg = vv.msg
			} else {
				msg = "unexpected panic: " + panicText(r)
				stack = string(debug.Stack())
				if len(stack) > 6000 {
					stack = stack[:6000]
				}
			}
			tier := "quick"
			if thorough {
				tier = "thorough"
			}
			v = &Viol{Property: p.ID, Workload: w.Name, Index: idx, Seed: seed, Tier: tier, Message: msg, Notes: c.notes, Stack: stack}
		}
		if st != nil {
			st.merge(c)
		}
	}()
	w.Run(c)
	return nil
}

func child(p *Prop, out string) {
	seed, tier := envSeed(), envTier()
	thorough := tier == "thorough"
	st := newStats()
	workers := 8
	type job struct {
		w   *Workload
		idx int
	}
	slots := make([]slot, workers)
	journal, _ := os.OpenFile(out+".journal", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	var vmu sync.Mutex
	var viols []Viol
	finish := func() {
		vmu.Lock()
		st.mu.Lock()
		res := ChildResult{Cases: st.Cases, Checks: st.Checks, Distinct: len(st.FPs), Trivial: st.Trivial, Events: st.Events, Worst: st.Worst, PerWL: st.PerWL, Samples: st.Samples, Viols: viols}
		for k, v := range res.Worst {
			if v > 1e300 || v != v {
				res.Worst[k] = 1e300
			}
		}
		b, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, "marshal:", err)
			os.Exit(3)
		}
		os.WriteFile(out, b, 0o644)
	}
	// watchdog
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			now := time.Now().UnixNano()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for i := range slots {
				s := atomic.LoadInt64(&slots[i].start)
				if s == 0 {
					continue
				}
				hung := now-s > int64(caseLimit)
				if hung || ms.HeapAlloc > heapLimit {
					w := slots[i].wl.Load()
					msg := fmt.Sprintf("case did not come back within %v", caseLimit)
					if !hung {
						msg = fmt.Sprintf("memory exhausted: heap of %d MB while the case ran", ms.HeapAlloc>>20)
					}
					buf := make([]byte, 1<<16)
					n := runtime.Stack(buf, true)
					vmu.Lock()
					viols = append(viols, Viol{Property: p.ID, Workload: w.Name, Index: int(atomic.LoadInt64(&slots[i].idx)), Seed: seed, Tier: tier, Message: msg, Stack: string(buf[:n])})
					vmu.Unlock()
					if !hung {
						break
					}
				}
			}
			vmu.Lock()
			stop := false
			for _, v := range viols {
				if strings.HasPrefix(v.Message, "case did not") || strings.HasPrefix(v.Message, "memory exhausted") {
					stop = true
				}
			}
			vmu.Unlock()
			if stop {
				finish()
				os.Exit(0)
			}
		}
	}()
	runJobs := func(jobs []job, nw int) {
		var next int64 = -1
		var wg sync.WaitGroup
		for k := 0; k < nw; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				rec := make([]byte, 128)
				for {
					i := int(atomic.AddInt64(&next, 1))
					if i >= len(jobs) {
						return
					}
					vmu.Lock()
					full := len(viols) >= 5
					vmu.Unlock()
					if full {
						return
					}
					j := jobs[i]
					for q := range rec {
						rec[q] = ' '
					}
					copy(rec, fmt.Sprintf("%s %d", j.w.Name, j.idx))
					rec[127] = '\n'
					if journal != nil {
						journal.WriteAt(rec, int64(k*128))
					}
					slots[k].wl.Store(j.w)
					atomic.StoreInt64(&slots[k].idx, int64(j.idx))
					atomic.StoreInt64(&slots[k].start, time.Now().UnixNano())
					v := runCase(seed, p, j.w, j.idx, thorough, false, st)
					atomic.StoreInt64(&slots[k].start, 0)
					if v != nil {
						vmu.Lock()
						viols = append(viols, *v)
						vmu.Unlock()
					}
				}
			}(k)
		}
		wg.Wait()
		for k := 0; k < nw; k++ {
			for q := 0; q < 1; q++ {
				if journal != nil {
					journal.WriteAt(bytes.Repeat([]byte{' '}, 127), int64(k*128))
				}
			}
		}
	}
	var par []job
	only := os.Getenv("VMON_ONLY")                    // development: one workload only
	scale, _ := strconv.Atoi(os.Getenv("VMON_SCALE")) // development: a fraction of the cases
	for i := range p.WL {
		w := &p.WL[i]
		if w.Serial || only != "" && only != w.Name {
			continue
		}
		n := w.quick(p)
		if thorough {
			n = w.quick(p) / w.Quick * w.Thorough
		}
		if scale > 1 {
			n = (n + scale - 1) / scale
		}
		for k := 0; k < n; k++ {
			par = append(par, job{w, k})
		}
	}
	// interleave workloads deterministically so that a stop after violations has seen all kinds
	r := Rng{caseSeed(seed, p.ID, "order", 0)}
	for i := len(par) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		par[i], par[j] = par[j], par[i]
	}
	runJobs(par, workers)
	for i := range p.WL {
		w := &p.WL[i]
		if !w.Serial {
			continue
		}
		n := w.quick(p)
		if thorough {
			n = w.quick(p) / w.Quick * w.Thorough
		}
		var jobs []job
		if scale > 1 {
			n = (n + scale - 1) / scale
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, job{w, k})
		}
		runJobs(jobs, 1)
	}
	finish()
	os.Exit(0)
}

func writeReplay(v Viol, extra string) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	name := fmt.Sprintf("%s-%s-%d-seed%d-%s.json", v.Property, v.Workload, v.Index, v.Seed, v.Tier)
	path := filepath.Join(dir, name)
	if extra != "" {
		v.Stack += "\n" + extra
	}
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

type Finding struct {
	Kind     string `json:"kind"` // "fixed" or "finding"
	Property string `json:"property"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Workload string `json:"workload,omitempty"` // finding: workload that reaches it
	Match    string `json:"match,omitempty"`    // finding: text the violation message contains
}

func loadFindings() []Finding {
	var f struct {
		Entries []Finding `json:"entries"`
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, &f)
	}
	return f.Entries
}

func parent(p *Prop) int {
	t0 := time.Now()
	seed, tier := envSeed(), envTier()
	tmp, err := os.MkdirTemp("", "vmon-"+p.ID+"-")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	out := filepath.Join(tmp, "result.json")
	cov := filepath.Join(tmp, "cov")
	os.MkdirAll(cov, 0o755)
	self, _ := os.Executable()
	cmd := exec.Command(self, "check", p.ID, "-child", out)
	raceLog := filepath.Join(tmp, "race")
	cmd.Env = append(os.Environ(), "GOCOVERDIR="+cov, "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog+" history_size=3", "GOTRACEBACK=all")
	var errb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &errb
	runErr := cmd.Run()
	var res ChildResult
	var viols []Viol
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		if err := json.Unmarshal(b, &res); err != nil {
			fmt.Println("bad result file:", err)
			return 2
		}
		viols = res.Viols
	} else {
		// The monitored process died: a fatal run-time fault of the code under test
		// (stack exhaustion, concurrent map access, ...). The journal names the cases in flight.
		j, _ := os.ReadFile(out + ".journal")
		text := errb.String()
		if len(text) > 8000 {
			text = text[:8000]
		}
		var names []string
		for _, l := range strings.Split(string(j), "\n") {
			if l = strings.Trim(l, " \x00"); l != "" {
				names = append(names, l)
			}
		}
		wl, idx := "unknown", 0
		if len(names) > 0 {
			fmt.Sscanf(names[0], "%s %d", &wl, &idx)
		}
		viols = append(viols, Viol{Property: p.ID, Workload: wl, Index: idx, Seed: seed, Tier: tier,
			Message: fmt.Sprintf("the monitored process died (%v) while running cases %v", runErr, names), Stack: text})
	}
	// race reports
	races := 0
	raceText := ""
	if fs, _ := filepath.Glob(raceLog + "*"); len(fs) > 0 {
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			n := strings.Count(string(b), "WARNING: DATA RACE")
			races += n
			if raceText == "" && n > 0 {
				raceText = string(b)
				if len(raceText) > 8000 {
					raceText = raceText[:8000]
				}
			}
		}
	}
	if races > 0 {
		viols = append(viols, Viol{Property: p.ID, Workload: "race-detector", Index: 0, Seed: seed, Tier: tier,
			Message: fmt.Sprintf("%d data race report(s)", races), Stack: raceText})
	}
	find := loadFindings()
	known := 0
	exit := 0
	nv := 0
	printed := map[string]bool{}
	for _, v := range viols {
		matched := false
		for _, f := range find {
			if f.Kind == "finding" && f.Property == p.ID && f.Workload == v.Workload && f.Match != "" && strings.Contains(v.Message, f.Match) {
				matched = true
				if !printed[f.What] {
					printed[f.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.What)
				}
			}
		}
		if matched {
			known++
			continue
		}
		nv++
		path := writeReplay(v, "")
		fmt.Printf("%s: %s case %d: %s\n", p.ID, v.Workload, v.Index, firstLine(v.Message))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		exit = 1
	}
	if exit == 0 {
		for _, n := range p.Need {
			if res.Events[n] == 0 {
				fmt.Printf("%s: inconclusive: the run observed no %q event\n", p.ID, n)
				exit = 2
			}
		}
		if res.Cases == 0 || res.Checks == 0 {
			fmt.Printf("%s: inconclusive: nothing was observed\n", p.ID)
			exit = 2
		}
	}
	coverage := map[string]interface{}{
		"evaluations":         res.Cases,
		"distinct_nontrivial": res.Distinct,
		"rule":                p.Rule,
		"samples":             res.Samples,
		"oracle_checks":       res.Checks,
		"trivial_cases":       res.Trivial,
		"cases_per_workload":  res.PerWL,
		"events":              res.Events,
	}
	if len(res.Worst) > 0 {
		coverage["worst_error_over_tolerance"] = res.Worst
	}
	if raceBuild {
		coverage["race_detector"] = true
		coverage["race_reports"] = races
	}
	if bin := os.Getenv("VMON_COVBIN"); bin != "" && exit == 0 {
		// A thirtieth of the same cases again in a binary instrumented for statement coverage
		// (the counters are shared between the threads and slow the full run down several times).
		cc := exec.Command(bin, "check", p.ID, "-child", out+".cov")
		cc.Env = append(os.Environ(), "GOCOVERDIR="+cov, "VMON_SCALE=30", "GOMAXPROCS=3")
		cc.Run()
		coverage["repo_statements_note"] = "statements executed by the first thirtieth of the cases"
	}
	if pc, fn := repoCoverage(cov); pc != "" {
		coverage["repo_statements_covered"] = pc
		coverage["repo_functions_reached"] = fn
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": coverage, "wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100,
		"violations": nv, "assumptions": p.Assume,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.ID+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		if exit == 0 {
			exit = 2
		}
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d oracle checks, %d violations, %.1fs\n", p.ID, res.Cases, res.Distinct, res.Checks, nv, time.Since(t0).Seconds())
	return exit
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// repoCoverage summarises which statements of the library the monitored run executed.
func repoCoverage(dir string) (string, map[string]string) {
	fs, _ := os.ReadDir(dir)
	if len(fs) == 0 {
		return "", nil
	}
	txt := filepath.Join(dir, "out.txt")
	c := exec.Command("go", "tool", "covdata", "textfmt", "-i="+dir, "-o="+txt)
	if err := c.Run(); err != nil {
		return "", nil
	}
	b, err := os.ReadFile(txt)
	if err != nil {
		return "", nil
	}
	type fc struct{ cov, tot int }
	per := map[string]*fc{}
	tot, cv := 0, 0
	for _, l := range strings.Split(string(b), "\n") {
		// file:a.b,c.d stmts count
		f := strings.Fields(l)
		if len(f) != 3 || !strings.HasPrefix(l, "github.com/jtejido/linear/") {
			continue
		}
		n, _ := strconv.Atoi(f[1])
		k, _ := strconv.Atoi(f[2])
		name := filepath.Base(strings.SplitN(f[0], ":", 2)[0])
		if per[name] == nil {
			per[name] = &fc{}
		}
		per[name].tot += n
		tot += n
		if k > 0 {
			per[name].cov += n
			cv += n
		}
	}
	if tot == 0 {
		return "", nil
	}
	m := map[string]string{}
	for k, v := range per {
		if v.cov > 0 {
			m[k] = fmt.Sprintf("%d/%d", v.cov, v.tot)
		}
	}
	return fmt.Sprintf("%d/%d", cv, tot), m
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Viol
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	p := propByID(v.Property)
	if p == nil {
		fmt.Println("unknown property", v.Property)
		return 2
	}
	for i := range p.WL {
		if p.WL[i].Name == v.Workload {
			r := runCase(v.Seed, p, &p.WL[i], v.Index, v.Tier == "thorough", true, nil)
			if r != nil {
				fmt.Println("reproduced:", r.Message)
				fmt.Println(r.Stack)
				return 1
			}
			fmt.Println("the case passes")
			return 0
		}
	}
	fmt.Println("recorded:", v.Message)
	fmt.Println(v.Stack)
	return 2
}

func main() {
	if d := os.Getenv("VMON_DIR"); d != "" {
		verifDir = d
	}
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Println("usage: vmon check ID | replay FILE | list | props")
		os.Exit(2)
	}
	switch a[0] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	case "props":
		b, _ := json.Marshal(props2())
		fmt.Println(string(b))
	case "replay":
		os.Exit(replay(a[1]))
	case "check":
		p := propByID(a[1])
		if p == nil {
			fmt.Println("unknown property", a[1])
			os.Exit(2)
		}
		if len(a) == 4 && a[2] == "-child" {
			child(p, a[3])
		}
		os.Exit(parent(p))
	default:
		os.Exit(2)
	}
}

func props2() []map[string]string {
	var o []map[string]string
	for _, p := range props {
		o = append(o, map[string]string{"id": p.ID, "technique": p.Technique, "level_note": p.Level})
	}
	return o
}
