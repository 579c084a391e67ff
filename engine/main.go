package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// JobSpec is one harness with the bounds it is run at. List-valued parameters are expanded.
type JobSpec struct {
	Fn      string         `json:"fn"` // package.Function below harness/
	Params  map[string]any `json:"params"`
	Tier    string         `json:"tier"`  // "", "quick" or "thorough"
	Secs    int            `json:"secs"`  // time budget of one job
	Steps   int64          `json:"steps"` // instruction budget of one path
	Hang    bool           `json:"hang"`  // exceeding the step budget is a violation
	Alloc   int64          `json:"alloc"` // an allocation of more cells is a violation
	Lia     bool           `json:"lia"`   // try linear integer arithmetic first
	Maps    string         `json:"maps"`  // "all": iterate maps in every order
	Reach   []string       `json:"reach"` // witnesses some job of this spec must reach
	Race    bool           `json:"race"`
	NoMerge bool           `json:"nomerge"`
	Bounds  string         `json:"bounds"`
}

// PropSpec is the check of one property.
type PropSpec struct {
	Level       string    `json:"level"`
	Jobs        []JobSpec `json:"jobs"`
	Assumptions []string  `json:"assumptions"`
	Outside     []string  `json:"outside"`
	Oracle      string    `json:"oracle"`
}

type job struct {
	spec   *JobSpec
	si     int
	params map[string]int64
	name   string

	stats   *JobStats
	sol     SolverStats
	viols   []Violation
	samples []Sample
	lost    []map[string]uint64
	notes   map[string]int
	funcs   map[string]bool
	initW   []string
	wall    time.Duration
	obsBad  int
	obsOK   int
	err     string
	skipped bool
	maxTerm int
}

func expand(s *JobSpec, si int) []*job {
	keys := make([]string, 0, len(s.Params))
	for k := range s.Params {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []map[string]int64{{}}
	for _, k := range keys {
		var vals []int64
		switch v := s.Params[k].(type) {
		case float64:
			vals = []int64{int64(v)}
		case []any:
			for _, x := range v {
				vals = append(vals, int64(x.(float64)))
			}
		case string: // "1,3..5"
			for _, part := range strings.Split(v, ",") {
				p := strings.SplitN(part, "..", 2)
				a, err := strconv.Atoi(p[0])
				b := a
				if err == nil && len(p) == 2 {
					b, err = strconv.Atoi(p[1])
				}
				if err != nil {
					fatal("parameter %s: %v", k, err)
				}
				for i := a; i <= b; i++ {
					vals = append(vals, int64(i))
				}
			}
		}
		var nx []map[string]int64
		for _, m := range out {
			for _, v := range vals {
				c := map[string]int64{k: v}
				for kk, vv := range m {
					c[kk] = vv
				}
				nx = append(nx, c)
			}
		}
		out = nx
	}
	var js []*job
	for _, m := range out {
		var ps []string
		for _, k := range keys {
			ps = append(ps, fmt.Sprintf("%s=%d", k, m[k]))
		}
		n := s.Fn
		if len(ps) > 0 {
			n += "[" + strings.Join(ps, ",") + "]"
		}
		js = append(js, &job{spec: s, si: si, params: m, name: n})
	}
	return js
}

var (
	repoDir  string
	verifDir string
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	debug.SetGCPercent(200)
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "", "quick or thorough")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	only := flag.String("only", "", "regexp of job names (for development; no evidence is written)")
	replay := flag.String("replay", "", "replay file to run against the real code")
	workers := flag.Int("workers", 0, "parallel jobs")
	verbose := flag.Bool("v", false, "per-job output")
	wall := flag.Int("wall", 0, "overall budget in seconds")
	fnFlag := flag.String("fn", "", "run one ad-hoc harness pkg.Func (with -params)")
	parFlag := flag.String("params", "", "k=v,... for -fn")
	optFlag := flag.String("opts", "", "json of JobSpec options for -fn")
	keep := flag.Bool("smt", false, "")
	flag.Parse()
	_ = keep
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *replay != "" {
		os.Exit(runReplayFile(*replay))
	}
	specs := map[string]*PropSpec{}
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &specs); err != nil {
		fatal("checks.json: %v", err)
	}
	var ps *PropSpec
	if *fnFlag != "" {
		js := JobSpec{Fn: *fnFlag, Params: map[string]any{}}
		for _, kv := range strings.Split(*parFlag, ",") {
			if p := strings.SplitN(kv, "=", 2); len(p) == 2 {
				if strings.Contains(p[1], "..") {
					js.Params[p[0]] = p[1]
				} else {
					f, _ := strconv.ParseFloat(p[1], 64)
					js.Params[p[0]] = f
				}
			}
		}
		if *optFlag != "" {
			if err := json.Unmarshal([]byte(*optFlag), &js); err != nil {
				fatal("%v", err)
			}
		}
		ps = &PropSpec{Level: "model_checking", Jobs: []JobSpec{js}}
		*prop = "ADHOC"
		*verbose = true
	} else {
		ps = specs[*prop]
		if ps == nil {
			fatal("no such property %q", *prop)
		}
	}
	start := time.Now()
	var jobs []*job
	pk := map[string]bool{}
	for i := range ps.Jobs {
		s := &ps.Jobs[i]
		if s.Tier != "" && s.Tier != *tier {
			continue
		}
		for _, j := range expand(s, i) {
			if *only != "" && !regexp.MustCompile(*only).MatchString(j.name) {
				continue
			}
			jobs = append(jobs, j)
			pk[s.Fn[:strings.LastIndex(s.Fn, ".")]] = true
		}
	}
	var pats []string
	for p := range pk {
		pats = append(pats, "./internal/zzverif/"+p)
	}
	sort.Strings(pats)
	pats = append(pats, "./internal/zzverif/model", "./internal/zzverif/nd")
	w, err := loadWorld(repoDir, filepath.Join(verifDir, "harness"), pats)
	if err != nil {
		fatal("%v", err)
	}
	loadT := time.Since(start)
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	budget := 240 * time.Second
	if *tier == "thorough" {
		budget = 3000 * time.Second
	}
	if *wall > 0 {
		budget = time.Duration(*wall) * time.Second
	}
	end := start.Add(budget)
	ch := make(chan *job, len(jobs))
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				runJob(w, j, *tier, end)
				if *verbose {
					printJob(j)
				}
			}
		}()
	}
	wg.Wait()
	exploreT := time.Since(start)

	// native replay of candidate violations and of sampled paths
	rp := newReplayer(jobs)
	rp.tryLost(jobs)
	type confirmed struct {
		j    *job
		v    Violation
		path string
		out  string
	}
	var conf []confirmed
	unconf := 0
	var unconfNotes []string
	for _, j := range jobs {
		n := 0
		for _, v := range j.viols {
			if n >= 3 {
				break
			}
			ok, out := rp.confirm(j, v)
			if ok {
				n++
				conf = append(conf, confirmed{j, v, "", out})
			} else {
				unconf++
				unconfNotes = append(unconfNotes, fmt.Sprintf("%s: %s %s %v -> native: %s", j.name, v.Kind, v.Msg, v.Inputs, out))
				fmt.Printf("note: candidate not reproduced by the real code, not reported: %s: %s %s at %s inputs=%v -> %s\n", j.name, v.Kind, v.Msg, v.Where, v.Inputs, out)
			}
		}
	}
	rp.validate(jobs, *verbose)
	known := loadKnown(*prop)
	rc := 0
	var vlist []map[string]any
	seenMsg := map[string]bool{}
	for _, c := range conf {
		if k := known.match(c.j, c.v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			continue
		}
		key := c.j.spec.Fn + c.v.Kind + c.v.Msg
		if seenMsg[key] {
			continue
		}
		seenMsg[key] = true
		path := saveReplay(*prop, c.j, c.v, c.out)
		vlist = append(vlist, map[string]any{"job": c.j.name, "kind": c.v.Kind, "msg": c.v.Msg, "inputs": c.v.Inputs, "where": c.v.Where, "replay": path})
		fmt.Printf("violation in %s: %s: %s\n  at %s\n  inputs: %s\n  real code: %s\n", c.j.name, c.v.Kind, c.v.Msg, c.v.Where, fmtInputs(c.v.Inputs), c.out)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		rc = 1
	}
	// vacuity: witnesses
	missing := []string{}
	for i := range ps.Jobs {
		for _, tag := range ps.Jobs[i].Reach {
			ok, any := false, false
			for _, j := range jobs {
				if j.si != i {
					continue
				}
				any = true
				if j.stats == nil || !j.stats.Exhausted || len(j.stats.Aborted) > 0 || j.skipped || j.err != "" {
					// reported as a reduced bound; whether the label can be reached is open
					ok = true
				}
				if j.stats != nil && j.stats.Reached[tag] > 0 {
					ok = true
				}
			}
			if any && !ok {
				missing = append(missing, ps.Jobs[i].Fn+":"+tag)
			}
		}
	}
	if *only == "" && *fnFlag == "" {
		writeEvidence(*prop, *tier, seed, ps, jobs, vlist, unconf, unconfNotes, missing, time.Since(start), loadT, exploreT)
	}
	tot := summary(jobs)
	fmt.Printf("%s %s: %d jobs, %d paths, %d assertions decided, %d solver queries (%.1fs), %d incomplete jobs, %d real-code comparisons agree, %d disagree, wall %.1fs\n",
		*prop, *tier, len(jobs), tot.paths, tot.asserts, tot.queries, tot.solver.Seconds(), tot.incomplete, tot.obsOK, tot.obsBad, time.Since(start).Seconds())
	for _, j := range jobs {
		if j.stats != nil && (!j.stats.Exhausted || len(j.stats.Aborted) > 0) || j.err != "" || j.skipped {
			fmt.Printf("reduced bound: %s: %s\n", j.name, incompleteWhy(j))
		}
	}
	if rc == 0 && len(missing) > 0 {
		fmt.Printf("inconclusive: reachability witnesses not reached: %s\n", strings.Join(missing, ", "))
		rc = 2
	}
	os.Exit(rc)
}

func incompleteWhy(j *job) string {
	if j.skipped {
		return "not run (overall time budget)"
	}
	if j.err != "" {
		return j.err
	}
	var s []string
	if !j.stats.Exhausted {
		s = append(s, "path tree not exhausted")
	}
	var ks []string
	for k := range j.stats.Aborted {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i > 5 {
			s = append(s, "...")
			break
		}
		s = append(s, fmt.Sprintf("%s x%d", k, j.stats.Aborted[k]))
	}
	return strings.Join(s, "; ")
}

type totals struct {
	paths, asserts, queries, incomplete, obsOK, obsBad int
	steps                                              int64
	solver                                             time.Duration
}

func summary(jobs []*job) (t totals) {
	for _, j := range jobs {
		if j.stats == nil {
			t.incomplete++
			continue
		}
		t.paths += j.stats.Paths
		t.steps += j.stats.Steps
		t.asserts += j.stats.Asserts
		t.queries += j.sol.Queries
		t.solver += j.sol.Time
		t.obsOK += j.obsOK
		t.obsBad += j.obsBad
		if !j.stats.Exhausted || len(j.stats.Aborted) > 0 {
			t.incomplete++
		}
	}
	return
}

func fmtInputs(m map[string]uint64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	str := map[string][]byte{}
	var names []string
	for _, k := range ks {
		if i := strings.LastIndexByte(k, '['); i > 0 && strings.HasSuffix(k, "]") {
			n := k[:i]
			x, _ := strconv.Atoi(k[i+1 : len(k)-1])
			s := str[n]
			if s == nil {
				names = append(names, n)
			}
			for len(s) <= x {
				s = append(s, 0)
			}
			s[x] = byte(m[k])
			str[n] = s
			continue
		}
	}
	for _, k := range ks {
		if strings.HasSuffix(k, "]") {
			continue
		}
		if _, ok := str[k]; ok {
			continue
		}
		fmt.Fprintf(&b, "%s=%d ", k, int64(m[k]))
	}
	for _, n := range names {
		fmt.Fprintf(&b, "%s=%q ", n, string(str[n]))
	}
	return b.String()
}

func printJob(j *job) {
	if j.stats == nil {
		fmt.Printf("  job %s: %s\n", j.name, j.err)
		return
	}
	s := j.stats
	fmt.Printf("  job %-50s paths=%d done=%d assumed=%d steps=%d forks=%d merges=%d asserts=%d(conc %d) q=%d(sat %d unsat %d unk %d) tbl=%d mod=%d sat=%d(%.2fs) solver=%.2fs wall=%.2fs exhausted=%v viol=%d reach=%v\n",
		j.name, s.Paths, s.Completed, s.Assumed, s.Steps, s.Forks, s.Merges, s.Asserts, s.AssertsConcrete, j.sol.Queries, j.sol.Sat, j.sol.Unsat, j.sol.Unknown, j.sol.ByTable, j.sol.ByModel, j.sol.BySat, j.sol.SatTime.Seconds(), j.sol.Time.Seconds(), j.wall.Seconds(), s.Exhausted, len(j.viols), s.Reached)
	for k, n := range s.Aborted {
		fmt.Printf("      aborted %s x%d\n", k, n)
	}
	for k, n := range j.notes {
		fmt.Printf("      note %s x%d\n", k, n)
	}
	for _, v := range j.viols {
		fmt.Printf("      candidate %s: %s at %s inputs %s\n          %s\n", v.Kind, v.Msg, v.Where, fmtInputs(v.Inputs), strings.Join(v.Trace, " < "))
	}
	if os.Getenv("VE_INIT") != "" {
		for _, x := range j.initW {
			fmt.Printf("      init %s\n", x)
		}
	}
}

func (w *World) harness(fn string) (*ssa.Package, *ssa.Function) {
	i := strings.LastIndex(fn, ".")
	p := w.pkgs[harnessRoot+"/"+fn[:i]]
	if p == nil {
		return nil, nil
	}
	return p, p.Func(fn[i+1:])
}

func runJob(w *World, j *job, tier string, end time.Time) {
	if time.Now().After(end) {
		j.skipped = true
		return
	}
	t0 := time.Now()
	defer func() { j.wall = time.Since(t0) }()
	defer func() {
		if r := recover(); r != nil {
			j.err = fmt.Sprintf("engine: %v", r)
			if os.Getenv("VE_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	p, fn := w.harness(j.spec.Fn)
	if fn == nil {
		fatal("no harness %s", j.spec.Fn)
	}
	e := NewEngine(w)
	defer e.sol.Close()
	e.inInit = true
	e.pushFrame(p.Func("init"), nil, nil, -1)
	e.frames[0].initPkg = p.Pkg.Path()
	e.initDone[p.Pkg.Path()] = true
	if ab := e.runPath(); ab != nil {
		e.initWarn = append(e.initWarn, "init: "+ab.kind+" "+ab.msg)
	}
	e.inInit = false
	e.frames, e.choices, e.trail, e.log, e.logPos = nil, nil, nil, nil, 0
	e.steps, e.stats.Steps = 0, 0
	e.merging = 0
	e.funcsHit = map[*cfunc]bool{}
	secs := j.spec.Secs
	if secs == 0 {
		secs = 60
		if tier == "thorough" {
			secs = 600
		}
	}
	e.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	if e.deadline.After(end) {
		e.deadline = end
	}
	if j.spec.Steps > 0 {
		e.maxSteps = j.spec.Steps
	}
	e.hangIsBug = j.spec.Hang
	e.allocMax = j.spec.Alloc
	e.mapOrder = j.spec.Maps
	e.noMerge = j.spec.NoMerge
	if j.spec.Lia {
		e.lia = newLia(e.tt)
		e.tt.quo = true
		defer e.lia.s.Close()
	}
	e.params = j.params
	e.explore(fn)
	if e.lia != nil {
		e.sol.Stats.add(&e.lia.s.Stats)
	}
	if v := e.ver; v != nil {
		v.finish()
		e.sol.Stats.add(&v.sol.Stats)
		e.sol.Stats.Confirmed += v.seen
		if v.wrong > 0 {
			e.noteCnt["SMT solver contradicts the built-in solver"] += v.wrong
			e.stats.Aborted["solver disagreement"] += v.wrong
		}
		if v.unk > 0 {
			e.noteCnt["assertion not confirmed by the SMT solver"] += v.unk
			e.stats.Aborted["assertion not confirmed by the SMT solver"] += v.unk
		}
	}
	j.stats = e.stats
	j.sol = e.sol.Stats
	j.viols = e.viols
	j.samples = e.samples
	j.lost = e.lost
	j.notes = e.noteCnt
	j.initW = e.initWarn
	j.funcs = map[string]bool{}
	for f := range e.funcsHit {
		if f.inRepo {
			j.funcs[f.name] = true
		}
	}
}

// ---- known findings ----

type knownList []knownEnt
type knownEnt struct {
	fn, what string
	msg      *regexp.Regexp
	inputs   map[string]uint64
}

// loadKnown reads /verif/known_findings.json: entries {property, harness, message, inputs, what}.
func loadKnown(prop string) knownList {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []struct {
			Property, Harness, Message, What string
			Inputs                           map[string]uint64
		} `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("known_findings.json: %v", err)
	}
	var out knownList
	for _, x := range f.Findings {
		if x.Property == prop {
			out = append(out, knownEnt{x.Harness, x.What, regexp.MustCompile(x.Message), x.Inputs})
		}
	}
	return out
}

func (l knownList) match(j *job, v Violation) string {
	for _, k := range l {
		if k.fn != "" && k.fn != j.spec.Fn || !k.msg.MatchString(v.Kind+": "+v.Msg) {
			continue
		}
		ok := true
		for n, x := range k.inputs {
			if v.Inputs[n] != x {
				ok = false
			}
		}
		if ok {
			return k.what
		}
	}
	return ""
}

// ---- replay ----

type rcase struct {
	Harness string            `json:"harness"`
	Params  map[string]int64  `json:"params"`
	Inputs  map[string]uint64 `json:"inputs"`
	Reps    int               `json:"reps"`
	Want    string            `json:"want,omitempty"`
	Alloc   int64             `json:"alloc,omitempty"`
}

type rresult struct {
	Status string   `json:"status"`
	Obs    []string `json:"obs"`
	Alloc  uint64   `json:"alloc"`
}

type replayer struct {
	pkgs []string
	dir  string
	bin  map[bool]string
	err  map[bool]error
}

func newReplayer(jobs []*job) *replayer {
	m := map[string]bool{}
	for _, j := range jobs {
		m[j.spec.Fn] = true
	}
	r := &replayer{bin: map[bool]string{}, err: map[bool]error{}}
	for k := range m {
		r.pkgs = append(r.pkgs, k)
	}
	sort.Strings(r.pkgs)
	return r
}

func (r *replayer) build(race bool) (string, error) {
	if b, ok := r.bin[race]; ok {
		return b, r.err[race]
	}
	if r.dir == "" {
		d, err := os.MkdirTemp("", "ve-replay")
		if err != nil {
			return "", err
		}
		r.dir = d
	}
	ov, err := overlayFiles(repoDir, filepath.Join(verifDir, "harness"))
	if err != nil {
		return "", err
	}
	var src bytes.Buffer
	src.WriteString("package main\n\nimport (\n\t\"" + harnessRoot + "/nd\"\n")
	done := map[string]bool{}
	for _, f := range r.pkgs {
		p := f[:strings.LastIndex(f, ".")]
		if !done[p] {
			done[p] = true
			fmt.Fprintf(&src, "\t%s \"%s/%s\"\n", pkgIdent(p), harnessRoot, p)
		}
	}
	src.WriteString(")\n\nvar table = map[string]func(){\n")
	for _, f := range r.pkgs {
		i := strings.LastIndex(f, ".")
		fmt.Fprintf(&src, "\t%q: %s.%s,\n", f, pkgIdent(f[:i]), f[i+1:])
	}
	src.WriteString("}\n\nfunc main() { nd.Main(table) }\n")
	mp := filepath.Join(r.dir, "main.go")
	if err := os.WriteFile(mp, src.Bytes(), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(repoDir, "internal/zzverif/zzreplay/main.go")] = mp
	clock, err := clockFiles(repoDir)
	if err != nil {
		return "", err
	}
	i := 0
	for k, b := range clock {
		i++
		f := filepath.Join(r.dir, fmt.Sprintf("clock%d.go", i))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return "", err
		}
		ov[k] = f
	}
	ob, _ := json.Marshal(map[string]any{"Replace": ov})
	op := filepath.Join(r.dir, "overlay.json")
	os.WriteFile(op, ob, 0o644)
	bin := filepath.Join(r.dir, fmt.Sprintf("replay-%v", race))
	args := []string{"build", "-overlay", op, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./internal/zzverif/zzreplay")
	c := exec.Command("go", args...)
	c.Dir = repoDir
	out, err := c.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("building the replay: %v\n%s", err, out)
		fmt.Fprintln(os.Stderr, err)
	}
	r.bin[race], r.err[race] = bin, err
	return bin, err
}

func pkgIdent(p string) string { return strings.NewReplacer("/", "_", "-", "_").Replace(p) }

func (r *replayer) close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *replayer) run(cases []rcase, race bool, limit time.Duration) ([]rresult, string) {
	bin, err := r.build(race)
	if err != nil {
		return nil, "build failed"
	}
	in, _ := json.Marshal(cases)
	cp := filepath.Join(r.dir, "cases.json")
	os.WriteFile(cp, in, 0o644)
	var so, se bytes.Buffer
	sh := "ulimit -v 16000000; exec \"$0\" \"$1\""
	if race {
		sh = "exec \"$0\" \"$1\""
	}
	c := exec.Command("bash", "-c", sh, bin, cp)
	c.Stdout, c.Stderr = &so, &se
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
	if err := c.Start(); err != nil {
		return nil, err.Error()
	}
	dn := make(chan error, 1)
	go func() { dn <- c.Wait() }()
	why := ""
	select {
	case err := <-dn:
		if err != nil {
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 66 {
				why = "race detected"
			} else if strings.Contains(se.String(), "out of memory") {
				why = "out of memory"
			} else {
				msg := se.String()
				if len(msg) > 300 {
					msg = msg[:300]
				}
				why = "crash: " + msg
			}
		}
	case <-time.After(limit):
		c.Process.Kill()
		<-dn
		why = "timeout"
	}
	var res []rresult
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "{") {
			var x rresult
			if json.Unmarshal([]byte(l), &x) == nil {
				res = append(res, x)
			}
		}
	}
	return res, why
}

// confirm replays a candidate against the real code.
func (r *replayer) confirm(j *job, v Violation) (bool, string) {
	c := rcase{Harness: j.spec.Fn, Params: j.params, Inputs: v.Inputs, Reps: 1}
	switch v.Kind {
	case "hang":
		res, why := r.run([]rcase{c}, false, 20*time.Second)
		if why == "timeout" || why == "out of memory" {
			return true, "does not terminate within 20s (" + why + ")"
		}
		return false, fmt.Sprint(res, why)
	case "sharedwrite":
		res, why := r.run([]rcase{c}, true, 60*time.Second)
		if why == "race detected" || strings.HasPrefix(why, "crash: fatal error: concurrent map") {
			return true, "data race reported by the race detector"
		}
		return false, fmt.Sprint(res, why)
	case "alloc":
		res, why := r.run([]rcase{c}, false, 30*time.Second)
		if why != "" {
			return true, why
		}
		if len(res) == 1 && int64(res[0].Alloc) > max(j.spec.Alloc, 16<<20) {
			return true, fmt.Sprintf("allocates %d bytes", res[0].Alloc)
		}
		return false, fmt.Sprint(res, why)
	}
	res, why := r.run([]rcase{c}, false, 30*time.Second)
	bad := func() (bool, string) {
		if why == "timeout" && j.spec.Hang || strings.HasPrefix(why, "crash") || why == "out of memory" {
			return true, why
		}
		if len(res) == 1 && (strings.HasPrefix(res[0].Status, "assert") || strings.HasPrefix(res[0].Status, "panic")) {
			return true, res[0].Status
		}
		return false, fmt.Sprint(res, why)
	}
	if ok, s := bad(); ok {
		return ok, s
	}
	if why == "" {
		// the outcome may depend on map iteration order
		c.Reps = 400
		res, why = r.run([]rcase{c}, false, 60*time.Second)
		return bad()
	}
	return false, fmt.Sprint(res, why)
}

// tryLost runs the inputs of paths that were given up.
func (r *replayer) tryLost(jobs []*job) {
	var cases []rcase
	var refs []*job
	for _, j := range jobs {
		if len(j.viols) > 0 {
			continue
		}
		for _, in := range j.lost {
			cases = append(cases, rcase{Harness: j.spec.Fn, Params: j.params, Inputs: in, Reps: 1})
			refs = append(refs, j)
		}
	}
	if len(cases) == 0 {
		return
	}
	res, _ := r.run(cases, false, 60*time.Second)
	for i, x := range res {
		kind, msg, ok := strings.Cut(x.Status, ": ")
		if i >= len(refs) || !ok || kind != "assert" && kind != "panic" || len(refs[i].viols) >= 3 {
			continue
		}
		refs[i].viols = append(refs[i].viols, Violation{Kind: kind, Msg: msg, Inputs: cases[i].Inputs, Where: "a path that could not be encoded to its end"})
	}
}

// validate runs sampled paths natively and compares the outcome with the engine's prediction.
func (r *replayer) validate(jobs []*job, verbose bool) {
	defer r.close()
	var cases []rcase
	type ref struct {
		j *job
		s *Sample
	}
	var refs []ref
	for _, j := range jobs {
		for i := range j.samples {
			cases = append(cases, rcase{Harness: j.spec.Fn, Params: j.params, Inputs: j.samples[i].Inputs, Reps: 1})
			refs = append(refs, ref{j, &j.samples[i]})
		}
	}
	if len(cases) == 0 {
		return
	}
	res, why := r.run(cases, false, 60*time.Second)
	if why != "" {
		fmt.Println("note: validation run:", why)
	}
	shown := 0
	for i := range res {
		if i >= len(refs) {
			break
		}
		same := res[i].Status == "" && len(res[i].Obs) == len(refs[i].s.Obs)
		for k := range res[i].Obs {
			if !same {
				break
			}
			same = res[i].Obs[k] == refs[i].s.Obs[k]
		}
		if same {
			refs[i].j.obsOK++
		} else {
			refs[i].j.obsBad++
			if verbose || shown < 3 {
				shown++
				fmt.Printf("note: engine and real code disagree: %s inputs %s: real %q %v, engine %v\n", refs[i].j.name, fmtInputs(refs[i].s.Inputs), res[i].Status, res[i].Obs, refs[i].s.Obs)
			}
		}
	}
}

func saveReplay(prop string, j *job, v Violation, out string) string {
	d := filepath.Join(verifDir, "replays")
	os.MkdirAll(d, 0o755)
	n := regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(j.name+"-"+v.Kind+"-"+v.Msg, "_")
	if len(n) > 100 {
		n = n[:100]
	}
	p := filepath.Join(d, prop+"-"+n+".json")
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": j.spec.Fn, "params": j.params, "inputs": v.Inputs, "kind": v.Kind, "message": v.Msg,
		"where": v.Where, "trace": v.Trace, "real_code": out, "readable": fmtInputs(v.Inputs), "how": "/verif/check.sh -replay " + p}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func runReplayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal("%v", err)
	}
	var f struct {
		Property, Harness, Kind, Message string
		Params                           map[string]int64
		Inputs                           map[string]uint64
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}
	j := &job{spec: &JobSpec{Fn: f.Harness}, params: f.Params}
	r := newReplayer([]*job{j})
	defer r.close()
	ok, out := r.confirm(j, Violation{Kind: f.Kind, Msg: f.Message, Inputs: f.Inputs})
	fmt.Println("real code:", out)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, p)
		return 1
	}
	return 0
}

// ---- evidence ----

func writeEvidence(prop, tier string, seed int, ps *PropSpec, jobs []*job, vl []map[string]any, unconf int, unconfNotes, missing []string, wall, loadT, expT time.Duration) {
	t := summary(jobs)
	funcs := map[string]bool{}
	var rows []map[string]any
	var samples []any
	reduced := []string{}
	var st SolverStats
	comp, assumed, forks, merges, conc := 0, 0, 0, 0, 0
	for _, j := range jobs {
		if j.stats == nil {
			reduced = append(reduced, j.name+": "+incompleteWhy(j))
			continue
		}
		for f := range j.funcs {
			funcs[f] = true
		}
		st.add(&j.sol)
		comp += j.stats.Completed
		assumed += j.stats.Assumed
		forks += j.stats.Forks
		merges += j.stats.Merges
		conc += j.stats.AssertsConcrete
		if !j.stats.Exhausted || len(j.stats.Aborted) > 0 {
			reduced = append(reduced, j.name+": "+incompleteWhy(j))
		}
		rows = append(rows, map[string]any{"job": j.name, "paths": j.stats.Paths, "completed": j.stats.Completed, "exhausted": j.stats.Exhausted && len(j.stats.Aborted) == 0,
			"instructions": j.stats.Steps, "assertions": j.stats.Asserts, "queries": j.sol.Queries, "solver_s": round3(j.sol.Time.Seconds()), "wall_s": round3(j.wall.Seconds()), "reached": j.stats.Reached, "bounds": j.spec.Bounds})
		if len(j.samples) > 0 && len(samples) < 12 {
			samples = append(samples, map[string]any{"job": j.name, "inputs": fmtInputs(j.samples[len(j.samples)-1].Inputs), "predicted_and_checked_results": j.samples[len(j.samples)-1].Obs})
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath, "spreak"))
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"states":                               t.paths,
		"transitions":                          t.steps,
		"traces_validated_against_impl":        t.obsOK,
		"samples":                              samples,
		"states_meaning":                       "symbolic paths explored; transitions are SSA instructions executed symbolically; traces are sampled paths whose concrete inputs were run through the real compiled code with the same results",
		"engine_disagreements":                 t.obsBad,
		"jobs":                                 rows,
		"functions_encoded":                    fl,
		"paths_completed":                      comp,
		"paths_ended_by_assumption":            assumed,
		"forks":                                forks,
		"merged_regions":                       merges,
		"assertions_evaluated":                 t.asserts,
		"assertions_decided_by_simplification": conc,
		"assertion_queries":                    st.AssertQueries,
		"assertion_queries_unsat":              st.AssertUnsat,
		"solver_queries":                       st.Queries,
		"solver_sat":                           st.Sat,
		"solver_unsat":                         st.Unsat,
		"solver_unknown":                       st.Unknown,
		"solver_s":                             round3(st.Time.Seconds()),
		"branches_decided_by_byte_table":       st.ByTable,
		"branches_decided_by_model":            st.ByModel,
		"branches_decided_by_builtin_sat":      st.BySat,
		"verdicts_confirmed_by_smt_in_batches": st.Confirmed,
		"slowest_query_s":                      round3(st.MaxQuery.Seconds()),
		"reduced_bounds":                       reduced,
		"outside_the_claim":                    ps.Outside,
		"oracle":                               ps.Oracle,
		"candidates_not_reproduced":            unconf,
		"candidates_not_reproduced_list":       unconfNotes,
		"witnesses_missing":                    missing,
		"exhaustive":                           len(reduced) == 0,
		"load_s":                               round3(loadT.Seconds()),
		"explore_s":                            round3((expT - loadT).Seconds()),
		"violation_list":                       vl,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": ps.Level, "coverage": cov, "wall_s": round3(wall.Seconds()), "violations": len(vl),
		"assumptions": append([]string{"go/ssa translation and the symbolic interpreter in /verif/engine are trusted; sampled paths are compared with the compiled code on every run", "z3 and cvc5 are trusted"}, ps.Assumptions...)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
}

func round3(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }
