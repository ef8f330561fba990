// drive rebuilds the exploration binaries from the current tree of the
// repository, runs them under supervision and reports.
package main

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifmc/core"
	"verifmc/gen"
	"verifmc/plan"
)

var (
	repo   = "/repo"
	verif  string
	tmp    string
	prop   string
	tier   string
	budget time.Duration
)

func main() {
	replay := flag.String("replay", "", "failure to replay")
	keep := flag.Bool("keep", false, "keep the scratch directory")
	verbose := flag.Bool("v", false, "verbose")
	flag.StringVar(&prop, "prop", "", "property")
	flag.StringVar(&tier, "tier", "", "quick or thorough")
	flag.Parse()
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if r := os.Getenv("REPO"); r != "" {
		repo = r
	}
	wd, _ := os.Getwd()
	verif = filepath.Dir(wd) // runs in /verif/mc
	var err error
	tmp, err = os.MkdirTemp("", "verifmc")
	if err != nil {
		die("%v", err)
	}
	if !*keep {
		defer os.RemoveAll(tmp)
	}
	t0 := time.Now()
	p, ok := plan.Of[prop]
	if !ok {
		die("unknown property %q", prop)
	}
	budget = 150 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if b := os.Getenv("VERIF_BUDGET"); b != "" {
		if d, err := time.ParseDuration(b); err == nil {
			budget = d
		}
	}
	if *replay != "" {
		code := doReplay(*replay)
		if !*keep {
			os.RemoveAll(tmp)
		}
		os.Exit(code)
	}
	// build all variants
	bins := map[string]string{}
	var notes []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	var buildErr error
	for _, v := range p.Variants {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b, n, err := build(v)
			mu.Lock()
			defer mu.Unlock()
			notes = append(notes, n...)
			if err != nil {
				buildErr = err
				return
			}
			bins[v] = b
		}()
	}
	wg.Wait()
	if buildErr != nil {
		die("cannot build: %v", buildErr)
	}
	buildS := time.Since(t0).Seconds()
	end := t0.Add(budget)
	var all []core.PartStats
	var samples []any
	var findings []core.Finding
	var fail *core.Failure
	var failVariant string
	for i, v := range p.Variants {
		if strings.HasPrefix(v, "seg") {
			if why := calibrate(bins[v], v); why != "" {
				notes = append(notes, "variant "+v+" dropped, the code does not work with another segment capacity: "+why)
				continue
			}
		}
		left := time.Until(end) / time.Duration(len(p.Variants)-i)
		if left < 10*time.Second {
			left = 10 * time.Second
		}
		res, err := runVariant(bins[v], v, left)
		if err != nil {
			die("%s: %v", v, err)
		}
		for _, q := range res.Parts {
			if *verbose {
				fmt.Printf("# %-60s %9d states %10d transitions %7d traces depth %d exhaustive=%v %.1fs %s\n", q.Name, q.States, q.Transitions, q.Traces, q.Depth, q.Exhaustive, q.WallS, q.Note)
			}
			all = append(all, q)
		}
		samples = append(samples, res.Samples...)
		for _, f := range res.Findings {
			findings = append(findings, f)
		}
		if res.Failure != nil {
			fail, failVariant = res.Failure, v
			break
		}
	}
	known := knownFindings()
	var lines []string
	violations := 0
	seen := map[string]bool{}
	for _, f := range findings {
		if seen[f.ID] {
			continue
		}
		seen[f.ID] = true
		if txt, ok := known[prop+" "+f.ID]; ok {
			lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", prop, f.ID, txt))
		} else if fail == nil {
			fail = &core.Failure{Prop: prop, Part: f.ID, Kind: "finding", What: f.What, Tier: tier}
			failVariant = p.Variants[0]
		}
	}
	rp := ""
	if fail != nil {
		violations = 1
		fail.Prop = prop
		rp = filepath.Join(verif, "evidence", prop+".replay.json")
		if os.Getenv("VERIF_NOEVIDENCE") != "" {
			rp = filepath.Join(os.TempDir(), prop+".replay.json")
		}
		os.MkdirAll(filepath.Dir(rp), 0o755)
		core.WriteJSON(rp, struct {
			*core.Failure
			Variant string `json:"variant"`
			Cmd     string `json:"replay_cmd"`
		}{fail, failVariant, fmt.Sprintf("cd /verif && ./check.sh %s -replay %s", prop, rp)})
	}
	evidence(all, samples, findings, lines, notes, violations, buildS, time.Since(t0).Seconds())
	for _, l := range lines {
		fmt.Println(l)
	}
	var st, tr, tc int64
	exh := true
	for _, q := range all {
		st += q.States
		tr += q.Transitions
		tc += q.Traces
		exh = exh && q.Exhaustive
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d traces validated, exhaustive=%v, %.1fs (build %.1fs)\n", prop, tier, st, tr, tc, exh, time.Since(t0).Seconds(), buildS)
	if fail != nil {
		fmt.Println(indent(fail.Part + ": " + fail.What))
		for i, s := range fail.Steps {
			if i > 60 {
				fmt.Println("    ...")
				break
			}
			fmt.Printf("    %d: %s\n", i, s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		if !*keep {
			os.RemoveAll(tmp)
		}
		os.Exit(1)
	}
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func die(f string, a ...any) {
	fmt.Printf("ERROR "+f+"\n", a...)
	if tmp != "" {
		os.RemoveAll(tmp)
	}
	os.Exit(2)
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
}

// build compiles the explorer against the current tree.
func build(v string) (bin string, notes []string, err error) {
	dir := filepath.Join(tmp, v)
	os.MkdirAll(dir, 0o755)
	mod, err := os.ReadFile(filepath.Join(verif, "mc", "go.mod"))
	if err != nil {
		return "", nil, err
	}
	abs, _ := filepath.Abs(repo)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte(strings.ReplaceAll(string(mod), "=> /repo", "=> "+abs)), 0o644)
	ov, notes, coarse, oerr := gen.Overlay(abs, dir, v, false)
	bin = filepath.Join(dir, "mc")
	args := []string{"build", "-modfile", filepath.Join(dir, "go.mod"), "-o", bin}
	if v == "race" {
		args = append(args, "-race")
	}
	pkg := "./cmd/mc"
	if v == "sched" || v == "race" {
		pkg = "./cmd/mcconc"
	}
	try := func(extra ...string) (string, error) {
		cmd := exec.Command("go", append(append(append([]string{}, args...), extra...), pkg)...)
		cmd.Dir = filepath.Join(verif, "mc")
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		return string(out), err
	}
	if oerr == nil {
		out, err := try("-overlay", ov)
		if err != nil && !coarse && (v == "sched" || v == "race" || v == "work") {
			if o, n, c, e := gen.Overlay(abs, dir, v, true); e == nil {
				if _, e := try("-overlay", o); e == nil {
					notes, coarse, err = n, c, nil
				}
			}
		}
		if err == nil {
			if coarse && v != "work" {
				os.Setenv("VERIF_COARSE", "1")
			}
			return bin, notes, nil
		}
		oerr = fmt.Errorf("%v\n%s", err, out)
	}
	if v == "sched" || v == "race" {
		return "", notes, oerr
	}
	// without the overlay: less control, the same oracles
	out, err := try()
	if err != nil {
		return "", notes, fmt.Errorf("%v\n%s", err, out)
	}
	return bin, append(notes, "variant "+v+": overlay did not build, explored without it"), nil
}

// calibrate returns why a variant is not fit for exploration.
func calibrate(bin, v string) string {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-calibrate", "-variant", v)
	cmd.WaitDelay = time.Second
	out, err := cmd.CombinedOutput()
	if err == nil {
		return ""
	}
	why := fmt.Sprintf("%v %s", err, out)
	return why[:min(len(why), 300)]
}

// child supervises one process.
type childRes struct {
	code   int
	hung   bool
	oom    bool
	out    string
	signal string
}

func watch(cmd *exec.Cmd, slots string, rssLimit int64, stall time.Duration, hard time.Duration) childRes {
	var outb strings.Builder
	lw := &limited{b: &outb, n: 64 << 10}
	cmd.Stdout, cmd.Stderr = lw, lw
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 2 * time.Second
	if err := cmd.Start(); err != nil {
		return childRes{code: -1, out: err.Error()}
	}
	done := make(chan struct{})
	r := childRes{}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		last := map[int]uint32{}
		since := map[int]time.Time{}
		start := time.Now()
		t := time.NewTicker(250 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
			}
			if rss(cmd.Process.Pid) > rssLimit {
				r.oom = true
				cmd.Process.Kill()
				return
			}
			if hard > 0 && time.Since(start) > hard {
				r.hung = true
				cmd.Process.Kill()
				return
			}
			if slots == "" {
				continue
			}
			b, err := os.ReadFile(slots)
			if err != nil {
				continue
			}
			for i := 0; (i+1)*core.SlotSize <= len(b); i++ {
				s := b[i*core.SlotSize:]
				seq := binary.LittleEndian.Uint32(s)
				kind := binary.LittleEndian.Uint32(s[8:])
				if seq != last[i] || kind == 0 {
					last[i] = seq
					since[i] = time.Now()
				} else if time.Since(since[i]) > stall {
					r.hung = true
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	err := cmd.Wait()
	close(done)
	wg.Wait()
	r.out = outb.String()
	if err != nil {
		r.code = cmd.ProcessState.ExitCode()
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.signal = ws.Signal().String()
		}
	}
	return r
}

type limited struct {
	mu sync.Mutex
	b  *strings.Builder
	n  int
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < l.n {
		l.b.Write(p[:min(len(p), l.n-l.b.Len())])
	}
	return len(p), nil
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func runVariant(bin, v string, left time.Duration) (*core.Result, error) {
	shards := 1
	workers := runtime.NumCPU()
	if v == "sched" || v == "race" || v == "work" { // work: the count is global
		shards, workers = min(runtime.NumCPU(), 16), 1
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var merged core.Result
	var firstErr error
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for sh := 0; sh < shards; sh++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res, err := runShard(ctx, bin, v, sh, shards, workers, left)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if firstErr == nil && ctx.Err() == nil {
					firstErr = err
				}
				return
			}
			merge(&merged, res)
			if res.Failure != nil {
				cancel()
			}
		}()
	}
	wg.Wait()
	if merged.Failure != nil {
		return &merged, nil
	}
	if firstErr != nil {
		return nil, firstErr
	}
	return &merged, nil
}

func merge(m *core.Result, r *core.Result) {
	for _, p := range r.Parts {
		found := false
		for i := range m.Parts {
			q := &m.Parts[i]
			if q.Name == p.Name {
				q.States += p.States
				q.Transitions += p.Transitions
				q.Traces += p.Traces
				q.Depth = max(q.Depth, p.Depth)
				q.Exhaustive = q.Exhaustive && p.Exhaustive
				q.WallS = max(q.WallS, p.WallS)
				if q.Note == "" {
					q.Note = p.Note
				}
				found = true
			}
		}
		if !found {
			m.Parts = append(m.Parts, p)
		}
	}
	if len(m.Samples) < 40 {
		m.Samples = append(m.Samples, r.Samples[:min(len(r.Samples), 6)]...)
		if len(m.Parts) == len(r.Parts) && len(m.Samples) <= 6 {
			m.Samples = r.Samples
		}
	}
	m.Findings = append(m.Findings, r.Findings...)
	if m.Failure == nil {
		m.Failure = r.Failure
	}
}

const (
	mainRSS  = 14 << 30
	shardRSS = 3 << 30
	oneRSS   = 5 << 30
)

func runShard(ctx context.Context, bin, v string, sh, shards, workers int, left time.Duration) (*core.Result, error) {
	base := filepath.Join(filepath.Dir(bin), fmt.Sprintf("s%d", sh))
	var last childRes
	for attempt := 0; attempt < 2; attempt++ {
		outf, slots := base+".out.json", base+".slots"
		os.Remove(outf)
		os.Remove(slots)
		args := []string{"-prop", prop, "-tier", tier, "-variant", v, "-out", outf, "-slots", slots, "-workers", strconv.Itoa(workers), "-budget", left.String()}
		if shards > 1 {
			args = append(args, "-shard", fmt.Sprintf("%d/%d", sh, shards))
		}
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+base+".race", "GOTRACEBACK=single")
		limit := int64(mainRSS)
		if shards > 1 {
			limit = shardRSS
		}
		last = watch(cmd, slots, limit, 60*time.Second, 0)
		if ctx.Err() != nil {
			return nil, ctx.Err()
		}
		if last.code == 0 || last.code == 1 {
			if last.signal == "" && !last.hung && !last.oom {
				b, err := os.ReadFile(outf)
				if err == nil {
					var r core.Result
					if err := json.Unmarshal(b, &r); err != nil {
						return nil, err
					}
					return &r, nil
				}
			}
		}
		// the process died: find the execution that killed it
		if f := isolate(ctx, bin, v, slots, last); f != nil {
			return &core.Result{Failure: f}, nil
		}
		workers = max(1, workers/4)
	}
	return nil, fmt.Errorf("the explorer ended abnormally (exit %d %s hung=%v oom=%v) and no execution reproduces it\n%s", last.code, last.signal, last.hung, last.oom, last.out)
}

// isolate re-executes, one by one in processes of their own, the executions that were under way.
func isolate(ctx context.Context, bin, v, slots string, dead childRes) *core.Failure {
	b, err := os.ReadFile(slots)
	if err != nil {
		return nil
	}
	for i := 0; (i+1)*core.SlotSize <= len(b); i++ {
		s := b[i*core.SlotSize:]
		kind := binary.LittleEndian.Uint32(s[8:])
		if kind == 0 {
			continue
		}
		f := &core.Failure{Prop: prop, Tier: tier, PartIdx: int(binary.LittleEndian.Uint32(s[4:])),
			Root: int(binary.LittleEndian.Uint32(s[12:])), Case: int64(binary.LittleEndian.Uint64(s[16:]))}
		f.Kind = map[uint32]string{1: "history", 2: "input", 3: "history", 4: "schedule"}[kind]
		n := int(binary.LittleEndian.Uint32(s[24:]))
		for k := 0; k < n; k++ {
			f.Path = append(f.Path, binary.LittleEndian.Uint32(s[28+4*k:]))
		}
		rf := slots + ".replay.json"
		core.WriteJSON(rf, f)
		cmd := exec.CommandContext(ctx, bin, "-prop", prop, "-tier", tier, "-variant", v, "-replay", rf)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
		r := watch(cmd, "", oneRSS, 0, 75*time.Second)
		what := ""
		switch {
		case r.hung:
			what = "the execution does not end (75 s)"
		case r.oom:
			what = "the execution needs unbounded memory"
		case r.code == 0 && r.signal == "":
			continue
		case r.code == 1:
			what = r.out
		default:
			what = "the execution kills the process: " + firstLines(r.out, 12)
		}
		for _, l := range strings.Split(r.out, "\n") {
			if strings.HasPrefix(l, "  ") {
				f.Steps = append(f.Steps, strings.TrimSpace(l))
			}
		}
		f.What = what
		f.Repro = "in a process of its own"
		return f
	}
	return nil
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f struct {
		Variant string `json:"variant"`
		Tier    string `json:"tier"`
	}
	json.Unmarshal(b, &f)
	if f.Variant == "" {
		f.Variant = "plain"
	}
	if f.Tier == "" {
		f.Tier = tier
	}
	bin, _, err := build(f.Variant)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	cmd := exec.Command(bin, "-prop", prop, "-tier", f.Tier, "-variant", f.Variant, "-replay", path)
	r := watch(cmd, "", oneRSS, 0, 75*time.Second)
	fmt.Print(r.out)
	if r.code != 0 || r.hung || r.oom || r.signal != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	return 0
}

// knownFindings reads the list of known findings.
func knownFindings() map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		// finding: property=P19 id=ID text
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " ", 3)
		if len(fs) == 3 && strings.HasPrefix(fs[1], "id=") {
			m[fs[0]+" "+strings.TrimPrefix(fs[1], "id=")] = fs[2]
		}
	}
	return m
}

func evidence(parts []core.PartStats, samples []any, findings []core.Finding, lines, notes []string, violations int, buildS, wall float64) {
	if os.Getenv("VERIF_NOEVIDENCE") != "" {
		return
	}
	var st, tr, tc int64
	exh := len(parts) > 0
	for _, q := range parts {
		st += q.States
		tr += q.Transitions
		tc += q.Traces
		exh = exh && q.Exhaustive
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	if samples == nil {
		samples = []any{}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": st, "transitions": tr, "traces_validated_against_impl": tc, "samples": samples, "exhaustive": exh,
			"explanation": "states: distinct implementation+model states (histories), distinct inputs (inputs) or distinct schedules (schedules) visited. transitions: operations, algorithm calls or scheduling steps executed on the real code in visiting them. traces_validated_against_impl: complete executions of the real code compared step by step with the reference model in addition to the search.",
			"parts":       parts, "known_findings": findings, "notes": notes, "build_s": buildS,
		},
		"assumptions": plan.Assumptions, "wall_s": wall, "violations": violations,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	core.WriteJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
}
