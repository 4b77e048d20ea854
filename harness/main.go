package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

func main() {
	var (
		worker  = flag.Bool("worker", false, "")
		id      = flag.String("id", "", "")
		tier    = flag.String("tier", "quick", "")
		seed    = flag.Int64("seed", 1, "")
		shard   = flag.Int("shard", 0, "")
		shards  = flag.Int("shards", 8, "")
		scratch = flag.String("scratch", "", "")
		bindir  = flag.String("bindir", "", "")
		verif   = flag.String("verif", "/verif", "")
		slot    = flag.String("slot", "", "")
		out     = flag.String("out", "", "")
		replay  = flag.String("replay", "", "phase/index or replay file")
		child   = flag.String("child", "", "helper subprocess")
		maxv    = flag.Int("maxviol", 3, "")
	)
	flag.Parse()
	if *child != "" {
		childMain(*child, flag.Args())
		return
	}
	chk := checks[*id]
	if chk == nil {
		fmt.Fprintf(os.Stderr, "unknown check %q\n", *id)
		os.Exit(2)
	}
	if *replay != "" {
		os.Exit(doReplay(chk, *replay, *tier, *seed, *scratch, *bindir))
	}
	if *worker {
		w := &Worker{Check: chk, Tier: *tier, Seed: *seed, Shard: *shard, Shards: *shards, Scratch: *scratch, BinDir: *bindir, maxViol: *maxv}
		w.init()
		f, err := os.OpenFile(*slot, os.O_CREATE|os.O_RDWR, 0644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		w.progress = func(phase string, idx int) {
			s := fmt.Sprintf("%-40s %12d\n", phase, idx)
			f.WriteAt([]byte(s), 0)
		}
		if chk.Prepare != nil {
			if err := chk.Prepare(w); err != nil {
				fmt.Fprintf(os.Stderr, "prepare: %v\n", err)
				os.Exit(2)
			}
		}
		w.run()
		w.finish()
		js, _ := json.Marshal(w.Res)
		if err := os.WriteFile(*out, js, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(0)
	}
	os.Exit(supervise(chk, *tier, *seed, *shards, *scratch, *bindir, *verif, *maxv))
}

func doReplay(chk *Check, spec, tier string, seed int64, scratch, bindir string) int {
	var phase string
	var idx int
	if b, err := os.ReadFile(spec); err == nil {
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		phase, idx, seed, tier = v.Phase, v.Index, v.Seed, v.Tier
	} else if i := strings.LastIndex(spec, "/"); i > 0 {
		phase = spec[:i]
		idx, _ = strconv.Atoi(spec[i+1:])
	}
	w := &Worker{Check: chk, Tier: tier, Seed: seed, Shards: 1, Scratch: scratch, BinDir: bindir}
	w.init()
	if chk.Prepare != nil {
		if err := chk.Prepare(w); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for i := range chk.Phases {
		if chk.Phases[i].Name == phase {
			w.runCase(&chk.Phases[i], idx)
		}
	}
	for _, v := range w.Res.Violations {
		fmt.Printf("%s %s/%d %s sig=%s\n%s\n", v.Property, v.Phase, v.Index, v.Kind, v.Sig, v.Detail)
	}
	for _, e := range w.Res.Errors {
		fmt.Println("ERROR", e)
	}
	for _, s := range w.Res.Samples {
		fmt.Println("SAMPLE", s)
	}
	if len(w.Res.Errors) > 0 {
		return 2
	}
	if len(w.Res.Violations) > 0 {
		return 1
	}
	return 0
}

type proc struct {
	cmd       *exec.Cmd
	shard     int
	slot, out string
	errfile   string
	lastSlot  string
	lastMove  time.Time
	lastCPU   float64 // CPU seconds when the slot last moved
	killed    string
	done      chan error
	err       error
	ended     bool
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

func rssMB(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() / (1 << 20)
}

const (
	hangCPU   = 30.0             // CPU seconds in one case
	hangWall  = 90 * time.Second // no progress at all
	memLimit  = 3000             // MB per worker
	stderrMax = 1 << 20
)

func supervise(chk *Check, tier string, seed int64, shards int, scratch, bindir, verif string, maxv int) int {
	start := time.Now()
	self, _ := os.Executable()
	var procs []*proc
	for i := 0; i < shards; i++ {
		p := &proc{shard: i, done: make(chan error, 1)}
		p.slot = filepath.Join(scratch, fmt.Sprintf("slot.%d", i))
		p.out = filepath.Join(scratch, fmt.Sprintf("out.%d", i))
		p.errfile = filepath.Join(scratch, fmt.Sprintf("err.%d", i))
		ws := filepath.Join(scratch, fmt.Sprintf("w%d", i))
		os.MkdirAll(ws, 0755)
		ef, err := os.Create(p.errfile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		p.cmd = exec.Command(self, "-worker", "-id", chk.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(i),
			"-shards", fmt.Sprint(shards), "-scratch", ws, "-bindir", bindir, "-slot", p.slot, "-out", p.out, "-maxviol", fmt.Sprint(maxv))
		p.cmd.Stderr = ef
		p.cmd.Stdout = ef
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		p.cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 history_size=5")
		if err := p.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ef.Close()
		p.lastMove = time.Now()
		go func(p *proc) { p.done <- p.cmd.Wait() }(p)
		procs = append(procs, p)
	}
	for {
		alive := 0
		for _, p := range procs {
			if p.ended {
				continue
			}
			select {
			case p.err = <-p.done:
				p.ended = true
				continue
			default:
			}
			alive++
			pid := p.cmd.Process.Pid
			b, _ := os.ReadFile(p.slot)
			cpu := cpuSeconds(pid)
			if s := string(b); s != p.lastSlot {
				p.lastSlot, p.lastMove, p.lastCPU = s, time.Now(), cpu
				continue
			}
			if p.killed != "" {
				if time.Since(p.lastMove) > 15*time.Second {
					syscall.Kill(-pid, syscall.SIGKILL)
				}
				continue
			}
			switch {
			case rssMB(pid) > memLimit:
				p.killed = "memory"
			case cpu-p.lastCPU > hangCPU*scaleOf(chk):
				p.killed = "hang (CPU)"
			case time.Since(p.lastMove) > time.Duration(float64(hangWall)*scaleOf(chk)) && cpu-p.lastCPU < 2:
				p.killed = "hang (blocked)"
			}
			if p.killed != "" {
				p.lastMove = time.Now()
				syscall.Kill(pid, syscall.SIGQUIT)
			}
		}
		if alive == 0 {
			break
		}
		time.Sleep(30 * time.Millisecond)
	}
	// merge
	tot := Result{Counters: map[string]int{}, Features: map[string]int{}, MaxSeen: map[string]int{}, PhaseCases: map[string]int{}, Notes: map[string]string{}}
	hashes := map[uint64]struct{}{}
	for _, p := range procs {
		syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL) // leftovers of the group
		b, err := os.ReadFile(p.out)
		var r Result
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil || !r.Done || p.err != nil {
			diagnose(chk, p, tier, seed, &tot)
			if err != nil {
				continue
			}
		}
		tot.Evaluations += r.Evaluations
		for k, v := range r.Counters {
			tot.Counters[k] += v
		}
		for k, v := range r.Features {
			tot.Features[k] += v
		}
		for k, v := range r.PhaseCases {
			tot.PhaseCases[k] += v
		}
		for k, v := range r.Notes {
			tot.Notes[k] = v
		}
		for k, v := range r.MaxSeen {
			if v > tot.MaxSeen[k] {
				tot.MaxSeen[k] = v
			}
		}
		for _, h := range r.Hashes {
			hashes[h] = struct{}{}
		}
		tot.Samples = append(tot.Samples, r.Samples...)
		tot.Violations = append(tot.Violations, r.Violations...)
		tot.Errors = append(tot.Errors, r.Errors...)
	}
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	// known findings
	var kf struct {
		Findings []known `json:"findings"`
	}
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
			return 2
		}
	}
	var real []Violation
	printed := map[string]bool{}
	for _, v := range tot.Violations {
		listed := false
		for _, k := range kf.Findings {
			if k.Property == v.Property && k.Sig == v.Sig {
				listed = true
				if !printed[k.Sig] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
					printed[k.Sig] = true
				}
			}
		}
		if !listed {
			real = append(real, v)
		}
	}
	sort.SliceStable(real, func(i, j int) bool {
		if real[i].Phase != real[j].Phase {
			return phaseOrder(chk, real[i].Phase) < phaseOrder(chk, real[j].Phase)
		}
		return real[i].Index < real[j].Index
	})
	wall := time.Since(start).Seconds()
	writeEvidence(chk, tier, seed, verif, bindir, &tot, len(hashes), len(real), wall)
	if len(real) > 0 {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0755)
		v := real[0]
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-seed%d.json", chk.ID, sanitize(v.Phase), v.Index, v.Seed))
		js, _ := json.MarshalIndent(v, "", "  ")
		os.WriteFile(path, js, 0644)
		det := v.Detail
		if len(det) > 4000 {
			det = det[:4000] + "..."
		}
		fmt.Printf("%d violation(s); first: %s/%d %s sig=%s\n%s\n", len(real), v.Phase, v.Index, v.Kind, v.Sig, det)
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, path)
		return 1
	}
	if len(tot.Errors) > 0 {
		for _, e := range tot.Errors {
			fmt.Println("ERROR", e)
		}
		return 2
	}
	// a run that observed nothing is not a pass
	want := 0
	for i := range chk.Phases {
		w := Worker{Tier: tier}
		want += w.cases(&chk.Phases[i])
	}
	if tot.Evaluations < want && os.Getenv("VERIF_STRIDE") == "" || len(hashes) < 2 {
		fmt.Printf("ERROR only %d of %d cases ran, %d distinct\n", tot.Evaluations, want, len(hashes))
		return 2
	}
	fmt.Printf("%s %s seed=%d: held on %d cases (%d distinct) in %.1fs\n", chk.ID, tier, seed, tot.Evaluations, len(hashes), wall)
	return 0
}

func scaleOf(chk *Check) float64 {
	switch chk.ID {
	case "C16", "C23":
		return 4 // race detector
	}
	return 1
}

func phaseOrder(chk *Check, name string) int {
	for i := range chk.Phases {
		if chk.Phases[i].Name == name {
			return i
		}
	}
	return -1
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

var repoFrame = regexp.MustCompile(`(?m)^` + regexp.QuoteMeta(repoPath) + `[./(]`)
var repoRaceFrame = regexp.MustCompile(`(?m)^\s+` + regexp.QuoteMeta(repoPath) + `[./(]`)

// diagnose decides what the death of a worker means.
func diagnose(chk *Check, p *proc, tier string, seed int64, tot *Result) {
	f := strings.Fields(p.lastSlot)
	if b, err := os.ReadFile(p.slot); err == nil {
		f = strings.Fields(string(b))
	}
	v := Violation{Property: chk.ID, Seed: seed, Tier: tier}
	if len(f) == 2 {
		v.Phase = f[0]
		v.Index, _ = strconv.Atoi(f[1])
	}
	b, _ := os.ReadFile(p.errfile)
	if len(b) > stderrMax {
		b = b[:stderrMax]
	}
	s := string(b)
	bad := ""
	switch {
	case strings.Contains(s, "WARNING: DATA RACE"):
		if repoRaceFrame.MatchString(s) {
			bad = "data-race"
		}
	case p.killed != "":
		if repoFrame.MatchString(s) && p.killed != "" {
			bad = p.killed
		}
	case strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:"):
		// the goroutine that died is printed first
		g := s
		if i := strings.Index(g, "\ngoroutine "); i >= 0 {
			g = g[i+1:]
			if j := strings.Index(g, "\n\n"); j >= 0 {
				g = g[:j]
			}
		}
		if blameRepo(g) || strings.Contains(g, repoPath) && strings.Contains(s, "fatal error:") {
			bad = "crash"
		}
	}
	if bad != "" {
		if len(s) > 20000 {
			s = s[:20000]
		}
		v.Kind = bad
		v.Sig = bad + ":" + v.Phase + "/" + strconv.Itoa(v.Index)
		v.Detail = strings.ToValidUTF8(s, "\uFFFD")
		tot.Violations = append(tot.Violations, v)
		return
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	tot.Errors = append(tot.Errors, fmt.Sprintf("worker %d ended at %v (%v, %s): %s", p.shard, f, p.err, p.killed, s))
}

func writeEvidence(chk *Check, tier string, seed int64, verif, bindir string, tot *Result, distinct, viol int, wall float64) {
	cov := map[string]interface{}{
		"evaluations":         tot.Evaluations,
		"distinct_nontrivial": distinct,
		"rule":                chk.Rule,
		"samples":             tot.Samples,
		"phase_cases":         tot.PhaseCases,
		"monitor_counters":    tot.Counters,
		"features_seen":       tot.Features,
		"maxima":              tot.MaxSeen,
	}
	if tot.Samples == nil {
		cov["samples"] = []string{}
	}
	if len(tot.Notes) > 0 {
		cov["notes"] = tot.Notes
	}
	if c := statementCoverage(); c != nil {
		cov["repo_statement_coverage_percent"] = c
	}
	ev := map[string]interface{}{
		"property": chk.ID, "tier": tier, "seed": seed, "level": chk.Level, "coverage": cov,
		"assumptions": chk.Assumptions, "wall_s": wall, "violations": viol,
	}
	if chk.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", chk.ID+".json"), append(js, '\n'), 0644)
}

// statementCoverage reads what the instrumented workers recorded.
func statementCoverage() map[string]string {
	dir := os.Getenv("GOCOVERDIR")
	if dir == "" {
		return nil
	}
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).Output()
	if err != nil {
		return nil
	}
	m := map[string]string{}
	for _, l := range bytes.Split(out, []byte("\n")) {
		f := strings.Fields(string(l))
		if len(f) == 0 || !strings.HasPrefix(f[0], repoPath) {
			continue
		}
		for _, x := range f {
			if strings.HasSuffix(x, "%") {
				m[strings.TrimPrefix(strings.TrimPrefix(f[0], repoPath), "/")] = x
			}
		}
	}
	if v, ok := m[""]; ok {
		m["(root)"] = v
		delete(m, "")
	}
	return m
}

var _ = runtime.NumCPU
