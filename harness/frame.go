package main

// The case framework: a check is a list of phases, a phase is a numbered list
// of cases, and every random choice of a case comes from a generator that is
// seeded with (VERIF_SEED, property, phase, index). A case can therefore be
// replayed on its own, and the list of cases does not depend on timing.

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Phase struct {
	Name     string
	Quick    int  // number of cases, quick tier
	Thorough int  // number of cases, thorough tier
	Serial   bool // all cases of the phase run in one worker
	Run      func(*Case)
}

type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Phases      []Phase
	Prepare     func(w *Worker) error // once per worker
	Exhaustive  bool
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type Violation struct {
	Property string `json:"property"`
	Phase    string `json:"phase"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Kind     string `json:"kind"`
	Sig      string `json:"sig"` // identifies the failing input in known-findings.json
	Detail   string `json:"detail"`
}

type Result struct {
	Evaluations int               `json:"evaluations"`
	Counters    map[string]int    `json:"counters"`
	Features    map[string]int    `json:"features"`
	Hashes      []uint64          `json:"hashes"`
	Samples     []string          `json:"samples"`
	Violations  []Violation       `json:"violations"`
	Errors      []string          `json:"errors"`
	MaxSeen     map[string]int    `json:"max"`
	Done        bool              `json:"done"`
	PhaseCases  map[string]int    `json:"phase_cases"`
	Notes       map[string]string `json:"notes"`
}

type Worker struct {
	Check    *Check
	Tier     string
	Seed     int64
	Shard    int
	Shards   int
	Scratch  string
	BinDir   string
	Res      Result
	hashes   map[uint64]struct{}
	mu       sync.Mutex
	idTables map[string]*idTable
	maxViol  int
	progress func(phase string, idx int)
}

// Case is one numbered case. Its methods may be used from several goroutines,
// except R.
type Case struct {
	W      *Worker
	R      *rand.Rand
	Phase  string
	Index  int
	sig    string
	failed bool
	sub    int
}

func seedOf(parts ...interface{}) (uint64, uint64) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	a := h.Sum64()
	h.Write([]byte("more"))
	return a, h.Sum64()
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func newRand(parts ...interface{}) *rand.Rand {
	a, b := seedOf(parts...)
	return rand.New(rand.NewPCG(a, b))
}

// Input records the text that identifies the case: a distinct, non-trivial
// text counts towards distinct_nontrivial.
func (c *Case) Input(parts ...string) {
	h := fnv.New64a()
	for _, s := range parts {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	v := h.Sum64()
	c.W.mu.Lock()
	c.W.hashes[v] = struct{}{}
	c.sig = fmt.Sprintf("%016x", v)
	c.W.mu.Unlock()
}

func (c *Case) Count(name string) { c.CountN(name, 1) }

func (c *Case) CountN(name string, n int) {
	c.W.mu.Lock()
	c.W.Res.Counters[name] += n
	c.W.mu.Unlock()
}

func (c *Case) Feature(name string) {
	c.W.mu.Lock()
	c.W.Res.Features[name]++
	c.W.mu.Unlock()
}

func (c *Case) Max(name string, n int) {
	c.W.mu.Lock()
	if n > c.W.Res.MaxSeen[name] {
		c.W.Res.MaxSeen[name] = n
	}
	c.W.mu.Unlock()
}

func (c *Case) Sample(s string) {
	c.W.mu.Lock()
	defer c.W.mu.Unlock()
	if len(c.W.Res.Samples) < 2 {
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.W.Res.Samples = append(c.W.Res.Samples, strings.ToValidUTF8(s, "\uFFFD"))
	}
}

// Fail reports a violation of the running property.
func (c *Case) Fail(kind, format string, args ...interface{}) {
	d := fmt.Sprintf(format, args...)
	if len(d) > 60000 {
		d = d[:60000] + "...(truncated)"
	}
	c.W.mu.Lock()
	defer c.W.mu.Unlock()
	c.failed = true
	if len(c.W.Res.Violations) < 50 {
		c.W.Res.Violations = append(c.W.Res.Violations, Violation{
			Property: c.W.Check.ID, Phase: c.Phase, Index: c.Index, Seed: c.W.Seed, Tier: c.W.Tier,
			Kind: kind, Sig: kind + ":" + c.sig, Detail: strings.ToValidUTF8(d, "\uFFFD"),
		})
	}
}

// Error reports that the harness itself could not decide (exit 2).
func (c *Case) Error(format string, args ...interface{}) {
	c.W.mu.Lock()
	defer c.W.mu.Unlock()
	c.W.Res.Errors = append(c.W.Res.Errors, fmt.Sprintf("%s/%d: ", c.Phase, c.Index)+fmt.Sprintf(format, args...))
}

const repoPath = "github.com/schemalex/schemalex"

// blameRepo says whether the innermost frame that is neither runtime nor
// standard library belongs to the repository.
func blameRepo(stack string) bool {
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "\t") || strings.HasPrefix(line, "goroutine ") {
			continue
		}
		if strings.HasPrefix(line, "created by ") {
			line = strings.TrimPrefix(line, "created by ")
		}
		if strings.HasPrefix(line, repoPath) {
			return true
		}
		if strings.HasPrefix(line, "main.") || strings.HasPrefix(line, "verif/harness") {
			return false
		}
	}
	return false
}

func (w *Worker) runCase(ph *Phase, idx int) {
	c := &Case{W: w, Phase: ph.Name, Index: idx, R: newRand(w.Seed, w.Check.ID, ph.Name, idx)}
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, false)]
			st := string(buf)
			// drop the frames of this handler and of panic itself
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
				if j := strings.Index(st, "\n"); j >= 0 {
					st = st[j+1:]
				}
			}
			if blameRepo(st) {
				c.Fail("panic", "panic in the code under test: %v\n%s", e, st)
			} else {
				c.Error("panic in the harness: %v\n%s", e, st)
			}
		}
	}()
	w.Res.Evaluations++
	w.Res.PhaseCases[ph.Name]++
	ph.Run(c)
}

func (w *Worker) init() {
	w.Res.Counters = map[string]int{}
	w.Res.Features = map[string]int{}
	w.Res.MaxSeen = map[string]int{}
	w.Res.PhaseCases = map[string]int{}
	w.Res.Notes = map[string]string{}
	w.hashes = map[uint64]struct{}{}
	if w.maxViol == 0 {
		w.maxViol = 3
	}
}

func (w *Worker) cases(ph *Phase) int {
	if w.Tier == "thorough" {
		return ph.Thorough
	}
	return ph.Quick
}

func (w *Worker) run() {
	// VERIF_STRIDE=k runs a k-th of the cases (tools/mutate.py)
	stride, _ := strconv.Atoi(os.Getenv("VERIF_STRIDE"))
	for i := range w.Check.Phases {
		ph := &w.Check.Phases[i]
		n := w.cases(ph)
		for idx := 0; idx < n; idx++ {
			if ph.Serial {
				if int(hashString(ph.Name)%uint64(w.Shards)) != w.Shard {
					break
				}
			} else if idx%w.Shards != w.Shard {
				continue
			}
			if stride > 1 && n > 1 && (idx/w.Shards)%stride != (w.Shard*7)%min(stride, (n+w.Shards-1)/w.Shards) {
				continue
			}
			if w.progress != nil {
				w.progress(ph.Name, idx)
			}
			w.runCase(ph, idx)
			if len(w.Res.Violations) >= w.maxViol || len(w.Res.Errors) > 0 {
				return
			}
		}
	}
}

func (w *Worker) finish() {
	for h := range w.hashes {
		w.Res.Hashes = append(w.Res.Hashes, h)
	}
	sort.Slice(w.Res.Hashes, func(i, j int) bool { return w.Res.Hashes[i] < w.Res.Hashes[j] })
	w.Res.Done = true
}

// small helpers on the generator

func chance(r *rand.Rand, pct int) bool { return r.IntN(100) < pct }

func pick[T any](r *rand.Rand, l []T) T { return l[r.IntN(len(l))] }

func shuffled[T any](r *rand.Rand, l []T) []T {
	out := append([]T(nil), l...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}
