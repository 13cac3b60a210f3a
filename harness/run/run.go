// Package run executes the checks: it spreads the cases of a check over
// supervised child processes, watches those for crashes, hangs and runaway
// memory, and writes verdicts and evidence.
package run

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Check is the machinery for one property
type Check struct {
	ID       string
	Rule     string   // how cases are made and what makes one non-trivial
	Assume   []string // assumptions
	Quick    int      // number of cases
	Thorough int
	Run      func(t *T)            // one case
	Shards   int                   // 0: one per core
	CPU      int                   // seconds of CPU time a case may take, 0 = default
	Crash    string                // what a crash means
	Finish   func(s *Stats) string // looks at the merged stats; "" or why the run saw too little
}

// Violation is a violation of a property
type Violation struct {
	Case   int    `json:"case"`
	Msg    string `json:"message"`
	Detail string `json:"detail"`
}

// Stats is what a run observed
type Stats struct {
	Cases     int                 `json:"cases"`
	Evals     int                 `json:"evals"`
	Counts    map[string]int      `json:"counts"`
	Max       map[string]int      `json:"max"`
	Distinct  map[string][]uint64 `json:"distinct"`
	Samples   []string            `json:"samples"`
	Viol      []Violation         `json:"violations"`
	Known     map[string]string   `json:"known"`
	Notes     []string            `json:"notes"`
	Truncated bool                `json:"truncated"`
	Done      bool                `json:"done"`
}

// T is a running case
type T struct {
	R       *rand.Rand
	Case    int
	Seed    int64
	Tier    string
	Verbose bool
	mu      sync.Mutex
	s       *Stats
	sets    map[string]map[uint64]bool
	failed  bool
	check   *Check
}

// Seed64 mixes
func Seed64(parts ...interface{}) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p, "/")
	}
	return int64(h.Sum64() >> 1)
}

// HashOf hashes a description
func HashOf(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p, "\x00")
	}
	return h.Sum64()
}

// Thorough tells if this is the thorough tier
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Eval counts evaluations: requests executed, values compared, ...
func (t *T) Eval(n int) { t.mu.Lock(); t.s.Evals += n; t.mu.Unlock() }

// Count counts observed events
func (t *T) Count(k string, n int) {
	if n == 0 {
		return
	}
	t.mu.Lock()
	t.s.Counts[k] += n
	t.mu.Unlock()
}

// Max records a maximum
func (t *T) Max(k string, n int) {
	t.mu.Lock()
	if n > t.s.Max[k] {
		t.s.Max[k] = n
	}
	t.mu.Unlock()
}

// Distinct notes a member of a set of observed things
func (t *T) Distinct(k string, h uint64) {
	t.mu.Lock()
	m := t.sets[k]
	if m == nil {
		m = map[uint64]bool{}
		t.sets[k] = m
	}
	if len(m) < 300000 {
		m[h] = true
	}
	t.mu.Unlock()
}

// NonTrivial notes a distinct non-trivial case
func (t *T) NonTrivial(parts ...interface{}) { t.Distinct("nontrivial", HashOf(parts...)) }

// Sample keeps an example
func (t *T) Sample(format string, a ...interface{}) {
	t.mu.Lock()
	if len(t.s.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		t.s.Samples = append(t.s.Samples, strings.ToValidUTF8(s, "\ufffd"))
	}
	t.mu.Unlock()
}

// WantSample tells whether samples are still wanted
func (t *T) WantSample() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.s.Samples) < 3
}

// Failed tells if this case has already failed
func (t *T) Failed() bool { t.mu.Lock(); defer t.mu.Unlock(); return t.failed }

// Fail reports a violation
func (t *T) Fail(msg, detail string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.failed = true
	if len(t.s.Viol) < 5 {
		if len(detail) > 200000 {
			detail = detail[:200000] + "..."
		}
		t.s.Viol = append(t.s.Viol, Violation{t.Case, msg, detail})
	}
	if t.Verbose {
		fmt.Printf("VIOLATION in case %d: %s\n%s\n", t.Case, msg, detail)
	}
}

// Failf reports a violation
func (t *T) Failf(detail, format string, a ...interface{}) { t.Fail(fmt.Sprintf(format, a...), detail) }

// Known reports that a listed finding was seen
func (t *T) Known(id, what string) {
	t.mu.Lock()
	t.s.Known[id] = what
	t.mu.Unlock()
}

func newStats() *Stats {
	return &Stats{Counts: map[string]int{}, Max: map[string]int{}, Distinct: map[string][]uint64{}, Known: map[string]string{}}
}

// RunCase runs one case of a check in this process
func runCase(c *Check, tier string, seed int64, idx int, s *Stats, sets map[string]map[uint64]bool, verbose bool) {
	t := &T{R: rand.New(rand.NewSource(Seed64(seed, c.ID, idx))), Case: idx, Seed: seed, Tier: tier, s: s, sets: sets, check: c, Verbose: verbose}
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			t.Fail(fmt.Sprintf("panic: %v", p), st)
		}
	}()
	s.Cases++
	c.Run(t)
}

func flush(path string, s *Stats, sets map[string]map[uint64]bool) {
	for k, m := range sets {
		l := make([]uint64, 0, len(m))
		for h := range m {
			l = append(l, h)
		}
		s.Distinct[k] = l
	}
	b, err := json.Marshal(s)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot encode stats:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(path+".tmp", b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	os.Rename(path+".tmp", path)
}

// child runs the cases of one shard
func child(c *Check, tier string, seed int64, shard, shards, total, from int, out string, deadline time.Time) {
	s := newStats()
	sets := map[string]map[uint64]bool{}
	prog, err := os.OpenFile(out+".progress", os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
	last := time.Now()
	flush(out, s, sets)
	for i := shard; i < total; i += shards {
		if i < from {
			continue
		}
		if time.Now().After(deadline) {
			s.Truncated = true
			break
		}
		prog.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		runCase(c, tier, seed, i, s, sets, false)
		if len(s.Viol) >= 3 {
			break
		}
		if time.Since(last) > 2*time.Second || len(s.Viol) > 0 {
			flush(out, s, sets)
			last = time.Now()
		}
	}
	s.Done = true
	flush(out, s, sets)
	os.Exit(0)
}

func merge(dst *Stats, sets map[string]map[uint64]bool, src *Stats) {
	dst.Cases += src.Cases
	dst.Evals += src.Evals
	for k, v := range src.Counts {
		dst.Counts[k] += v
	}
	for k, v := range src.Max {
		if v > dst.Max[k] {
			dst.Max[k] = v
		}
	}
	for k, l := range src.Distinct {
		if sets[k] == nil {
			sets[k] = map[uint64]bool{}
		}
		for _, h := range l {
			sets[k][h] = true
		}
	}
	if len(src.Samples) > 0 && len(dst.Samples) < 6 {
		dst.Samples = append(dst.Samples, src.Samples[0])
	}
	dst.Viol = append(dst.Viol, src.Viol...)
	for k, v := range src.Known {
		dst.Known[k] = v
	}
	dst.Notes = append(dst.Notes, src.Notes...)
	dst.Truncated = dst.Truncated || src.Truncated
}

// SortedCounts renders counters
func SortedCounts(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d ", k, m[k])
	}
	return b.String()
}
