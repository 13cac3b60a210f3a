package run

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Finding is an entry of known_findings.json
type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // open or fixed
	What     string `json:"what"`
}

func loadFindings(root string) map[string]Finding {
	m := map[string]Finding{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return m
	}
	var f struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "harness: known_findings.json:", err)
		os.Exit(3)
	}
	for _, x := range f.Findings {
		if x.Status == "open" {
			m[x.ID] = x
		}
	}
	return m
}

type outcome struct {
	stats   *Stats
	ok      bool
	why     string // crash, hang, memory
	caseIdx int
	stderr  string
}

func readProgress(p string) int {
	b, _ := os.ReadFile(p)
	n, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil {
		return -1
	}
	return n
}

// procUsage reads the CPU time and resident memory of a child of this process
func procUsage(pid int) (cpu float64, rss int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[i+1:])
	if len(f) < 22 {
		return 0, 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	r, _ := strconv.ParseInt(f[21], 10, 64)
	return (u + k) / 100, r * int64(os.Getpagesize())
}

type limited struct {
	b  bytes.Buffer
	mu sync.Mutex
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 200000 {
		l.b.Write(p)
	}
	return len(p), nil
}

const memLimit = 5 << 30

// supervise runs a child process and watches it
func supervise(args []string, out string, cpuPerCase float64) outcome {
	os.Remove(out)
	os.Remove(out + ".progress")
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	var se limited
	cmd.Stderr = &se
	cmd.Stdout = &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return outcome{why: "harness: " + err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	cur, cpuAt, wallAt := -1, 0.0, time.Now()
	why := ""
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			idx := readProgress(out + ".progress")
			cpu, rss := procUsage(cmd.Process.Pid)
			if idx != cur {
				cur, cpuAt, wallAt = idx, cpu, time.Now()
			}
			if why == "" {
				switch {
				case rss > memLimit:
					why = fmt.Sprintf("used %d MB of memory", rss>>20)
				case cur >= 0 && cpu-cpuAt > cpuPerCase:
					why = fmt.Sprintf("did not finish within %.0f s of CPU time", cpuPerCase)
				case cur >= 0 && cpu-cpuAt < 1 && time.Since(wallAt) > 200*time.Second:
					why = "made no progress and used no CPU time for 200 s"
				}
				if why != "" {
					cmd.Process.Signal(syscall.SIGQUIT)
					go func() { time.Sleep(3 * time.Second); cmd.Process.Kill() }()
				}
			}
		}
	}
	o := outcome{caseIdx: readProgress(out + ".progress"), why: why}
	se.mu.Lock()
	o.stderr = se.b.String()
	se.mu.Unlock()
	if b, e := os.ReadFile(out); e == nil {
		s := newStats()
		if json.Unmarshal(b, s) == nil {
			o.stats = s
		}
	}
	if err == nil && o.stats != nil && o.stats.Done && why == "" {
		o.ok = true
		return o
	}
	if ee, is := err.(*exec.ExitError); is && ee.ExitCode() == 3 {
		fmt.Fprintln(os.Stderr, o.stderr)
		os.Exit(3)
	}
	if o.why == "" {
		o.why = fmt.Sprintf("crashed (%v)", err)
	}
	return o
}

func firstLines(s string, n int) string {
	// the interesting part of a Go crash is at its beginning
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "ERROR: AddressSanitizer"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// Main is the entry point of the check binary
func Main(checks []*Check) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "", "quick or thorough")
	seed := flag.Int64("seed", 0, "seed")
	one := flag.Int("case", -1, "run only this case, in this process")
	isChild := flag.Bool("child", false, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	total := flag.Int("total", 0, "")
	from := flag.Int("from", 0, "")
	out := flag.String("out", "", "")
	root := flag.String("root", "/verif", "directory of the framework")
	limit := flag.Int("limit", 0, "wall clock seconds after which no further cases are started")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seed == 0 {
		n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil || n == 0 {
			n = 1
		}
		*seed = n
	}
	var c *Check
	for _, x := range checks {
		if x.ID == *prop {
			c = x
		}
	}
	if c == nil {
		fmt.Fprintln(os.Stderr, "no check for property", *prop)
		os.Exit(3)
	}
	if *isChild {
		child(c, *tier, *seed, *shard, *shards, *total, *from, *out, time.Now().Add(time.Duration(*limit)*time.Second))
		return
	}
	if *one >= 0 {
		s := newStats()
		sets := map[string]map[uint64]bool{}
		runCase(c, *tier, *seed, *one, s, sets, true)
		for k, m := range sets {
			s.Counts["distinct "+k] = len(m)
		}
		fmt.Println(SortedCounts(s.Counts))
		if len(s.Viol) > 0 {
			os.Exit(1)
		}
		return
	}
	os.Exit(parent(c, *tier, *seed, *root, *total, *limit))
}

func parent(c *Check, tier string, seed int64, root string, total, limit int) int {
	start := time.Now()
	if total == 0 {
		total = c.Quick
		if tier == "thorough" {
			total = c.Thorough
		}
	}
	if limit == 0 {
		limit = 420
		if tier == "thorough" {
			limit = 700
		}
	}
	n := c.Shards
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	if n > total {
		n = total
	}
	cpu := float64(c.CPU)
	if cpu == 0 {
		cpu = 30
	}
	work, err := os.MkdirTemp(filepath.Join(root, ".build"), "run-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 3
	}
	defer os.RemoveAll(work)
	all := newStats()
	sets := map[string]map[uint64]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	crashes := 0
	for sh := 0; sh < n; sh++ {
		wg.Add(1)
		go func(sh int) {
			defer wg.Done()
			from := 0
			for try := 0; try < 6; try++ {
				out := filepath.Join(work, fmt.Sprintf("s%d-%d", sh, try))
				left := limit - int(time.Since(start).Seconds())
				if left < 1 {
					left = 1
				}
				base := []string{"-child", "-prop", c.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-root", root, "-total", strconv.Itoa(total)}
				o := supervise(append(append([]string{}, base...), "-shard", strconv.Itoa(sh), "-shards", strconv.Itoa(n), "-from", strconv.Itoa(from), "-out", out, "-limit", strconv.Itoa(left)), out, cpu)
				mu.Lock()
				if o.stats != nil {
					merge(all, sets, o.stats)
				}
				stop := len(all.Viol) > 0
				mu.Unlock()
				if o.ok || o.caseIdx < 0 && o.why == "" {
					return
				}
				if o.caseIdx < 0 {
					mu.Lock()
					all.Notes = append(all.Notes, "a child ended before its first case: "+o.why+" "+firstLines(o.stderr, 20))
					crashes += 100
					mu.Unlock()
					return
				}
				mu.Lock()
				crashes++
				mu.Unlock()
				// a race report needs no second opinion; anything else has to happen again alone
				confirmed := strings.Contains(o.stderr, "WARNING: DATA RACE")
				detail := o.why + "\n" + firstLines(o.stderr, 80)
				if !confirmed && !stop {
					// run by itself, one after another, with twice the limit
					alone.Lock()
					out2 := out + "-alone"
					o2 := supervise(append(append([]string{}, base...), "-shard", strconv.Itoa(o.caseIdx), "-shards", "1000000000", "-from", strconv.Itoa(o.caseIdx), "-out", out2, "-limit", "600"), out2, 2*cpu)
					alone.Unlock()
					if !o2.ok {
						confirmed = true
						detail = o2.why + "\n" + firstLines(o2.stderr, 80)
					}
				}
				mu.Lock()
				if confirmed {
					msg := "the process " + strings.SplitN(detail, "\n", 2)[0]
					if strings.Contains(detail, "WARNING: DATA RACE") {
						msg = "data race"
					} else if strings.Contains(detail, "AddressSanitizer") {
						msg = "address sanitizer report"
					}
					all.Viol = append(all.Viol, Violation{o.caseIdx, msg, detail})
					mu.Unlock()
					return
				}
				all.Notes = append(all.Notes, fmt.Sprintf("case %d: child %s, but the case alone passes", o.caseIdx, strings.SplitN(o.why, "\n", 2)[0]))
				mu.Unlock()
				from = o.caseIdx + 1
			}
		}(sh)
	}
	wg.Wait()
	for k, m := range sets {
		all.Counts["distinct "+k] = len(m)
	}
	short := ""
	if c.Finish != nil && len(all.Viol) == 0 {
		short = c.Finish(all)
	}
	wall := time.Since(start).Seconds()
	findings := loadFindings(root)
	for id, what := range all.Known {
		f, ok := findings[id]
		if ok && f.Property == c.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, id, f.What)
		} else {
			all.Viol = append(all.Viol, Violation{-1, what, "finding " + id + " is not listed in known_findings.json"})
		}
	}

	// evidence
	cov := map[string]interface{}{
		"evaluations":         all.Evals,
		"distinct_nontrivial": len(sets["nontrivial"]),
		"rule":                c.Rule,
		"cases":               all.Cases,
		"cases_planned":       total,
		"processes":           n,
		"observed":            all.Counts,
		"maxima":              all.Max,
		"samples":             all.Samples,
		"truncated":           all.Truncated,
		"child_crashes":       crashes,
	}
	if len(all.Notes) > 0 {
		cov["notes"] = all.Notes
	}
	if short != "" {
		cov["too_little"] = short
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": c.Assume, "wall_s": wall, "violations": len(all.Viol),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(root, "evidence", "replay"), 0o755)
	if old, err := filepath.Glob(filepath.Join(root, "evidence", "replay", c.ID+"-*.json")); err == nil {
		for _, f := range old {
			os.Remove(f)
		}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %.1f s\n", c.ID, tier, seed, all.Cases, all.Evals, len(sets["nontrivial"]), wall)
	if len(all.Viol) > 0 {
		for i, v := range all.Viol {
			if i >= 3 {
				break
			}
			p := filepath.Join(root, "evidence", "replay", fmt.Sprintf("%s-%d.json", c.ID, i))
			rb, _ := json.MarshalIndent(map[string]interface{}{
				"property": c.ID, "tier": tier, "seed": seed, "case": v.Case, "message": v.Msg, "detail": v.Detail,
				"replay": fmt.Sprintf("cd %s && VERIF_TIER=%s VERIF_SEED=%d bin/check.sh %s -case %d", root, tier, seed, c.ID, v.Case),
			}, "", " ")
			os.WriteFile(p, append(rb, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
			fmt.Printf("  case %d: %s\n", v.Case, clip(v.Msg, 600))
		}
		return 1
	}
	if crashes >= 100 || short != "" {
		fmt.Println("INCONCLUSIVE:", short, all.Notes)
		return 3
	}
	return 0
}

var alone sync.Mutex

func clip(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "..."
	}
	return strings.ToValidUTF8(s, "\uFFFD")
}
