package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID   string
	Rule string // how cases are made and what makes one distinct / non-trivial
	// number of cases per tier
	Quick, Thorough int
	Assumptions     []string
	Run             func(c *Case)
	// MinEvals is the least number of oracle evaluations that make a run conclusive.
	MinEvals int64
	// CPUBudget is the CPU time (s) one case may use before it is judged not to terminate.
	CPUBudget float64
	// Workers limits the parallel worker processes (0: all cores).
	Workers int
	// Variants names the builds the cases are spread over (default: plain; also race, asan).
	Variants []string
}

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { registry[p.ID] = p }

// Case is one generated execution.
type Case struct {
	*Rng
	Prop  *Prop
	Seed  int64
	Index int
	Tier  string

	mu    sync.Mutex
	desc  []string
	evals int64
	sigs  map[string]struct{}
	fails []failure
	obs   map[string]float64
}

type failure struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

type stopCase struct{}

// Thorough tells whether the thorough tier runs.
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

// Logf adds a line to the description of the case (written to the replay file).
func (c *Case) Logf(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.desc) < 400 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.desc = append(c.desc, s)
	}
}

// Eval counts one oracle evaluation with the signature of the situation observed.
func (c *Case) Eval(sig string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if sig != "" {
		c.sigs[fmt.Sprintf(sig, a...)] = struct{}{}
	}
}

// Stat keeps the largest value seen under a name, for the evidence.
func (c *Case) Stat(name string, v float64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if math.IsNaN(v) || math.IsInf(v, 0) {
		// not encodable; keep it visible in the evidence
		name, v = name+" (not finite)", 1
	}
	if o, ok := c.obs[name]; !ok || v > o {
		c.obs[name] = v
	}
}

// Fail records a violation; key identifies the kind of failure for the known-findings file.
func (c *Case) Fail(key, f string, a ...interface{}) {
	c.mu.Lock()
	c.fails = append(c.fails, failure{key, fmt.Sprintf(f, a...)})
	c.mu.Unlock()
}

// Fatal records a violation and ends the case.
func (c *Case) Fatal(key, f string, a ...interface{}) {
	c.Fail(key, f, a...)
	panic(stopCase{})
}

// Failed tells whether a violation was recorded.
func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) > 0
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (did bool, val interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				panic(r)
			}
			did, val = true, r
		}
	}()
	f()
	return
}

type record struct {
	Kind  string             `json:"kind"` // start, end
	Index int                `json:"index"`
	Evals int64              `json:"evals,omitempty"`
	Sigs  []string           `json:"sigs,omitempty"`
	Fails []failure          `json:"fails,omitempty"`
	Desc  []string           `json:"desc,omitempty"`
	Obs   map[string]float64 `json:"obs,omitempty"`
	MS    int64              `json:"ms,omitempty"`
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func runCase(p *Prop, seed int64, idx int, tier string, out func(record)) record {
	c := &Case{Rng: NewRng(p.ID, "/", seed, "/", idx), Prop: p, Seed: seed, Index: idx, Tier: tier,
		sigs: map[string]struct{}{}, obs: map[string]float64{}}
	SeedLibrary(p.ID, "/", seed, "/", idx)
	budget := p.CPUBudget
	if budget == 0 {
		budget = 150
	}
	if tier == "thorough" {
		budget *= 4
	}
	out(record{Kind: "start", Index: idx})
	start := cpuSeconds()
	t0 := time.Now()
	stop := make(chan struct{})
	var done int32
	go func() {
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tick.C:
				if cpuSeconds()-start > budget && atomic.LoadInt32(&done) == 0 {
					c.mu.Lock()
					r := record{Kind: "end", Index: idx, Evals: c.evals, Desc: c.desc,
						Fails: []failure{{"no-termination", fmt.Sprintf("the case used more than %.0f s of CPU without finishing (cases of this property need a few seconds at most)", budget)}}}
					out(r)
					os.Exit(0)
				}
			}
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); ok {
					return
				}
				c.Fail("panic", "unexpected panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		p.Run(c)
	}()
	atomic.StoreInt32(&done, 1)
	close(stop)
	c.mu.Lock()
	defer c.mu.Unlock()
	rec := record{Kind: "end", Index: idx, Evals: c.evals, Fails: c.fails, Obs: c.obs, MS: time.Since(t0).Milliseconds()}
	for s := range c.sigs {
		rec.Sigs = append(rec.Sigs, s)
	}
	sort.Strings(rec.Sigs)
	if len(c.fails) > 0 || idx < 3 || os.Getenv("VMON_DESC") != "" {
		rec.Desc = c.desc
	}
	return rec
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var keep []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "mk-lattigo") || strings.Contains(lines[i], "/repo/") || strings.Contains(lines[i], "lattigo/v2") {
			keep = append(keep, strings.TrimSpace(lines[i]))
		}
		if len(keep) >= 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// Worker runs the cases idx = shard mod n and writes records to stdout.
func Worker(id string, seed int64, tier string, shard, n, total int, only int) {
	p := registry[id]
	w := bufio.NewWriter(os.Stdout)
	var mu sync.Mutex
	out := func(r record) {
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, "record not encodable:", err)
			os.Exit(3)
		}
		mu.Lock()
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
		mu.Unlock()
	}
	if only >= 0 {
		out(runCase(p, seed, only, tier, out))
		return
	}
	for i := shard; i < total; i += n {
		out(runCase(p, seed, i, tier, out))
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(path string) (out []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	return doc.Findings
}

// Replay is what a replay file holds.
type Replay struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Index    int      `json:"index"`
	Variant  string   `json:"variant"`
	Command  string   `json:"command"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Case     []string `json:"case"`
}

// Variants returns the builds a property needs.
func Variants(id string) []string {
	p := registry[id]
	if p == nil || len(p.Variants) == 0 {
		return []string{"plain"}
	}
	return p.Variants
}

// Supervise runs all the cases of a property in worker processes and reports.
// It returns the exit status.
func Supervise(id string, seed int64, tier, verif, variant string, only int) int {
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	t0 := time.Now()
	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	n := p.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	if n > total {
		n = total
	}
	if only >= 0 {
		n = 1
	}
	self, _ := os.Executable()
	variants := Variants(id)
	if variant != "" {
		variants = []string{variant}
	}
	if n < len(variants) {
		n = len(variants)
	}
	known := loadKnown(filepath.Join(verif, "known_findings.json"))
	allKnown := func(r record) bool {
		for _, f := range r.Fails {
			in := false
			for _, k := range known {
				in = in || k.Property == id && k.Key == f.Key
			}
			if !in {
				return false
			}
		}
		return true
	}
	news := 0
	type crash struct {
		shard, index int
		stderr       string
		err          string
		killed       bool
	}
	var mu sync.Mutex
	var evals int64
	sigs := map[string]struct{}{}
	obs := map[string]float64{}
	var samples [][]string
	var failed []record
	var crashes []crash
	var casesRun, maxMS int64
	var stopAll int32
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			args := []string{"worker", id, "-seed", strconv.FormatInt(seed, 10), "-tier", tier,
				"-shard", strconv.Itoa(s), "-of", strconv.Itoa(n), "-total", strconv.Itoa(total), "-only", strconv.Itoa(only)}
			cmd := exec.Command(filepath.Join(filepath.Dir(self), "vmon-"+variants[s%len(variants)]), args...)
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GOTRACEBACK=all", "ASAN_OPTIONS=detect_leaks=0",
				"GORACE=halt_on_error=1 exitcode=66 history_size=3")
			if p.Workers == 0 {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
			}
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			stdout, _ := cmd.StdoutPipe()
			var errBuf tailBuf
			cmd.Stderr = &errBuf
			if err := cmd.Start(); err != nil {
				mu.Lock()
				crashes = append(crashes, crash{s, -1, "", err.Error(), true})
				mu.Unlock()
				return
			}
			last, open := -1, false
			rd := bufio.NewReaderSize(stdout, 1<<20)
			for {
				line, err := rd.ReadBytes('\n')
				if len(line) > 0 {
					var r record
					if json.Unmarshal(line, &r) == nil {
						if r.Kind == "start" {
							last, open = r.Index, true
						} else if r.Kind == "end" {
							open = false
							mu.Lock()
							evals += r.Evals
							casesRun++
							if r.MS > maxMS {
								maxMS = r.MS
							}
							for _, g := range r.Sigs {
								sigs[g] = struct{}{}
							}
							for k, v := range r.Obs {
								if o, ok := obs[k]; !ok || v > o {
									obs[k] = v
								}
							}
							if len(r.Desc) > 0 && len(samples) < 3 && len(r.Fails) == 0 {
								d := r.Desc
								if len(d) > 25 {
									d = d[:25]
								}
								samples = append(samples, d)
							}
							if len(r.Fails) > 0 {
								failed = append(failed, r)
								if !allKnown(r) {
									if news++; news >= 12 {
										atomic.StoreInt32(&stopAll, 1)
									}
								}
							}
							mu.Unlock()
						}
					}
				}
				if err == io.EOF || err != nil {
					break
				}
				if atomic.LoadInt32(&stopAll) == 1 {
					cmd.Process.Kill()
					break
				}
			}
			err := cmd.Wait()
			if err != nil && atomic.LoadInt32(&stopAll) == 0 {
				killed := false
				if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					killed = true
				}
				mu.Lock()
				if !open {
					last = -1
				}
				crashes = append(crashes, crash{s, last, errBuf.String(), err.Error(), killed})
				mu.Unlock()
			}
		}(s)
	}
	wg.Wait()

	knownHit := map[string]int{}
	var violations []Replay
	add := func(key, msg string, index int, desc []string) {
		for _, k := range known {
			if k.Property == id && k.Key == key {
				knownHit[k.Key]++
				return
			}
		}
		violations = append(violations, Replay{Property: id, Seed: seed, Tier: tier, Index: index, Variant: variants[index%n%len(variants)],
			Key: key, Message: msg, Case: desc})
	}
	sort.Slice(failed, func(i, j int) bool { return failed[i].Index < failed[j].Index })
	for _, r := range failed {
		for _, f := range r.Fails {
			add(f.Key, f.Msg, r.Index, r.Desc)
		}
	}
	inconclusive := ""
	for _, c := range crashes {
		if c.killed || c.index < 0 {
			inconclusive = fmt.Sprintf("worker %d ended early (%s) outside the monitor's control: %s", c.shard, c.err, tail(c.stderr, 600))
			continue
		}
		kind := "crash"
		switch {
		case strings.Contains(c.stderr, "DATA RACE"):
			kind = "data-race"
		case strings.Contains(c.stderr, "checkptr"):
			kind = "checkptr"
		case strings.Contains(c.stderr, "AddressSanitizer"):
			kind = "asan"
		case strings.Contains(c.stderr, "out of memory"):
			inconclusive = "worker ran out of memory: " + tail(c.stderr, 300)
			continue
		}
		add(kind, fmt.Sprintf("the process running the case ended with %s\n%s", c.err, head(c.stderr, 3500)), c.index, nil)
	}

	for _, k := range known {
		if k.Property == id && knownHit[k.Key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	// evidence
	if only < 0 {
		smp := make([]interface{}, 0, len(samples))
		for _, s := range samples {
			smp = append(smp, s)
		}
		ev := map[string]interface{}{
			"property": id, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]interface{}{
				"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": p.Rule, "samples": smp,
				"cases": casesRun, "worst_observed": obs, "slowest_case_ms": maxMS, "build_variants": variants,
				"known_findings_seen": knownHit,
			},
			"assumptions": p.Assumptions,
			"wall_s":      time.Since(t0).Seconds(),
			"violations":  len(violations),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	if len(violations) > 0 {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		for i, v := range violations {
			if i >= 5 {
				fmt.Printf("(%d more violations not listed)\n", len(violations)-i)
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", id, v.Variant, v.Index, i))
			v.Command = fmt.Sprintf("bash /verif/run.sh %s --replay %s", id, path)
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("case %d: [%s] %s\n", v.Index, v.Key, tail(v.Message, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE:", inconclusive)
		return 3
	}
	if only < 0 && (casesRun < int64(total) || evals < p.MinEvals) {
		fmt.Printf("INCONCLUSIVE: only %d of %d cases, %d oracle evaluations\n", casesRun, total, evals)
		return 3
	}
	fmt.Printf("%s: held on %d cases, %d oracle evaluations, %d distinct situations (%.1f s, slowest case %d ms)\n",
		id, casesRun, evals, len(sigs), time.Since(t0).Seconds(), maxMS)
	if len(obs) > 0 {
		b, _ := json.Marshal(obs)
		fmt.Println("worst observed:", string(b))
	}
	return 0
}

type tailBuf struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.buf.Len() < 1<<18 {
		t.buf.Write(p)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.buf.String()
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// IDs lists the registered properties.
func IDs() (out []string) {
	for k := range registry {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
