package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	shards     = 8
	raceShards = 24
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness run PROP TIER | worker ... | replay FILE | list")
	os.Exit(2)
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "run":
		if len(os.Args) != 4 {
			usage()
		}
		os.Exit(parent(os.Args[2], os.Args[3]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		if len(os.Args) != 3 {
			usage()
		}
		os.Exit(replay(os.Args[2]))
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		usage()
	}
}

// ---------------------------------------------------------------- worker

type foundViolation struct {
	Idx uint64 `json:"idx"`
	outcome
}

type shardResult struct {
	Done       int              `json:"done"`
	Evals      int              `json:"evals"`
	Nontrivial int              `json:"nontrivial"`
	Counts     map[string]int   `json:"counts"`
	Maxes      map[string]int   `json:"maxes"`
	Violations []foundViolation `json:"violations"`
	Total      int              `json:"total_violations"`
	Samples    []sample         `json:"samples"`

	Inconclusive string `json:"inconclusive,omitempty"`
}

type sample struct {
	Case  uint64   `json:"case"`
	Trace []string `json:"trace"`
}

// worker PROP TIER SEED SHARD STEP N OUT [ONLY]
func worker(args []string) {
	prop, tier := args[0], args[1]
	seed, _ := strconv.ParseUint(args[2], 10, 64)
	shard, _ := strconv.Atoi(args[3])
	step, _ := strconv.Atoi(args[4])
	n, _ := strconv.Atoi(args[5])
	out := args[6]
	p := props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	prog, err := os.OpenFile(out+".progress", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	printedPath = out + ".printed"
	var current atomic.Uint64
	go watchdog(&current)
	res := shardResult{Counts: map[string]int{}, Maxes: map[string]int{}}
	keys := map[uint64]struct{}{}
	var buf [8]byte
	for i := shard; i < n; i += step {
		idx := uint64(i)
		current.Store(idx + 1)
		binary.LittleEndian.PutUint64(buf[:], idx)
		prog.WriteAt(buf[:], 0)
		c := newCase(prop, tier, seed, idx, false, res.Counts, res.Maxes)
		o := runCase(p, c)
		res.Done++
		res.Evals += c.evals
		if c.inconclusive != "" {
			res.Inconclusive = c.inconclusive
		}
		if !c.trivial {
			res.Nontrivial++
			keys[c.key] = struct{}{}
		}
		if o.Violated {
			res.Total++
			if c.stop {
				// this process is no longer fit to run cases
				res.Violations = append(res.Violations, foundViolation{idx, o})
				break
			}
			if len(res.Violations) < 25 {
				// again, with the trace written out
				c2 := newCase(prop, tier, seed, idx, true, map[string]int{}, map[string]int{})
				o2 := runCase(p, c2)
				if o2.Violated && !p.race {
					o = o2
				} else if p.race {
					// the trace of the second run says what was run; reports come only once
					o.Trace = append(c2.fullTrace(), o.Trace...)
				} else {
					o.What += " (did not recur when the case was run again in the same process: depends on earlier cases)"
				}
				res.Violations = append(res.Violations, foundViolation{idx, o})
			} else if res.Total > 400 {
				break
			}
		}
		if shard == 0 && len(res.Samples) < 3 && (len(res.Samples) == 0 || i > n/4*len(res.Samples)) {
			c2 := newCase(prop, tier, seed, idx, true, map[string]int{}, map[string]int{})
			runCase(p, c2)
			if !c2.trivial {
				res.Samples = append(res.Samples, sample{idx, c2.fullTrace()})
			}
		}
	}
	kb := make([]byte, 0, 8*len(keys))
	for k := range keys {
		kb = binary.LittleEndian.AppendUint64(kb, k)
	}
	if err := os.WriteFile(out+".keys", kb, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	js, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(out+".json", js, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const (
	exitHang   = 71
	exitMemory = 72
	exitBlock  = 73
)

// watchdog ends the worker when one case burns far more processor time or memory
// than any case needs (a case normally takes well under 0.1 s and 50 MB). It
// counts processor time, not wall time. It also ends the worker when a call of the
// library is seen blocked at the same place in four looks ten seconds apart, while
// next to no processor time is used.
func watchdog(current *atomic.Uint64) {
	last, start := uint64(0), 0.0
	ticks := 0
	var blocked map[string]string
	lookCPU, looks := 0.0, 0
	for {
		time.Sleep(300 * time.Millisecond)
		cur := current.Load()
		if ticks++; cur != last {
			ticks, looks, blocked = 0, 0, nil
		} else if ticks%33 == 0 && cur != 0 {
			now := blockedCalls()
			for id, where := range now {
				if blocked != nil && blocked[id] != where {
					delete(now, id)
				}
			}
			cpu := cpuSeconds()
			if blocked != nil && len(now) > 0 && cpu-lookCPU < 1 {
				looks++
			} else {
				looks, now = 0, blockedCalls()
			}
			blocked, lookCPU = now, cpu
			if looks == 3 {
				for _, where := range now {
					fmt.Fprintf(os.Stderr, "case %d waits in a call of the library which is blocked: %s\n", cur-1, where)
				}
				os.Exit(exitBlock)
			}
		}
		if cur != last {
			last, start = cur, cpuSeconds()
		} else if cur != 0 && cpuSeconds()-start > 90 {
			fmt.Fprintf(os.Stderr, "case %d used more than 90 s of processor time without finishing\n", cur-1)
			os.Exit(exitHang)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			fmt.Fprintf(os.Stderr, "case %d made the heap grow over 3 GB\n", cur-1)
			os.Exit(exitMemory)
		}
	}
}

// blockedCalls gives the goroutines which wait inside a call of the library.
func blockedCalls() map[string]string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	res := map[string]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, where, _ := strings.Cut(g, "\n")
		id, state, ok := strings.Cut(head, " [")
		if !ok || !strings.Contains(where, "github.com/amarin/query") {
			continue
		}
		state, _, _ = strings.Cut(strings.TrimRight(state, "]:"), ",")
		if strings.HasPrefix(state, "run") || strings.HasPrefix(state, "syscall") || strings.HasPrefix(state, "GC") || strings.HasPrefix(state, "force gc") {
			continue
		}
		res[id] = state + "\n" + hexRe.ReplaceAllString(where, "0x")
	}
	return res
}

// ---------------------------------------------------------------- parent

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Case     uint64   `json:"case"`
	What     string   `json:"what"`
	Sig      string   `json:"sig,omitempty"`
	Stack    []string `json:"stack,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Stderr   string   `json:"stderr,omitempty"`
	Command  string   `json:"command"`
}

func writeReplay(dir string, rf replayFile) string {
	os.MkdirAll(dir, 0o755)
	name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", rf.Property, rf.Tier, rf.Seed, rf.Case))
	rf.Command = "./check.sh replay " + name
	js, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(name, append(js, '\n'), 0o644)
	return name
}

// knownFindings reads the committed list: lines "known: property=ID sig=SIG what".
func knownFindings(prop string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" sig=")
		if !ok {
			continue
		}
		sig, what, _ := strings.Cut(rest, " ")
		res[sig] = what
	}
	return res
}

type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tail) head(n int) string {
	s := t.b.String()
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

func parent(prop, tier string) int {
	start := time.Now()
	p := props[prop]
	if p == nil || (tier != "quick" && tier != "thorough") {
		usage()
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			v = hashString(s)
		}
		seed = v
	}
	n := p.cases(tier)
	if s := os.Getenv("VERIF_CASES"); s != "" { // for trying out
		n, _ = strconv.Atoi(s)
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()

	type runRes struct {
		shard int
		err   error
		code  int
		errs  *tail
	}
	wallLimit := 12 * time.Minute
	if tier == "thorough" {
		wallLimit = 4 * time.Hour
	}
	shards := shards
	if p.race {
		shards = raceShards // more processes: what a package makes on first use is made once in each
	}
	results := make([]runRes, shards)
	sem := make(chan struct{}, max(1, min(shards, runtime.NumCPU())))
	if p.race {
		sem = make(chan struct{}, max(1, runtime.NumCPU()/2))
	}
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[s] = runRes{shard: s, errs: &tail{}}
			out := filepath.Join(tmp, fmt.Sprint("shard", s))
			cmd := exec.Command(self, "worker", prop, tier, fmt.Sprint(seed), fmt.Sprint(s), fmt.Sprint(shards), fmt.Sprint(n), out)
			procs := "2"
			if p.race {
				procs = "4"
			}
			cmd.Env = append(os.Environ(), "GOMAXPROCS="+procs, "GOTRACEBACK=all",
				"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, fmt.Sprint("race", s)))
			cmd.Stderr = results[s].errs
			cmd.Stdout = results[s].errs
			if err := cmd.Start(); err != nil {
				results[s].err, results[s].code = err, -1
				return
			}
			timer := time.AfterFunc(wallLimit, func() { cmd.Process.Kill() })
			err := cmd.Wait()
			timer.Stop()
			results[s].err = err
			results[s].code = cmd.ProcessState.ExitCode()
		}(s)
	}
	wg.Wait()

	replayDir := filepath.Join(verifDir(), "out", "replay")
	total := shardResult{Counts: map[string]int{}, Maxes: map[string]int{}}
	keys := map[uint64]struct{}{}
	var viols []foundViolation
	stderrs := map[uint64]string{}
	inconclusive := ""
	for s, r := range results {
		out := filepath.Join(tmp, fmt.Sprint("shard", s))
		if r.code != 0 || r.err != nil {
			msg := r.errs.head(6000)
			if b, _ := os.ReadFile(out + ".printed"); len(b) > 0 {
				msg += string(b[:min(len(b), 6000)])
			}
			idx := uint64(0)
			if b, err := os.ReadFile(out + ".progress"); err == nil && len(b) == 8 {
				idx = binary.LittleEndian.Uint64(b)
			}
			what := ""
			switch {
			case r.code == exitHang:
				what = "a case does not finish: over 90 s of processor time in one short program"
			case r.code == exitBlock:
				what = "a call of the library never returns: " + firstLineWith(msg, "which is blocked")
			case r.code == exitMemory:
				what = "a case makes the heap grow over 3 GB"
			case strings.Contains(msg, "stack overflow") || strings.Contains(msg, "goroutine stack exceeds"):
				what = "unbounded recursion (stack overflow) ended the process"
			case strings.Contains(msg, "fatal error: concurrent map"):
				what = "the runtime detected unsynchronised map access and ended the process"
			case strings.Contains(msg, "fatal error:") || strings.Contains(msg, "panic:") || strings.Contains(msg, "SIGSEGV"):
				what = "the process crashed: " + firstLineWith(msg, "fatal error:", "panic:", "SIGSEGV")
			default:
				inconclusive = fmt.Sprintf("worker %d ended abnormally (%v): %s", s, r.err, msg)
				continue
			}
			viols = append(viols, foundViolation{idx, outcome{Violated: true, What: what}})
			stderrs[idx] = msg
			continue
		}
		b, err := os.ReadFile(out + ".json")
		var sr shardResult
		if err == nil {
			err = json.Unmarshal(b, &sr)
		}
		if err != nil {
			inconclusive = fmt.Sprintf("worker %d left no result: %v", s, err)
			continue
		}
		if sr.Inconclusive != "" {
			inconclusive = sr.Inconclusive
		}
		total.Done += sr.Done
		total.Evals += sr.Evals
		total.Nontrivial += sr.Nontrivial
		total.Total += sr.Total
		for k, v := range sr.Counts {
			total.Counts[k] += v
		}
		for k, v := range sr.Maxes {
			total.Maxes[k] = max(total.Maxes[k], v)
		}
		total.Samples = append(total.Samples, sr.Samples...)
		viols = append(viols, sr.Violations...)
		kb, _ := os.ReadFile(out + ".keys")
		for i := 0; i+8 <= len(kb); i += 8 {
			keys[binary.LittleEndian.Uint64(kb[i:])] = struct{}{}
		}
	}
	raceReports := 0
	if p.race {
		logs, _ := filepath.Glob(filepath.Join(tmp, "race*"))
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			raceReports += len(splitRaces(string(b)))
		}
		if raceReports > 0 && len(viols) == 0 && inconclusive == "" {
			inconclusive = fmt.Sprint(raceReports, " race reports not attributed to any case")
		}
	}

	known := knownFindings(prop)
	seenKnown := map[string]bool{}
	var fresh []foundViolation
	for _, v := range viols {
		if what, ok := known[v.Sig]; ok && v.Sig != "" {
			if !seenKnown[v.Sig] {
				seenKnown[v.Sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
			}
			continue
		}
		fresh = append(fresh, v)
	}
	sort.SliceStable(fresh, func(i, j int) bool {
		return traceLen(fresh[i]) < traceLen(fresh[j])
	})

	cov := map[string]any{
		"evaluations":         total.Done,
		"distinct_nontrivial": len(keys),
		"nontrivial":          total.Nontrivial,
		"oracle_checks":       total.Evals,
		"rule":                p.rule,
		"samples":             total.Samples,
		"observed":            total.Counts,
		"maxima":              total.Maxes,
		"workers":             shards,
	}
	if p.race {
		cov["race_reports"] = raceReports
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed & 0x7fffffffffffffff), "level": "exploration",
		"coverage": cov, "assumptions": p.assumptions,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(fresh), "known_findings_seen": len(seenKnown),
	}
	if p.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if total.Samples == nil {
		cov["samples"] = []sample{}
	}
	js, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(js, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	if len(fresh) > 0 {
		for i, v := range fresh {
			if i == 5 {
				fmt.Printf("... %d more\n", len(fresh)-5)
				break
			}
			path := writeReplay(replayDir, replayFile{Property: prop, Tier: tier, Seed: seed, Case: v.Idx,
				What: v.What, Sig: v.Sig, Stack: v.Stack, Trace: v.Trace, Stderr: stderrs[v.Idx]})
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s\n", v.What)
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", inconclusive)
		return 2
	}
	if total.Done != n || total.Evals == 0 || len(keys) < 2 {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE: observed too little: %d of %d cases, %d oracle checks, %d distinct\n", total.Done, n, total.Evals, len(keys))
		return 2
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d distinct=%d oracle_checks=%d wall=%.1fs\n",
		prop, tier, seed, total.Done, len(keys), total.Evals, time.Since(start).Seconds())
	return 0
}

func traceLen(v foundViolation) int {
	n := len(v.What)
	for _, t := range v.Trace {
		n += len(t)
	}
	return n
}

func firstLineWith(s string, subs ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, sub := range subs {
			if strings.Contains(l, sub) {
				return l
			}
		}
	}
	return ""
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	p := props[rf.Property]
	if err != nil || p == nil {
		fmt.Fprintln(os.Stderr, "cannot read replay file:", err)
		return 2
	}
	c := newCase(rf.Property, rf.Tier, rf.Seed, rf.Case, true, map[string]int{}, map[string]int{})
	o := runCase(p, c)
	for i := 0; i < 200 && p.race && !o.Violated; i++ {
		// depends on the schedule: try again
		c = newCase(rf.Property, rf.Tier, rf.Seed, rf.Case, true, map[string]int{}, map[string]int{})
		c.attempt = i%5 + 1
		o = runCase(p, c)
	}
	if !o.Violated {
		fmt.Println("the case does not fail now (recorded:", rf.What+")")
		fmt.Println(strings.Join(c.fullTrace(), "\n"))
		if rf.Stderr != "" {
			fmt.Println("recorded output:\n" + rf.Stderr)
		}
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", rf.Property, path, o.What)
	for _, t := range o.Stack {
		fmt.Println("  at", t)
	}
	fmt.Println("program:")
	for _, t := range o.Trace {
		fmt.Println("  " + t)
	}
	return 1
}
