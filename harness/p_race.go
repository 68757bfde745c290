package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/amarin/query"
)

func init() {
	register(&Prop{
		id: "C05", quick: 2400, thorough: 45000, race: true,
		rule: "A case makes a pool of objects of every kind, then 2-8 goroutines start together and run their own programs of derivations, builds and renderings over the same shared objects (1-3 of them used by all), with no synchronisation between them, overwriting the lists they get or keeping them; in some cases, the first one of every process among them, they share nothing and make everything themselves; value conversions and user-defined conditions yield and build further queries from a shared builder. The Go race detector watches; afterwards each result is compared with the same program run alone on objects made anew. Names are new to the process when the goroutines start. Distinct by the text of all results.",
		assumptions: []string{
			"bound data values are not modified while shared",
			"only the interleavings which the Go scheduler produced on this machine were seen (counted under observed)",
		},
		run: runC05,
	})
}

// raceLog reads what the race detector has newly written for this process.
type raceLog struct {
	path string
	off  int64
}

var theRaceLog = func() *raceLog {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			return &raceLog{path: fmt.Sprintf("%s.%d", p, os.Getpid())}
		}
	}
	return nil
}()

func (l *raceLog) fresh() string {
	if l == nil {
		return ""
	}
	f, err := os.Open(l.path)
	if err != nil {
		return ""
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || st.Size() <= l.off {
		return ""
	}
	b := make([]byte, st.Size()-l.off)
	n, _ := f.ReadAt(b, l.off)
	l.off += int64(n)
	return string(b[:n])
}

// splitRaces gives the reports in a piece of log.
func splitRaces(log string) (reps []string) {
	for _, rep := range strings.Split(log, "==================") {
		if strings.Contains(rep, "WARNING: DATA RACE") {
			reps = append(reps, strings.TrimSpace(rep))
		}
	}
	return
}

// libraryRace says whether a report concerns memory of the library: one of the two
// accesses is made by it, or both are made to lists it returned.
func libraryRace(rep string) bool {
	// the two access stacks come before the goroutine creation stacks
	acc, _, _ := strings.Cut(rep, "\nGoroutine ")
	return strings.Contains(acc, "github.com/amarin/query.") || strings.Contains(acc, "main.fill")
}

// raceKey names a race by the library functions on both sides.
func raceKey(rep string) string {
	var fs []string
	for _, l := range strings.Split(rep, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Goroutine ") {
			break
		}
		if i := strings.Index(l, "github.com/amarin/query."); i >= 0 && strings.HasSuffix(l, "()") {
			f := strings.TrimPrefix(l[i:], "github.com/amarin/query.")
			if len(fs) == 0 || fs[len(fs)-1] != f {
				fs = append(fs, f)
			}
		}
		if len(fs) >= 4 {
			break
		}
	}
	if len(fs) == 0 {
		return "lists returned to two goroutines share storage"
	}
	return strings.Join(fs, " / ")
}

type raceOp struct {
	start, end time.Duration
	hot        bool
}

// script is the program of one goroutine.
type script struct {
	seed  uint64
	n     int
	yield int // percent
	hot   map[string]int
	salt  string
}

type scriptResult struct {
	looks []looked
	ops   map[string]int
	spans []raceOp
	pan   any
	stack string
	src   []string
	kept  []keptList
}

var raceEpoch = time.Now()

// run executes the script over shared objects. Nothing in here synchronises with
// other goroutines: no fmt, no channels, no locks.
func (s *script) run(objs []*wobj, verbose bool, timed bool) (res scriptResult) {
	defer func() {
		if p := recover(); p != nil {
			res.pan, res.stack = p, string(debug.Stack())
		}
	}()
	r := newRng(s.seed)
	g := &gctx{r: r.Fork(), vr: r.Fork(), verbose: verbose, budget: 12, maxIn: 6, emptyIn: true, emptyGroups: true,
		tables: []string{"t1", "t2"}, ops: map[string]int{}, customPct: 15, yield: true, salt: s.salt}
	w := newWorld(g)
	w.quiet, w.noHeld = true, true
	if objs == nil { // everything made by this goroutine
		w.seed()
		for _, o := range w.objs {
			res.looks = append(res.looks, o.looks...)
		}
	} else {
		w.adopt(objs)
	}
	res.kept = make([]keptList, 0, 40)
	w.hot = map[string]*wobj{}
	for kind, i := range s.hot {
		w.hot[kind] = w.objs[i]
	}
	hots := make([]*wobj, 0, len(s.hot))
	for _, kind := range hotKinds {
		if o := w.hot[kind]; o != nil {
			hots = append(hots, o)
		}
	}
	for i := 0; i < s.n; i++ {
		var op raceOp
		if timed {
			op.start = time.Since(raceEpoch)
		}
		switch k := r.N(100); {
		case k < 55:
			before := len(w.objs)
			w.step()
			for _, o := range w.objs[before:] {
				res.looks = append(res.looks, o.looks...)
			}
			op.hot = true
		case k < 85 && len(hots) > 0:
			o := hots[r.N(len(hots))]
			res.looks = append(res.looks, lookAll(o, r, &res.kept)...)
			w.ops["look at a shared object"]++
			op.hot = true
		default:
			o := w.objs[r.N(len(w.objs))]
			res.looks = append(res.looks, lookAll(o, r, &res.kept)...)
			w.ops["look at any object"]++
		}
		if timed {
			op.end = time.Since(raceEpoch)
			res.spans = append(res.spans, op)
		}
		if r.P(s.yield) {
			runtime.Gosched()
		}
	}
	res.ops, res.src = w.ops, g.src
	return
}

var hotKinds = []string{"base", "many", "single", "join", "ins", "upd", "del", "where", "cond", "fields", "count", "value", "sort", "table", "limiter", "joiner", "said"}

// sharedWorld makes the pool all goroutines use.
func sharedWorld(seed uint64, steps int, salt string, verbose bool) *world {
	r := newRng(seed)
	g := &gctx{r: r.Fork(), vr: r.Fork(), verbose: verbose, budget: 12, maxIn: 6, emptyIn: true, emptyGroups: true,
		tables: []string{"t1", "t2"}, ops: map[string]int{}, customPct: 15, yield: true, salt: salt}
	w := newWorld(g)
	w.quiet, w.noHeld = true, true
	// made but not looked at, so that goroutines may be the first to do so
	w.unseen = r.P(50)
	w.seed()
	for i := 0; i < steps; i++ {
		w.step()
	}
	return w
}

func sharedCallback() query.SelectManyBuilder {
	return query.SelectManyFrom("inner_t").Fields(query.Field("a"), query.Field("b")).
		Where(query.FieldName("x").EqualTo(1)).Where(query.GreaterThan("y", 2).Or(query.IsNull("z"))).OrderBy(query.ASC("a"))
}

// nestedBuilds lets conditions and values build another statement when called.
func nestedBuilds(c *Case) (off func()) {
	callbacks.shared = sharedCallback()
	sql, params, err := nestedBuild()
	c.check(err == nil && len(params) == 3, "a SELECT with four conditions on three values is built as %q with %v", sql, params)
	callbacks.sql, callbacks.params = sql, len(params)
	callbacks.on = true
	return func() { callbacks.on = false }
}

var seenInterleavings = map[uint64]bool{}

func runC05(c *Case) {
	r := c.r
	seed := r.U64()
	steps := r.Size(18, 40)
	callbacks.on = false
	defer func() { callbacks.on = false }()
	// A cold case shares no objects: goroutines only meet in what the package itself
	// keeps. The first case of a process is one, then the library has not run before.
	cold := r.P(12) || c.idx < raceShards
	salt := "x" + strconv.FormatUint(c.idx, 36) + strings.Repeat("z", c.attempt)
	var shared *world
	var objs []*wobj
	hot := map[string]int{}
	if !cold {
		shared = sharedWorld(seed, steps, salt, c.verbose)
		objs = shared.objs
		if c.verbose {
			c.trace = append(c.trace, "shared objects:")
			c.trace = append(c.trace, shared.g.src...)
		}
		// what all goroutines concentrate on
		for n := r.Between(1, 4); n > 0; n-- {
			kind := hotKinds[r.N(len(hotKinds))]
			if r.P(60) {
				kind = hotKinds[r.N(9)]
			}
			if l := shared.by[kind]; len(l) > 0 {
				o := l[r.N(len(l))]
				if r.P(60) {
					o = l[len(l)-1]
				}
				hot[kind] = o.id
			}
		}
	}
	workers := pick(r, 2, 2, 3, 4, 4, 6, 8)
	same := r.P(20) // all run the same program
	if cold {
		same = r.P(60)
	}
	scripts := make([]*script, workers)
	yield := pick(r, 0, 10, 50)
	n := r.Between(4, 22)
	first := r.U64()
	for i := range scripts {
		s := first
		if !same && i > 0 {
			s = r.U64()
		}
		scripts[i] = &script{seed: s, n: n, yield: yield, hot: hot, salt: salt}
	}

	// together, before anything of this is run alone: names are new to the process
	if !cold {
		nestedBuilds(c)
	}
	theRaceLog.fresh()
	var ready atomic.Int32
	var wg sync.WaitGroup
	results := make([]scriptResult, workers)
	for i, s := range scripts {
		wg.Add(1)
		go func(i int, s *script) {
			defer wg.Done()
			ready.Add(1)
			for spins := 0; ready.Load() < int32(workers); spins++ {
				if spins%64 == 63 {
					runtime.Gosched()
				}
			}
			results[i] = s.run(objs, false, true)
		}(i, s)
	}
	wg.Wait()
	callbacks.on = false
	together := make([][]string, workers)
	for i, res := range results {
		together[i] = texts(res.looks)
	}

	// alone, each on objects of its own
	want := make([][]string, workers)
	for i, s := range scripts {
		var own []*wobj
		if !cold {
			own = sharedWorld(seed, steps, salt, false).objs
			callbacks.on = true
		}
		res := s.run(own, c.verbose, false)
		callbacks.on = false
		if c.verbose {
			c.trace = append(c.trace, fmt.Sprintf("goroutine %d (hot: %v):", i, hot))
			c.trace = append(c.trace, res.src...)
		}
		if res.pan != nil {
			c.violate("panic in a program running alone: %v", res.pan)
		}
		want[i] = texts(res.looks)
	}

	for _, rep := range splitRaces(theRaceLog.fresh()) {
		c.count("race reports")
		if !libraryRace(rep) {
			c.inconclusive = "race report without the library's memory (harness?): " + rep
			continue
		}
		c.trace = append(c.trace, strings.Split(rep, "\n")...)
		c.violate("data race reported by the Go race detector: %s", raceKey(rep))
	}
	for i, res := range results {
		if res.pan != nil {
			c.trace = append(c.trace, strings.Split(res.stack, "\n")...)
			c.violate("goroutine %d panicked, alone it does not: %v", i, res.pan)
		}
		got := together[i]
		c.check(len(got) == len(want[i]), "goroutine %d made %d observations, %d when running alone", i, len(got), len(want[i]))
		for k := range got {
			c.check(got[k] == want[i][k], "goroutine %d, observation %d: %q, running alone %q", i, k, got[k], want[i][k])
		}
		for _, k := range res.kept {
			was, now := k.was.text(), k.list.again().text()
			c.check(was == now, "goroutine %d: the list which %s returned was %q, in the end the same list holds %q", i, k.name, was, now)
			c.count("returned lists compared after all goroutines ended")
		}
		for k, v := range res.ops {
			c.countN(k, v)
		}
		c.countN("operations in goroutines", len(res.spans))
		c.seen(want[i]...)
	}
	// the shared objects still look as objects nobody else used
	if !cold {
		fresh := sharedWorld(seed, steps, salt, false)
		for i, o := range shared.objs {
			a, b := fingerprint(o), fingerprint(fresh.objs[i])
			c.check(a == b, "shared o%d (%s %s) after use by %d goroutines: %s", o.id, o.kind, o.src, workers, firstDiff(b, a))
		}
	} else {
		c.count("cases sharing nothing but the package")
	}

	// how they overlapped
	type ev struct {
		at time.Duration
		g  int
	}
	var evs []ev
	overlaps := 0
	for i, a := range results {
		for _, x := range a.spans {
			evs = append(evs, ev{x.start, i})
			for j := i + 1; j < len(results); j++ {
				for _, y := range results[j].spans {
					if x.start < y.end && y.start < x.end {
						overlaps++
					}
				}
			}
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	h := mix(c.idx + 77)
	switches := 0
	for i, e := range evs {
		h = mix(h ^ uint64(e.g+1))
		if i > 0 && evs[i-1].g != e.g {
			switches++
		}
	}
	if !seenInterleavings[h] {
		seenInterleavings[h] = true
		c.count("distinct interleavings of operation starts")
	}
	c.countN("pairs of operations overlapping in time", overlaps)
	c.countN("goroutine changes between successive operation starts", switches)
	if overlaps > 0 {
		c.count("cases with overlapping operations")
	}
	c.count("goroutines:" + fmt.Sprint(workers))
	c.max("goroutines", workers)
}

func texts(ls []looked) []string {
	res := make([]string, len(ls))
	for i, l := range ls {
		res[i] = l.text()
	}
	return res
}
