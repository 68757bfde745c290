package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Prop{
		id: "C04", quick: 30000, thorough: 600000,
		rule: "A case is a program which derives 5-60 objects of every kind from each other (several children of one parent, unfinished joins finished repeatedly, retargeting), keeps all of them, and between derivations overwrites the lists it passed and the lists it was given; everything observable of every retained object is recorded when the object is made and compared after later steps and at the end; distinct by the text of all objects.",
		assumptions: []string{
			"bound data values (including lists given to IN) are not modified by the program",
		},
		run: runC04,
	})
	register(&Prop{
		id: "C16", quick: 28000, thorough: 800000,
		rule:        "A case makes a pool of objects of every kind twice by the same calls, then looks at the objects through all renderers, builds and accessors in random interleaving with other builds, overwriting most of the returned lists (spare storage included) and keeping the others, which must not change by later calls; each look must equal the first one and the twin's; distinct by the text of all objects.",
		assumptions: []string{"user-supplied conversions used by the workload are deterministic"},
		run:         runC16,
	})
}

func (w *world) verify(c *Case, after string) {
	for _, o := range w.objs {
		now := fingerprint(o)
		c.check(now == o.fp, "o%d (%s %s) changed after %s: %s", o.id, o.kind, o.src, after, firstDiff(o.fp, now))
	}
	for _, h := range w.held {
		if h.check != nil {
			d := h.check()
			c.check(d == "", "%s (seen after %s)", d, after)
		}
	}
	for _, check := range w.lists {
		d := check()
		c.check(d == "", "%s (seen after %s)", d, after)
		c.count("value lists compared")
	}
	c.count("complete comparisons of all objects")
}

func (w *world) report(c *Case) {
	for k, n := range w.ops {
		c.countN(k, n)
	}
	for _, o := range w.objs {
		c.seen(o.fp)
		c.max("children of one object", o.kids)
	}
	c.max("objects", len(w.objs))
	c.countN("objects", len(w.objs))
}

func runC04(c *Case) {
	g := c.ctx()
	w := newWorld(g)
	w.seed()
	steps := c.r.Size(25, 60) + 3
	every := pick(c.r, 1, 5, 20)
	for i := 0; i < steps; i++ {
		what := "scribbling"
		switch k := c.r.N(10); {
		case k < 7:
			before := len(w.objs)
			w.step()
			what = "a step which made nothing"
			if len(w.objs) > before {
				what = "making o" + fmt.Sprint(before)
			}
		case k < 9 && len(w.held) > 0:
			h := w.held[max(0, len(w.held)-1-c.r.N(min(len(w.held), 6)))]
			h.scribble(w)
			g.step("the caller overwrites the list it passed to %s", h.what)
			what = "overwriting the list passed to " + h.what
			w.ops["argument lists overwritten"]++
		default:
			o := w.objs[c.r.N(len(w.objs))]
			obs := observations(o)
			ob := obs[c.r.N(len(obs))]
			_, list := ob.look()
			list.scribble()
			g.step("the caller overwrites what o%d.%s returned", o.id, ob.name)
			what = fmt.Sprintf("overwriting the result of o%d.%s", o.id, ob.name)
			w.ops["results overwritten"]++
		}
		if i%every == every-1 {
			w.verify(c, what)
		}
	}
	w.verify(c, "the last step")
	w.report(c)
}

// effects watches for what building should not do besides giving results: writing to
// the standard output or error, and leaving goroutines behind.
var printedPath string // set by workers; crash reports end up there too

var effects struct {
	once   sync.Once
	file   *os.File // takes the place of both
	stdout int      // the real ones
	stderr int
	err    error
}

func watchEffects(c *Case) (end func(), restore func()) {
	e := &effects
	e.once.Do(func() {
		if printedPath == "" { // a replay
			if e.file, e.err = os.CreateTemp("", "verif-printed-"); e.err == nil {
				os.Remove(e.file.Name())
			}
		} else {
			e.file, e.err = os.OpenFile(printedPath, os.O_CREATE|os.O_RDWR|os.O_APPEND, 0o600)
		}
		if e.err != nil {
			return
		}
		if e.stdout, e.err = syscall.Dup(1); e.err == nil {
			e.stderr, e.err = syscall.Dup(2)
		}
	})
	if e.err != nil {
		panic(e.err)
	}
	from, _ := e.file.Seek(0, 2)
	threads := runtime.NumGoroutine()
	syscall.Dup3(int(e.file.Fd()), 1, 0)
	syscall.Dup3(int(e.file.Fd()), 2, 0)
	restore = func() {
		syscall.Dup3(e.stdout, 1, 0)
		syscall.Dup3(e.stderr, 2, 0)
	}
	return func() {
		to, _ := e.file.Seek(0, 2)
		text := make([]byte, min(to-from, 400))
		e.file.ReadAt(text, from)
		c.check(to == from, "building printed %d bytes, beginning with %q", to-from, text)
		for i := 0; runtime.NumGoroutine() > threads && i < 200; i++ {
			time.Sleep(time.Millisecond)
		}
		c.check(runtime.NumGoroutine() <= threads, "%d goroutines before building, %d after", threads, runtime.NumGoroutine())
		c.count("cases watched for output and goroutines left")
	}, restore
}

func runC16(c *Case) {
	end, restore := watchEffects(c)
	defer restore()
	c16Twins(c)
	end()
}

func c16Twins(c *Case) {
	g1, g2 := c.ctx(), c.ctx()
	if c.r.P(15) {
		defer nestedBuilds(c)()
		g1.yield = true
		c.count("worlds whose conditions and values build statements themselves")
	}
	vr, r := *g1.vr, *g1.r
	verbose := g2.verbose
	*g2 = *g1
	g2.vr, g2.r, g2.verbose = &vr, &r, verbose
	g2.ops = map[string]int{}
	a, b := newWorld(g1), newWorld(g2)
	g2.verbose = false // same text
	a.seed()
	n := c.r.Size(20, 45)
	for i := 0; i < n; i++ {
		a.step()
	}
	// other things are built in between
	if c.r.P(30) {
		g3 := c.ctx()
		g3.verbose = false
		o := newWorld(g3)
		o.seed()
		for i := 0; i < 10; i++ {
			o.step()
		}
	}
	b.seed()
	for i := 0; i < n; i++ {
		b.step()
	}
	c.check(len(a.objs) == len(b.objs), "harness: twin worlds differ in size")
	for i, o := range a.objs {
		t := b.objs[i]
		c.check(o.fp == t.fp, "o%d (%s %s): made twice by the same calls, the results differ: %s", o.id, o.kind, o.src, firstDiff(o.fp, t.fp))
	}
	// look again and again
	type key struct {
		o int
		k int
	}
	first := map[key]string{}
	var kept []keptList
	recheck := func() {
		for _, k := range kept {
			was, now := k.was.text(), k.list.again().text()
			c.check(was == now, "o%d (%s %s): the list which %s returned was %q, after later calls the same list holds %q", k.o.id, k.o.kind, k.o.src, k.name, was, now)
			c.count("returned lists compared after later calls")
		}
	}
	looks := len(a.objs) * 4
	for i := 0; i < looks; i++ {
		oi := c.r.N(len(a.objs))
		if c.r.P(50) {
			oi = max(0, len(a.objs)-1-c.r.N(8)) // the larger ones
		}
		o := a.objs[oi]
		obs := observations(o)
		ki := c.r.N(len(obs))
		l, list := obs[ki].look()
		text := l.text()
		k := key{oi, ki}
		if was, ok := first[k]; ok {
			c.check(text == was, "o%d (%s %s): %s gave %q at first, %q later", o.id, o.kind, o.src, obs[ki].name, was, text)
			c.count("repeated observations")
		} else {
			first[k] = text
		}
		if list.again == nil {
			continue
		}
		switch k := c.r.N(100); {
		case k < 20 && len(kept) < 60:
			kept = append(kept, keptList{o, obs[ki].name, l, list})
			if c.r.P(20) {
				recheck()
			}
		case k < 75:
			list.scribble()
			c.count("results overwritten")
			// the same observation right after
			l, _ := obs[ki].look()
			again := l.text()
			c.check(again == text, "o%d (%s %s): %s gave %q, after the caller overwrote that result it gives %q", o.id, o.kind, o.src, obs[ki].name, text, again)
		}
	}
	recheck()
	for i, o := range a.objs {
		now := fingerprint(o)
		c.check(now == o.fp, "o%d (%s %s): output changed by looking at objects: %s", o.id, o.kind, o.src, firstDiff(o.fp, now))
		t := b.objs[i]
		if i%3 == 0 {
			c.check(fingerprint(t) == t.fp, "twin of o%d changed: %s", o.id, firstDiff(t.fp, fingerprint(t)))
		}
	}
	recheck()
	a.report(c)
}
