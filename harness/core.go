package main

import (
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"strings"
)

// violation is raised by a monitor; it carries what was observed.
type violation struct {
	what string // one line
	sig  string // identifies the failing input for the known-findings file
}

// Case is one generated execution.
type Case struct {
	prop    string
	tier    string
	seed    uint64
	idx     uint64
	r       *Rng
	verbose bool
	attempt int // of a replay
	counts  map[string]int
	maxes   map[string]int
	evals   int
	key     uint64
	trivial bool
	trace   []string
	gs      []*gctx

	stop         bool // the process is no longer fit to run cases
	inconclusive string
}

func newCase(prop, tier string, seed, idx uint64, verbose bool, counts, maxes map[string]int) *Case {
	return &Case{prop: prop, tier: tier, seed: seed, idx: idx, verbose: verbose,
		r: newRng(seed, hashString(prop), idx), counts: counts, maxes: maxes}
}

// ctx makes a generation context whose program text ends up in the trace.
func (c *Case) ctx() *gctx {
	g := newGctx(c)
	c.gs = append(c.gs, g)
	return g
}

func (c *Case) violate(format string, a ...any) {
	panic(violation{what: fmt.Sprintf(format, a...)})
}

func (c *Case) violateSig(sig, format string, a ...any) {
	panic(violation{what: fmt.Sprintf(format, a...), sig: sig})
}

// check counts one oracle evaluation and raises a violation when it fails.
func (c *Case) check(ok bool, format string, a ...any) {
	c.evals++
	if !ok {
		c.violate(format, a...)
	}
}

func (c *Case) count(name string)         { c.counts[name]++ }
func (c *Case) countN(name string, n int) { c.counts[name] += n }
func (c *Case) max(name string, n int) {
	if n > c.maxes[name] {
		c.maxes[name] = n
	}
}

func (c *Case) tracef(format string, a ...any) {
	if c.verbose {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

// seen marks what this case observed, for counting distinct cases.
func (c *Case) seen(parts ...string) {
	for _, p := range parts {
		c.key = mix(c.key ^ hashString(p))
	}
}

func (c *Case) fullTrace() []string {
	var t []string
	for _, g := range c.gs {
		t = append(t, g.src...)
	}
	return append(t, c.trace...)
}

// panics runs f and gives back what it panicked with, nil if it did not.
func panics(f func()) (p any) {
	defer func() {
		p = recover()
	}()
	f()
	return nil
}

type outcome struct {
	Violated bool     `json:"violated"`
	What     string   `json:"what"`
	Sig      string   `json:"sig"`
	Stack    []string `json:"stack,omitempty"`
	Trace    []string `json:"trace,omitempty"`
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+`)

// runCase executes one case under the monitors.
func runCase(p *Prop, c *Case) (o outcome) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		o.Violated = true
		if v, ok := r.(violation); ok {
			o.What, o.Sig = v.what, v.sig
		} else {
			o.What = fmt.Sprintf("panic during calls that must succeed: %v", r)
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.Contains(l, "amarin/query") || strings.Contains(l, "/repo/") {
					o.Stack = append(o.Stack, hexRe.ReplaceAllString(strings.TrimSpace(l), "0x"))
				}
			}
			if len(o.Stack) > 12 {
				o.Stack = o.Stack[:12]
			}
			if len(o.Stack) == 0 && os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
		}
		o.Trace = c.fullTrace()
	}()
	p.run(c)
	return outcome{}
}

// Prop is one property with its workload and monitors.
type Prop struct {
	id          string
	quick       int
	thorough    int
	race        bool // built with the race detector, driven in-process
	rule        string
	assumptions []string
	run         func(c *Case)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.id] = p }

func (p *Prop) cases(tier string) int {
	if tier == "thorough" {
		return p.thorough
	}
	return p.quick
}
