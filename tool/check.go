package main

// The frame of a check: obligations, their verdicts, the evidence file and the exit status.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	id          string
	rule        string // the rule applied, for the evidence
	assumptions []string
	run         func(r *Run)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.id] = c }

type obligation struct {
	key    string // rule and construct, not line
	detail string
	pos    string
	ok     bool
}

// Run is one run of a check.
type Run struct {
	c         *Check
	tier      string
	p         *Prog
	obl       []*obligation
	byKey     map[string]*obligation
	fns       map[string]bool
	shaped    map[*ssa.Function]bool // followed on values of known shapes
	paths     int
	callSites int
	counts    map[string]int
}

var repoDir = "/repo"
var verifDir = "/verif"

func (r *Run) prog() *Prog {
	if r.p == nil {
		if progCache != nil {
			r.p = progCache
			return r.p
		}
		p, err := Load(repoDir, nil, "./...")
		if err != nil {
			panic(Undecided{"the repository cannot be loaded: " + err.Error()})
		}
		r.p, progCache = p, p
	}
	return r.p
}

// progCache holds the loaded program for the further checks of one process.
var progCache *Prog

func (r *Run) put(key, detail, pos string, ok bool) {
	if o := r.byKey[key]; o != nil {
		if o.ok && !ok {
			o.ok, o.detail, o.pos = false, detail, pos
		}
		return
	}
	o := &obligation{key, detail, pos, ok}
	r.byKey[key] = o
	r.obl = append(r.obl, o)
}

func (r *Run) pos(p token.Pos) string {
	if r.p == nil || p == token.NoPos {
		return ""
	}
	return r.p.pos(p)
}

// ok records a discharged obligation.
func (r *Run) ok(key string, detail ...any) { r.put(key, fmt.Sprint(detail...), "", true) }

// bad records an obligation that does not hold.
func (r *Run) bad(key string, pos token.Pos, f string, a ...any) {
	r.put(key, fmt.Sprintf(f, a...), r.pos(pos), false)
}

// must records an obligation by its verdict.
func (r *Run) must(cond bool, key string, pos token.Pos, f string, a ...any) bool {
	if cond {
		r.ok(key)
	} else {
		r.bad(key, pos, f, a...)
	}
	return cond
}

// failing reports whether some obligation did not hold so far.
func (r *Run) failing() bool {
	for _, o := range r.obl {
		if !o.ok {
			return true
		}
	}
	return false
}

// need guards against vacuity: a rule that found fewer instances than there must be decided nothing.
func (r *Run) need(what string, n, min int) {
	r.counts[what] = n
	if n < min {
		r.bad("vacuous:"+what, token.NoPos, "found %d %s where at least %d are expected: the rule has lost its subject", n, what, min)
	} else {
		r.ok("found:" + what)
	}
}

// missing reports an anchor that does not resolve.
func (r *Run) missing(what string) {
	r.bad("anchor:"+what, token.NoPos, "%s not found in the source: the property cannot be decided", what)
}

// exec runs the abstract interpreter and reports when it cannot decide.
func (r *Run) exec(pol Policy, fn *ssa.Function, st *State, args ...*Term) ([]Outcome, *Interp) {
	in := NewInterp(r.prog(), pol)
	outs := r.execIn(in, fn, st, args...)
	return outs, in
}

func (r *Run) execIn(in *Interp, fn *ssa.Function, st *State, args ...*Term) []Outcome {
	outs, err := in.Run(fn, st, args...)
	name := r.p.canon(fn)
	if err != nil {
		r.bad("decided:"+name, fn.Pos(), "the analysis of %s cannot be completed: %v", name, err)
		return nil
	}
	for f := range in.fnsSeen {
		r.fns[r.p.canon(f)] = true
		if in.pol.shapes {
			if r.shaped == nil {
				r.shaped = map[*ssa.Function]bool{}
			}
			r.shaped[f] = true
		}
	}
	r.paths += len(outs)
	return outs
}

func loadKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return out
	}
	pre := "KNOWN-FINDING: property=" + id + " key="
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, pre) {
			rest := l[len(pre):]
			key, what, _ := strings.Cut(rest, " | ")
			out[strings.TrimSpace(key)] = strings.TrimSpace(what)
		}
	}
	return out
}

func runCheck(id, tier string) int {
	c := checks[id]
	if c == nil {
		fmt.Printf("no check %s\n", id)
		return 2
	}
	start := time.Now()
	r := &Run{c: c, tier: tier, byKey: map[string]*obligation{}, fns: map[string]bool{}, counts: map[string]int{}}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(Undecided); ok {
					r.bad("decided", token.NoPos, "the analysis cannot be completed: %s", u.why)
					return
				}
				r.bad("decided", token.NoPos, "the analysis stopped: %v\n%s", x, debug.Stack())
			}
		}()
		c.run(r)
	}()
	if len(r.obl) == 0 {
		r.bad("vacuous", token.NoPos, "no obligation was generated")
	}
	return r.finish(start)
}

func (r *Run) finish(start time.Time) int {
	id := r.c.id
	known := loadKnown(id)
	var bads, fnd []*obligation
	okN := 0
	for _, o := range r.obl {
		switch {
		case o.ok:
			okN++
		case known[o.key] != "":
			fnd = append(fnd, o)
		default:
			bads = append(bads, o)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []any
	for _, o := range r.obl {
		if len(samples) < 40 {
			samples = append(samples, map[string]any{"obligation": o.key, "held": o.ok})
		}
	}
	cov := map[string]any{
		"explanation": fmt.Sprintf("Static analysis of the working tree of %s: %d obligations generated from the source, %d discharged, over %d functions and %d trace partitions. Rule: %s",
			repoDir, len(r.obl), okN, len(fns), r.paths, r.c.rule),
		"obligations":        len(r.obl),
		"discharged":         okN,
		"functions_analysed": fns,
		"trace_partitions":   r.paths,
		"counts":             r.counts,
		"rule":               r.c.rule,
		"samples":            samples,
		"known_findings":     len(fnd),
	}
	ev := map[string]any{
		"property": id, "tier": r.tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.c.assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(bads),
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, o := range fnd {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, known[o.key], o.detail)
	}
	rep := filepath.Join(dir, id+".report.txt")
	var w strings.Builder
	for _, o := range bads {
		fmt.Fprintf(&w, "%s\n  at %s\n  %s\n", o.key, o.pos, o.detail)
	}
	os.WriteFile(rep, []byte(w.String()), 0644)
	if len(bads) > 0 {
		max := len(bads)
		if max > 25 {
			max = 25
		}
		for _, o := range bads[:max] {
			fmt.Printf("  %s: %s\n      %s\n", o.pos, o.key, cut(o.detail, 1200))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
		return 1
	}
	fmt.Printf("%s: held (%d obligations, %d functions, %d partitions, %.1fs)\n", id, okN, len(fns), r.paths, time.Since(start).Seconds())
	return 0
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
