package main

// C30: parsing ends, and does not take a number of steps that doubles with every level of nesting.

import (
	"go/token"
	"sort"
)

func init() {
	register(&Check{id: "C30", run: runC30,
		rule:        "The shipped matcher simulates the published grammar step by step (as for C01), so that the steps of a parse are those of the grammar. In the grammar no rule can be applied within itself before something is consumed, and the body of a repetition always consumes something: parsing ends. Within the rules that are part of a recursion, whatever is left behind by going back (an alternative, an optional part, a repetition) and what is tried in its place at the same point do not both lead into the recursion, unless no character can begin both; and no lookahead leads into it: every level of nesting is tried once at each point, so that the number of steps is at most a power of the length.",
		assumptions: []string{"the functions that actions call end", "the stack and the memory suffice for the nesting of the text"}})
}

func runC30(r *Run) {
	m := r.parserLink()
	if m == nil {
		return
	}
	g := m.g
	// every rule that can be reached before anything is consumed
	direct := map[string]map[string]bool{}
	for _, n := range g.order {
		out := map[string]bool{}
		var rec func(e *pexp)
		rec = func(e *pexp) {
			switch e.op {
			case pRef:
				out[e.ref] = true
			case pSeq:
				for _, k := range e.kids {
					rec(k)
					if null, _ := g.nf(k); !null {
						return
					}
				}
			default:
				for _, k := range e.kids {
					rec(k)
				}
			}
		}
		rec(g.rules[n])
		direct[n] = out
	}
	all := map[string]map[string]bool{}
	for _, n := range g.order {
		all[n] = map[string]bool{}
		g.each(g.rules[n], func(e *pexp) {
			if e.op == pRef {
				all[n][e.ref] = true
			}
		})
	}
	left, any := reachAll(direct), reachAll(all)
	loops := 0
	for _, n := range g.order {
		r.must(!left[n][n], "left recursion: "+n, token.NoPos, "rule %s (pkg/grammar/grammar.peg:%d) can be applied within itself before anything is consumed: parsing does not end", n, g.lines[n])
		good := true
		g.each(g.rules[n], func(e *pexp) {
			if e.op != pStar {
				return
			}
			loops++
			if null, _ := g.nf(e.kids[0]); null {
				good = false
				r.bad("repetition: "+n, token.NoPos, "a repetition in rule %s (pkg/grammar/grammar.peg:%d) can go round without consuming anything: parsing does not end", n, e.line)
			}
		})
		if good {
			r.ok("repetition: " + n)
		}
	}
	r.need("repetitions", loops, 5)

	// the rules of each recursion
	recursive := 0
	for _, n := range g.order {
		if !any[n][n] {
			continue
		}
		recursive++
		leads := func(e *pexp) bool {
			found := false
			g.each(e, func(x *pexp) {
				if x.op == pRef && (x.ref == n || any[x.ref][n] && any[n][x.ref]) {
					found = true
				}
			})
			return found
		}
		good := true
		again := func(e *pexp, what string) {
			good = false
			line := e.line
			if line == 0 {
				line = g.lines[n]
			}
			r.bad("nesting: "+n, token.NoPos, "in rule %s (pkg/grammar/grammar.peg:%d) %s: the steps double with every level of nesting", n, line, what)
		}
		overlap := func(a, b *pexp) bool {
			_, fa := g.nf(a)
			_, fb := g.nf(b)
			return !fa.and(fb).empty()
		}
		g.each(g.rules[n], func(e *pexp) {
			switch e.op {
			case pAnd, pNot:
				if leads(e.kids[0]) {
					again(e, "a lookahead leads into the rule itself")
				}
			case pAlt:
				for i, a := range e.kids {
					for _, b := range e.kids[i+1:] {
						if leads(a) && leads(b) && overlap(a, b) {
							again(e, "two alternatives that can begin alike both lead into the rule itself")
						}
					}
				}
			case pSeq:
				for i, a := range e.kids {
					rest := &pexp{op: pSeq, kids: e.kids[i+1:]}
					if !leads(rest) {
						continue
					}
					g.each(a, func(x *pexp) {
						if (x.op == pStar || x.op == pOpt) && leads(x.kids[0]) && overlap(x.kids[0], rest) {
							again(e, "a part that may be left out and what follows it both lead into the rule itself and can begin alike")
						}
					})
				}
			}
		})
		if good {
			r.ok("nesting: " + n)
		}
	}
	r.need("recursive rules", recursive, 1)
}

// reachAll is the transitive closure.
func reachAll(d map[string]map[string]bool) map[string]map[string]bool {
	names := make([]string, 0, len(d))
	for n := range d {
		names = append(names, n)
	}
	sort.Strings(names)
	out := map[string]map[string]bool{}
	for _, n := range names {
		seen := map[string]bool{}
		work := []string{n}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			for y := range d[x] {
				if !seen[y] {
					seen[y] = true
					work = append(work, y)
				}
			}
		}
		out[n] = seen
	}
	return out
}
