package main

// C29: undoing a whole session gives the first text.

import "strings"

func init() {
	register(&Check{id: "C29", run: runC29,
		rule:        "By induction over the session, from obligations on each step: undoing a command right after it was executed or executed again gives the world it was executed on (the obligations of C03); the history holds exactly the commands executed and not undone, and undoing takes the latest (C04); what is not in the history has changed nothing: queries (C05) and operations that fail (C20); the text of a world depends on its state alone (C15). So after undoing the last of n commands the world is the one after n-1 commands, and after all of them the first.",
		assumptions: []string{"no undo of the session fails (a failed undo empties the history: C04)", "the assumptions of C03, C04, C05, C15 and C20"}})
}

func runC29(r *Run) {
	parts := []struct {
		id   string
		keep func(key string) bool
	}{
		{"C03", func(string) bool { return true }},
		{"C04", func(key string) bool { return !strings.HasPrefix(key, "report:") }},
		{"C05", func(string) bool { return true }},
		// only that a failure changes nothing, not what has to fail
		{"C20", func(key string) bool { return !strings.HasSuffix(key, "refused") && !strings.HasSuffix(key, ":reason") }},
		// only the texts of worlds and what the operations do, not the lists they give
		{"C15", func(key string) bool {
			return !strings.HasPrefix(key, "result of ") && !strings.HasPrefix(key, "listing in ") || strings.HasSuffix(key, ".String")
		}},
	}
	for _, part := range parts {
		sub := &Run{c: r.c, tier: r.tier, p: r.prog(), byKey: map[string]*obligation{}, fns: r.fns, counts: map[string]int{}}
		checks[part.id].run(sub)
		n := 0
		for _, o := range sub.obl {
			if part.keep(o.key) {
				n++
				r.put(part.id+": "+o.key, o.detail, o.pos, o.ok)
			}
		}
		r.paths += sub.paths
		r.need("obligations of "+part.id, n, 5)
	}
}
