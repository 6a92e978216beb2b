package main

// C31: the web terminal answers every line and prompts again.

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"go/token"
)

//go:embed web/terminal.js
var terminalJS string

func init() {
	register(&Check{id: "C31", run: runC31,
		rule:        "The sources under web/src are parsed with the TypeScript compiler, and every component that takes what is typed in a terminal is followed through an abstract interpretation (closures, promises and their order, exceptions; the line, the character, the reply unknown; the engine loaded or not, answering or throwing, its answer well-formed or not). From any line: a character is kept at its end, shown and not sent; the backspace takes the last one away; the end of the line sends the line once as it is, shows the reply, or something when there is none, empties the line and then writes the prompt of the start once. A second line fares as the first.",
		assumptions: []string{"the terminal widget hands over what is typed one key at a time and shows what it is given", "useRef, useEffect, useCallback and useMemo of React as documented; the element is there when the effects run", "keys that are pressed while a line is answered are handled after it: the engine answers at once"}})
}

func runC31(r *Run) {
	src := filepath.Join(repoDir, "web", "src")
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, "node", "-", src)
	cmd.Stdin = strings.NewReader(terminalJS)
	cmd.Dir = os.TempDir()
	cmd.Env = append(os.Environ(), "NODE_PATH="+nodePath(), "NODE_OPTIONS=")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		r.bad("decided", token.NoPos, "the web terminal cannot be analysed: %v: %s", err, cut(errs.String(), 2000))
		return
	}
	done := false
	n := 0
	for _, l := range strings.Split(strings.TrimSpace(out.String()), "\n") {
		var o struct {
			Key, File, Text string
			Line            int
			Ok, Done        bool
			Ways            int
			Functions       []string
		}
		if err := json.Unmarshal([]byte(l), &o); err != nil {
			r.bad("decided", token.NoPos, "the analysis of the web terminal gave %q", cut(l, 300))
			return
		}
		if o.Done {
			done = true
			r.paths += o.Ways
			for _, f := range o.Functions {
				r.fns[f] = true
			}
			continue
		}
		n++
		r.put(o.Key, o.Text, fmt.Sprintf("%s:%d", o.File, o.Line), o.Ok)
	}
	if !done {
		r.bad("decided", token.NoPos, "the analysis of the web terminal did not come to its end")
	}
	r.need("obligations of the terminal", n, 12)
}

// nodePath is where the TypeScript compiler is.
func nodePath() string {
	paths := []string{"/opt/veriftools/node/node_modules"}
	if tsc, err := exec.LookPath("tsc"); err == nil {
		if real, err := filepath.EvalSymlinks(tsc); err == nil {
			// node_modules/typescript/bin/tsc
			paths = append(paths, filepath.Dir(filepath.Dir(filepath.Dir(real))))
		}
	}
	if p := os.Getenv("NODE_PATH"); p != "" {
		paths = append(paths, p)
	}
	return strings.Join(paths, string(os.PathListSeparator))
}
