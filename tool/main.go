package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func main() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("VERIF_OUT"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: vt check ID [tier] | all [tier] | list | dump ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		dump(os.Args[2:])
	case "list":
		for _, id := range checkIds() {
			fmt.Println(id)
		}
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(runCheck(os.Args[2], tier))
	case "all":
		bad := 0
		for _, id := range checkIds() {
			if runCheck(id, "quick") != 0 {
				bad = 1
			}
		}
		os.Exit(bad)
	}
}

func checkIds() []string {
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func dump(args []string) {
	p, err := Load(repoDir, nil, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	layer := args[0]
	pol := Policy{}
	switch layer {
	case "none":
	case "app":
		pol = appPolicy(p)
	case "world":
		pol = worldPolicy(p)
	case "tree":
		pol = treePolicy(p)
	}
	for _, fn := range p.repoFuncs() {
		n := p.canon(fn)
		ok := len(args) < 2
		for _, a := range args[1:] {
			if n == a || strings.HasSuffix(a, "*") && strings.HasPrefix(n, a[:len(a)-1]) {
				ok = true
			}
		}
		if !ok || fn.Synthetic != "" {
			continue
		}
		in := NewInterp(p, pol)
		st := newState()
		outs, err := in.Run(fn, st, paramSyms(fn)...)
		fmt.Printf("==== %s: %d outcomes, %d steps, err=%v\n", n, len(outs), in.steps, err)
		if len(args) < 2 {
			continue
		}
		for i, o := range outs {
			fmt.Printf("-- %d panic=%v [%s]\n%s   ret %v\n", i, o.panic, o.st.facts, traceString(o.st.trace, "   ", p.fset), in.snapAll(o.st, o.rets))
		}
		for k := range in.notes {
			fmt.Println("note:", k)
		}
	}
}
