package main

// Saving and loading: paths, the order of the steps of a save, and what is verified before it.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C11", run: runC11,
		rule:        "On every trace partition of Save, the file that is put in place is the directory joined with an injective escape of the world's name that contains no separator, and `.world`; every other path it creates or changes is the directory or a temporary file in it; on every partition of Load, the first file read is that of the same escape of the given name, and another is read only if there is none and the name is itself the path of a world file; ListWorlds gives, for every file of the directory with that ending whose name can be unescaped, the inverse of the escape, and leaves out nothing else.",
		assumptions: []string{"url.PathEscape, url.QueryEscape and the hex and base64url encodings are injective, give no path separator, and have the inverses of the library", "file names keep their case"}})
	register(&Check{id: "C12", run: runC12,
		rule:        "Typestate of a save on every trace partition: the destination is only ever replaced by a rename of a temporary file in the same directory; at the rename the data has been written, flushed and the file closed, each known to have succeeded; a partition that may report success has renamed and flushed the directory, with no failure of these unreported; nothing else creates, truncates, changes or removes the destination or another world's file.",
		assumptions: []string{"rename within a directory is atomic, and fsync makes durable what was written (POSIX)", "a write of an os.File that returns no error wrote everything"}})
	register(&Check{id: "C13", run: runC13,
		rule:        "On every trace partition of Save, when the first file is created or changed it is known that the very text that is written has been read by world.FromString without error and that WorldEqual holds between what was read and the world to be saved; otherwise no file is touched and an error is returned.",
		assumptions: []string{"FromString and WorldEqual are what C10 and C21 decide", "the directory itself may be created before"}})
}

// cpersist gathers what the rules about persistence share.
type cpersist struct {
	r    *Run
	p    *Prog
	typ  types.Type
	dirF *types.Var
	pol  Policy
}

func (r *Run) persist() *cpersist {
	p := r.prog()
	t := p.implOf("pkg/persistence", "Persistence")
	if t == nil {
		r.missing("the implementation of persistence.Persistence")
		return nil
	}
	dirs := fieldsWhere(t, func(v *types.Var) bool { return isBasic(v.Type(), types.IsString) })
	if len(dirs) != 1 {
		r.missing("the one directory of the persistence")
		return nil
	}
	pol := appPolicy(p)
	o, k := pol.opaque, pol.kind
	pol.opaque = func(n string, f *ssa.Function) bool {
		return n == "world.FromString" || n == "world.WorldEqual" || o(n, f)
	}
	pol.kind = func(n string) byte {
		if n == "world.FromString" || n == "world.WorldEqual" {
			return 'p'
		}
		return k(n)
	}
	return &cpersist{r, p, t, dirs[0], pol}
}

// run executes a method of the persistence.
func (c *cpersist) run(name string) (fn *ssa.Function, outs []Outcome, in *Interp, args []*Term) {
	fn = c.p.method(c.typ, name)
	if fn == nil {
		c.r.missing("Persistence." + name)
		return
	}
	args = paramSyms(fn)
	in = NewInterp(c.p, c.pol)
	outs = c.r.execIn(in, fn, newState(), args...)
	return
}

// fop is one file operation.
type fop struct {
	e    *Ev
	kind string  // read, mkdir, create, temp, rename, remove, change, write, sync, close, stat, other
	path *Term   // the path it works on, or the file
	to   *Term   // the new path of a rename
	data *Term   // what is written
	err  []*Term // its error
	loop *Loop
}

// fileOps lists the file operations of a partition, in order.
func (c *cpersist) fileOps(tr []*Ev) []*fop {
	var out []*fop
	flat(tr, func(e *Ev, in []*Loop) {
		if e.kind != "call" {
			return
		}
		f := &fop{e: e, err: errsOfEvent(e)}
		if len(in) > 0 {
			f.loop = in[len(in)-1]
		}
		a := e.args
		arg := func(i int) *Term {
			if i < len(a) {
				return unbytes(a[i])
			}
			return nil
		}
		switch e.name {
		case "os.ReadFile", "os.Open", "os.ReadDir":
			f.kind, f.path = "read", arg(0)
		case "os.Stat", "os.Lstat", "os.File.Stat":
			f.kind, f.path = "stat", arg(0)
		case "os.MkdirAll", "os.Mkdir":
			f.kind, f.path = "mkdir", arg(0)
		case "os.WriteFile":
			f.kind, f.path, f.data = "create", arg(0), arg(1)
		case "os.Create", "os.OpenFile":
			f.kind, f.path = "create", arg(0)
		case "os.CreateTemp":
			f.kind, f.path, f.to = "temp", arg(0), arg(1)
		case "os.Rename":
			f.kind, f.path, f.to = "rename", arg(0), arg(1)
		case "os.Remove", "os.RemoveAll":
			f.kind, f.path = "remove", arg(0)
		case "os.Truncate", "os.Chmod", "os.Chtimes", "os.Chown", "os.Link", "os.Symlink":
			f.kind, f.path, f.to = "change", arg(0), arg(1)
		case "os.File.Write", "os.File.WriteString", "io.WriteString", "fmt.Fprint":
			f.kind, f.path, f.data = "write", unwrap(arg(0)), arg(1)
			if e.name == "fmt.Fprint" && len(a) > 1 {
				f.data = nil
				if ps := seqParts(a[1]); len(ps) == 1 && ps[0].op == OOne {
					f.data = unbytes(unwrap(ps[0].args[0]))
				}
			}
		case "os.File.Sync":
			f.kind, f.path = "sync", arg(0)
		case "os.File.Close":
			f.kind, f.path = "close", arg(0)
		case "os.File.Name", "os.File.Chmod", "os.Getenv", "os.UserHomeDir", "os.File.Fd":
			return
		default:
			if strings.HasPrefix(e.name, "World.") || strings.HasPrefix(e.name, "fmt.Print") || strings.HasPrefix(e.name, "log.") || strings.HasPrefix(e.name, "grammar.") {
				return
			}
			f.kind = "other"
		}
		out = append(out, f)
	})
	return out
}

func unwrap(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

// unbytes forgets the conversion between a text and its bytes.
func unbytes(t *Term) *Term {
	for t != nil && t.op == OConv && (t.s == "bytes" || t.s == "string" || t.s == "") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// dir is the term of the configured directory.
func (c *cpersist) dir(in *Interp, st *State, fp *Term) *Term { return in.get(st, fp, c.dirF) }

// joined takes a path apart into a directory and the name in it.
func joined(t *Term) (dir, base *Term) {
	if t != nil && t.op == OCall && strings.HasSuffix(t.s, "filepath.Join") && len(t.args) == 1 {
		ps := seqParts(t.args[0])
		if len(ps) == 2 && ps[0].op == OOne && ps[1].op == OOne {
			return ps[0].args[0], ps[1].args[0]
		}
	}
	return nil, nil
}

// escapes are the functions that make a file name of any text, with their inverses.
var escapes = map[string][]string{
	"net/url.PathEscape":                      {"net/url.PathUnescape"},
	"net/url.QueryEscape":                     {"net/url.QueryUnescape"},
	"encoding/hex.EncodeToString":             {"encoding/hex.DecodeString"},
	"encoding/base64.Encoding.EncodeToString": {"encoding/base64.Encoding.DecodeString"},
}

// worldFile takes the path of a world's file apart: the escape and the name.
func (c *cpersist) worldFile(in *Interp, st *State, fp, t *Term) (esc string, name *Term, why string) {
	d, b := joined(t)
	if d == nil {
		return "", nil, fmt.Sprintf("%v is not a name joined with the directory", t)
	}
	if !same(st, d, c.dir(in, st, fp)) {
		return "", nil, fmt.Sprintf("it is in %v, which is not the configured directory", d)
	}
	ps := catParts(b)
	if len(ps) != 2 {
		return "", nil, fmt.Sprintf("the file name %v is not an escaped name and an ending", b)
	}
	if s, ok := ps[1].isStr(); !ok || s != ".world" {
		return "", nil, fmt.Sprintf("the file name ends with %v, not .world", ps[1])
	}
	e := ps[0]
	if e.op != OCall || escapes[e.s] == nil {
		return "", nil, fmt.Sprintf("the name %v is not made safe for a file name by an escape that can be undone", e)
	}
	if e.s == "encoding/base64.Encoding.EncodeToString" && !strings.Contains(e.args[0].String(), "URLEncoding") {
		return "", nil, "the encoding may contain a path separator"
	}
	return e.s, unbytes(e.args[len(e.args)-1]), ""
}

// inDir: the path is the directory, or a temporary file in the directory of the destination.
func (c *cpersist) isDir(in *Interp, st *State, fp, t *Term, dest *Term) bool {
	if t == nil {
		return false
	}
	if same(st, t, c.dir(in, st, fp)) {
		return true
	}
	if t.op == OCall && strings.HasSuffix(t.s, "filepath.Dir") {
		if dest != nil && t.args[0] == dest {
			return true
		}
		_, _, why := c.worldFile(in, st, fp, t.args[0])
		return why == ""
	}
	return false
}

// temp: the path is that of a temporary file in the directory that no one takes for a world.
func (c *cpersist) isTemp(in *Interp, st *State, fp, t, dest *Term, ops []*fop) (*Term, bool) {
	if t == nil {
		return nil, false
	}
	if t.op == OCall && t.s == "os.File.Name" { // the name of an open file
		h := t.args[0]
		for _, f := range ops {
			if h.op == OExtract && h.args[0] == f.e.res {
				switch f.kind {
				case "temp":
					pat, ok := f.to.isStr()
					return h, c.isDir(in, st, fp, f.path, dest) && ok && !strings.HasSuffix(pat, ".world") && !strings.Contains(pat, "/") && (strings.Contains(pat, "*") && !strings.HasSuffix(pat, "*") || !strings.Contains(pat, ".world"))
				case "create":
					_, ok := c.isTemp(in, st, fp, f.path, dest, ops)
					return h, ok
				}
			}
		}
		return h, false
	}
	// a name next to the destination
	ok := false
	if ps := catParts(t); len(ps) == 2 && ps[0] == dest && dest != nil {
		if s, k := ps[1].isStr(); k && s != "" && !strings.HasSuffix(s, ".world") && !strings.Contains(s, "/") {
			ok = true
		}
	}
	if d, b := joined(t); d != nil && c.isDir(in, st, fp, d, dest) {
		if ps := catParts(b); len(ps) > 0 {
			safe := true
			for _, q := range ps[:len(ps)-1] {
				s, k := q.isStr()
				if k && strings.Contains(s, "/") || !k && !(q.op == OCall && escapes[q.s] != nil) {
					safe = false
				}
			}
			if s, k := ps[len(ps)-1].isStr(); k && safe && len(s) > 1 && !strings.HasSuffix(s, ".world") && !strings.Contains(s, "/") && strings.HasPrefix(s, ".") {
				ok = true
			}
		}
	}
	if !ok {
		return nil, false
	}
	for _, f := range ops {
		if f.kind == "create" && f.path == t && f.e.name != "os.WriteFile" {
			return mkExtract(f.e.res, 0, nil), true
		}
	}
	return nil, true
}

// catParts lists the parts of a concatenation.
func catParts(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

// destination is the path that a save puts the file at, on a partition.
func (c *cpersist) destination(ops []*fop) *Term {
	var d *Term
	for _, f := range ops {
		if f.kind == "rename" {
			d = f.to
		}
	}
	return d
}

func changes(f *fop) bool {
	switch f.kind {
	case "create", "temp", "rename", "remove", "change", "other":
		return true
	}
	return false
}

func runC11(r *Run) {
	c := r.persist()
	if c == nil {
		return
	}
	esc := ""
	use := func(e string, key string, pos token.Pos) {
		if esc == "" {
			esc = e
		}
		r.must(esc == e, key, pos, "files are named with %s in one place and with %s in another", esc, e)
	}
	// Save
	fn, outs, in, args := c.run("Save")
	if fn == nil {
		return
	}
	fp, w := args[0], args[1]
	n := 0
	for _, o := range outs {
		ops := c.fileOps(o.st.trace)
		dest := c.destination(ops)
		for _, f := range ops {
			pos := f.e.pos
			switch f.kind {
			case "mkdir":
				r.must(c.isDir(in, o.st, fp, f.path, dest), "Save: makes its directory", pos, "saving creates the directory %v", f.path)
			case "rename", "create", "remove", "change", "temp", "other":
				if f.kind == "other" {
					r.bad("Save: known effects", pos, "saving calls %s, whose effect on files is not known", f.e.name)
					continue
				}
				if f.kind == "temp" {
					r.must(c.isDir(in, o.st, fp, f.path, dest), "Save: temporary file in the directory", pos, "saving creates a temporary file in %v", f.path)
					continue
				}
				for i, p := range []*Term{f.path, f.to} {
					if p == nil || f.kind != "rename" && i == 1 {
						continue
					}
					if _, ok := c.isTemp(in, o.st, fp, p, dest, ops); ok {
						continue
					}
					n++
					e, name, why := c.worldFile(in, o.st, fp, p)
					if !r.must(why == "", "Save: the file of the world", pos, "saving %ss %v: %s", f.e.name, p, why) {
						continue
					}
					use(e, "Save: one escape", pos)
					r.must(name.op == OCall && name.s == "World.Name" && name.args[0] == w, "Save: named after the world", pos, "the file is named after %v, not after the world's name", name)
				}
			}
		}
	}
	r.need("destinations of a save", n, 1)
	// Load
	fn, outs, in, args = c.run("Load")
	if fn == nil {
		return
	}
	fp, name := args[0], args[1]
	n = 0
	for _, o := range outs {
		ops := c.fileOps(o.st.trace)
		first, last := true, (*fop)(nil)
		for _, f := range ops {
			pos := f.e.pos
			switch {
			case f.kind == "close":
				continue
			case f.kind != "read" && f.kind != "stat":
				r.bad("Load: only reads", pos, "loading performs %s", f.e.name)
				continue
			}
			n++
			if f.kind == "read" {
				last = f
			}
			if first {
				e, nm, why := c.worldFile(in, o.st, fp, f.path)
				if r.must(why == "", "Load: by name first", pos, "loading looks at %v: %s", f.path, why) {
					use(e, "Load: the escape of a save", pos)
					r.must(nm == name, "Load: the given name", pos, "loading %v looks for a world named %v", name, nm)
				}
				first = false
				continue
			}
			if _, nm, why := c.worldFile(in, o.st, fp, f.path); why == "" && nm == name {
				continue // the same file
			}
			// another file: only when there is no such world, and only the given path
			absent := false
			o.st.facts.each(func(a *Term, v bool) bool {
				if v && a.op == OCall && (a.s == "os.IsNotExist" || a.s == "errors.Is") {
					for _, g := range ops {
						if g == f {
							break
						}
						for _, x := range g.err {
							absent = absent || contains(a, x)
						}
					}
				}
				return !absent
			})
			r.must(absent, "Load: another file only when there is no such world", pos, "loading by name reads %v although there may be a world with that name", f.path)
			r.must(isPathName(o.st, name) && unwrap(f.path) == name, "Load: another file only by its path", pos, "loading by name reads %v, outside of the directory", f.path)
		}
		if last == nil {
			r.must(failing(in, o, 1), "Load: reads the file", fn.Pos(), "loading succeeds without reading a file")
			continue
		}
		// what is read is what is given back
		if !failing(in, o, 1) {
			v := in.val(o.st, o.rets[0])
			src := findTerm(v, func(x *Term) bool { return x.op == OCall && x.s == "world.FromString" })
			ok := src != nil && contains(src, last.e.res) && unbytes(src.args[0]).op == OExtract
			r.must(ok, "Load: gives what the file says", last.e.pos, "loading gives %v after reading %v", v, last.path)
		}
	}
	r.need("files looked at by a load", n, 2)
	c.listing(esc)
	if set := c.p.method(c.typ, "SetSourcePath"); set != nil {
		args := paramSyms(set)
		in := NewInterp(c.p, c.pol)
		for _, o := range r.execIn(in, set, newState(), args...) {
			r.must(in.get(o.st, args[0], c.dirF) == args[1], "SetSourcePath: the directory", set.Pos(), "the directory becomes %v", in.get(o.st, args[0], c.dirF))
		}
	}
}

// isPathName: the given name is known to end like the file of a world.
func isPathName(st *State, name *Term) bool {
	if st.facts.eval(mkEq(mk(OCall, "path/filepath.Ext", 0, types.Typ[types.String], name), cStr(".world"))) == 1 {
		return true
	}
	ok := false
	st.facts.each(func(a *Term, v bool) bool {
		if v && a.op == OCall && a.s == "strings.HasSuffix" && a.args[0] == name && a.args[1] == cStr(".world") {
			ok = true
		}
		if v && a.op == OEq {
			for i, x := range a.args {
				if x == cStr(".world") && a.args[1-i].op == OCall && strings.HasSuffix(a.args[1-i].s, ".Ext") && a.args[1-i].args[0] == name {
					ok = true
				}
			}
		}
		return !ok
	})
	return ok
}

func failing(in *Interp, o Outcome, i int) bool {
	return i < len(o.rets) && errStatus(o.st, in.val(o.st, o.rets[i])) == -1
}

// listing decides ListWorlds.
func (c *cpersist) listing(esc string) {
	r := c.r
	fn, outs, in, args := c.run("ListWorlds")
	if fn == nil {
		return
	}
	fp := args[0]
	n := 0
	for _, o := range outs {
		ops := c.fileOps(o.st.trace)
		var read *fop
		for _, f := range ops {
			ok := f.kind == "read" && f.path != nil && same(o.st, f.path, c.dir(in, o.st, fp)) || f.kind == "close"
			r.must(ok, "ListWorlds: reads the directory", f.e.pos, "listing performs %s on %v", f.e.name, f.path)
			if f.kind == "read" {
				read = f
			}
		}
		if failing(in, o, 1) {
			continue
		}
		if !r.must(read != nil, "ListWorlds: reads the directory", fn.Pos(), "listing succeeds without reading the directory") {
			continue
		}
		res := in.snapAll(o.st, o.rets[:1])[0]
		entries := mkExtract(read.e.res, 0, nil)
		var L *Loop
		flat(o.st.trace, func(e *Ev, _ []*Loop) {
			if e.kind == "loop" && e.loop.coll != nil && e.loop.coll.op == OExtract && e.loop.coll.args[0] == entries.args[0] {
				L = e.loop
			}
		})
		if L == nil {
			r.must(emptySeq(res) && o.st.facts.eval(mkEmpty(entries)) == 1, "ListWorlds: lists the directory", fn.Pos(), "the list %v is not made from the entries of the directory", res)
			continue
		}
		parts := seqParts(res)
		if !r.must(len(parts) == 1 && parts[0].op == OEach && parts[0].k == L.id && L.exits == 0, "ListWorlds: lists the directory", fn.Pos(), "the list %v is not one of an element for each entry", res) {
			continue
		}
		adds := map[int]*Term{}
		for i, m := range eachPaths(parts[0]) {
			adds[m] = parts[0].args[i]
		}
		for i, lp := range L.paths {
			n++
			var world, plain, named *bool
			set := func(b **bool, v bool) { x := v; *b = &x }
			elem := func(t *Term, method string) bool {
				return t.op == OCall && strings.HasSuffix(t.s, "DirEntry."+method) && len(t.args) == 1 && t.args[0].op == OElem && t.args[0].k == L.id
			}
			var unesc *Term
			lp.facts.each(func(a *Term, v bool) bool {
				switch {
				case elem(a, "IsDir"):
					set(&plain, !v)
				case a.op == OCall && strings.HasSuffix(a.s, "IsRegular"):
					set(&plain, v)
				case a.op == OCall && a.s == "strings.HasSuffix" && elem(a.args[0], "Name") && a.args[1] == cStr(".world"):
					set(&world, v)
				case a.op == OEq && hasExt(a, elem):
					set(&world, v)
				case a.op == OEq && (a.args[0].op == ONil || a.args[1].op == ONil):
					x := a.args[0]
					if x.op == ONil {
						x = a.args[1]
					}
					if x.op == OExtract && x.k == 1 && x.args[0].op == OCall && unescapes(esc, x.args[0].s) {
						set(&named, v)
						unesc = x.args[0]
					}
				}
				return true
			})
			val, adds1 := adds[i]
			if adds1 && mkEmpty(val) == tTrue {
				adds1 = false
			}
			if !adds1 {
				why := world != nil && !*world || plain != nil && !*plain || named != nil && !*named
				r.must(why, "ListWorlds: every saved world", L.pos, "a file is left out of the list when [%s]", cut(lp.facts.String(), 400))
				continue
			}
			ok := world != nil && *world && plain != nil && *plain && named != nil && *named
			r.must(ok, "ListWorlds: only saved worlds", L.pos, "a file is listed when [%s]", cut(lp.facts.String(), 400))
			ps := seqParts(val)
			good := false
			if len(ps) == 1 && ps[0].op == OOne && unesc != nil {
				v := ps[0].args[0]
				good = v.op == OExtract && v.k == 0 && v.args[0] == unesc && stripped(unbytes(unesc.args[len(unesc.args)-1]), elem)
			}
			r.must(good, "ListWorlds: the name of the world", L.pos, "the listing shows %v for a file, which is not the name its world was saved under", val)
		}
	}
	r.need("kinds of directory entries", n, 2)
}

func unescapes(esc, name string) bool {
	for _, x := range escapes[esc] {
		if x == name {
			return true
		}
	}
	return false
}

func hasExt(eq *Term, elem func(*Term, string) bool) bool {
	for i, x := range eq.args {
		if x == cStr(".world") {
			y := eq.args[1-i]
			return y.op == OCall && strings.HasSuffix(y.s, ".Ext") && elem(y.args[0], "Name")
		}
	}
	return false
}

// stripped: the term is the name of the entry without its ending.
func stripped(t *Term, elem func(*Term, string) bool) bool {
	switch {
	case t.op == OCall && t.s == "strings.TrimSuffix" && elem(t.args[0], "Name"):
		return t.args[1] == cStr(".world") || t.args[1].op == OCall && strings.HasSuffix(t.args[1].s, ".Ext") && t.args[1].args[0] == t.args[0]
	case t.op == OExtract && t.k == 0 && t.args[0].op == OCall && t.args[0].s == "strings.CutSuffix":
		c := t.args[0]
		return elem(c.args[0], "Name") && c.args[1] == cStr(".world")
	case t.op == OSlice && elem(t.args[0], "Name"):
		n := t.args[0]
		if t.args[1] != cInt(0) {
			return false
		}
		for _, k := range []*Term{cInt(6), mkLen(mk(OCall, "path/filepath.Ext", 0, types.Typ[types.String], n))} {
			if t.args[2] == linAdd(linOf(mkLen(n)), linOf(k), -1).term() {
				return true
			}
		}
	}
	return false
}

func runC12(r *Run) {
	c := r.persist()
	if c == nil {
		return
	}
	fn, outs, in, args := c.run("Save")
	if fn == nil {
		return
	}
	fp := args[0]
	done := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		ops := c.fileOps(o.st.trace)
		dest := c.destination(ops)
		ret := in.val(o.st, o.rets[len(o.rets)-1])
		fails := errStatus(o.st, ret) == -1
		okAt := func(f *fop, fs *Facts) bool { // known to have succeeded
			for _, x := range f.err {
				if fs.eval(mkEq(x, tNil)) == 1 {
					return true
				}
			}
			return false
		}
		reported := func(f *fop) bool { return fails || okAt(f, o.st.facts) || contains(ret, f.err[0]) }
		var renamed *fop
		for i, f := range ops {
			pos := f.e.pos
			if f.loop != nil && f.kind != "read" {
				r.bad("Save: steps in order", pos, "%s is performed in a loop: the order of the steps of a save is not decided", f.e.name)
				continue
			}
			switch f.kind {
			case "other":
				r.bad("Save: known effects", pos, "saving calls %s, whose effect on files is not known", f.e.name)
			case "create", "remove", "change":
				_, tmp := c.isTemp(in, o.st, fp, f.path, dest, ops)
				ok := tmp && renamed == nil || tmp && f.kind == "remove"
				r.must(ok, "Save: the old file stays", pos, "saving performs %s on %v: the version saved before is gone if it stops there", f.e.name, f.path)
			case "temp":
				r.must(c.isDir(in, o.st, fp, f.path, dest), "Save: temporary file next to the destination", pos, "the temporary file is in %v: renaming it is not atomic", f.path)
				pat, k := f.to.isStr()
				r.must(k && !(strings.HasSuffix(pat, ".world") || strings.HasSuffix(pat, ".world*")), "Save: temporary file is no world", pos, "the temporary file is named like %v and may be taken for a saved world", f.to)
			case "rename":
				h, tmp := c.isTemp(in, o.st, fp, f.path, dest, ops)
				r.must(tmp, "Save: the new file is complete", pos, "saving puts %v in place, which is not the temporary file it wrote", f.path)
				steps := map[string]bool{}
				for _, g := range ops[:i] {
					on := h != nil && g.path == h || g.kind == "create" && g.path == f.path && g.data != nil
					if !on {
						continue
					}
					switch g.kind {
					case "write", "create":
						if g.kind == "create" {
							steps["close"] = okAt(g, f.e.facts)
						}
						steps["write"] = okAt(g, f.e.facts)
						steps["sync"] = false // what is flushed must be flushed again
						if g.data == nil || !(g.data.op == OCall && g.data.s == "World.String") {
							r.bad("Save: the new file is complete", g.e.pos, "what is written is %v and not the text of the world", g.data)
						}
					case "sync":
						steps["sync"] = okAt(g, f.e.facts)
					case "close":
						steps["close"] = steps["close"] || okAt(g, f.e.facts)
					}
				}
				for _, s := range []string{"write", "sync", "close"} {
					r.must(steps[s], "Save: the new file is complete: "+s, pos, "the new file is put in place where it is not known that its %s succeeded", s)
				}
				r.must(renamed == nil, "Save: one rename", pos, "the file is put in place twice")
				r.must(reported(f), "Save: reports a failure to put the file in place", pos, "a failed rename is not reported")
				renamed = f
			}
		}
		if fails {
			continue
		}
		done++
		if !r.must(renamed != nil, "Save: success means saved", fn.Pos(), "saving reports success without putting a file in place when [%s]", cut(o.st.facts.String(), 400)) {
			continue
		}
		flushed := false
		after := false
		var opened *Term
		for _, f := range ops {
			if f == renamed {
				after = true
			}
			if !after {
				continue
			}
			if f.kind == "read" && f.e.name == "os.Open" && c.isDir(in, o.st, fp, f.path, dest) {
				opened = mkExtract(f.e.res, 0, nil)
				r.must(reported(f), "Save: reports a failure to flush the directory", f.e.pos, "a failure to open the directory is not reported")
			}
			if f.kind == "sync" && opened != nil && f.path == opened {
				flushed = true
				r.must(reported(f), "Save: reports a failure to flush the directory", f.e.pos, "a failure to flush the directory is not reported")
			}
		}
		r.must(flushed, "Save: success means on disk", renamed.e.pos, "saving reports success before the directory with the new file is flushed to disk")
	}
	r.need("partitions of a save that may succeed", done, 1)
}

func runC13(r *Run) {
	c := r.persist()
	if c == nil {
		return
	}
	fn, outs, in, args := c.run("Save")
	if fn == nil {
		return
	}
	w := args[1]
	n := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		ops := c.fileOps(o.st.trace)
		for _, e := range o.st.trace {
			if e.kind == "call" && strings.HasPrefix(e.name, "World.") && (worldKind(e.name) == 'm' || worldKind(e.name) == 'w') {
				r.must(e.args[0] != w, "Save: leaves the world as it is", e.pos, "saving performs %s on the world it saves", e.name)
			}
		}
		var first *fop
		var data *Term
		for _, f := range ops {
			if changes(f) && first == nil {
				first = f
			}
			if f.data != nil {
				if data != nil && data != f.data {
					r.bad("Save: one text", f.e.pos, "what is written is not one text")
				}
				data = f.data
			}
		}
		if first == nil {
			r.must(failing(in, o, len(o.rets)-1), "Save: nothing is saved silently", fn.Pos(), "saving reports success without writing when [%s]", cut(o.st.facts.String(), 300))
			continue
		}
		n++
		fs := first.e.facts
		var read *Term
		fs.each(func(a *Term, v bool) bool {
			if v && a.op == OEq {
				for _, x := range a.args {
					if x.op == OExtract && x.k == 1 && x.args[0].op == OCall && x.args[0].s == "world.FromString" {
						read = x.args[0]
					}
				}
			}
			return true
		})
		if !r.must(read != nil, "Save: what is written can be read", first.e.pos, "a file is touched (%s) where it is not known that the text loads", first.e.name) {
			continue
		}
		if data != nil {
			r.must(unbytes(read.args[0]) == data, "Save: what is verified is written", first.e.pos, "the text that is verified is %v, the one that is written is %v", read.args[0], data)
		}
		equal := false
		fs.each(func(a *Term, v bool) bool {
			if v && a.op == OCall && a.s == "world.WorldEqual" {
				x, y := a.args[0], a.args[1]
				isRead := func(t *Term) bool { return t.op == OExtract && t.k == 0 && t.args[0] == read }
				if x == w && isRead(y) || y == w && isRead(x) {
					equal = true
				}
			}
			return !equal
		})
		r.must(equal, "Save: what is written is the same world", first.e.pos, "a file is touched (%s) where it is not known that the text loads back as an equal world", first.e.name)
	}
	r.need("partitions of a save that touch files", n, 1)
}
