package main

// Values of known shape: maps and sets whose keys are all known. They let printers and readers be followed on a world
// of a given shape, with everything else about it unknown. The order in which such a map or set is gone through is
// the one in which it was filled; sorting leaves it as it is (the names of the keys are free, so some naming has it).

// shapeKeys are the keys of a map of known shape.
func (in *Interp) shapeKeys(st *State, c *Term) ([]*Term, bool) {
	if !in.pol.shapes {
		return nil, false
	}
	for c.op == OCopy {
		c = c.args[0]
	}
	var chain []*Term
	for c.op == OMPut || c.op == OMDel {
		chain = append(chain, c)
		c = c.args[0]
	}
	if c.op != ONil && c.op != OZero {
		return nil, false
	}
	var ks []*Term
	for i := len(chain) - 1; i >= 0; i-- {
		k := chain[i].args[1]
		at := -1
		for j, o := range ks {
			switch in.eval(st, mkEq(o, k)) {
			case 0:
				return nil, false
			case 1:
				at = j
			}
		}
		switch {
		case chain[i].op == OMPut && at < 0:
			ks = append(ks, k)
		case chain[i].op == OMDel && at >= 0:
			ks = append(ks[:at:at], ks[at+1:]...)
		}
	}
	return ks, true
}

// keys are the keys of a map or set in the order in which they are gone through.
func (in *Interp) keys(st *State, c *Term) *Term {
	ks, ok := in.shapeKeys(st, c)
	if !ok {
		orderN++
		return orderOf(keysOf(c), orderN)
	}
	if len(ks) == 0 {
		return tEmptySeq
	}
	parts := make([]*Term, len(ks))
	for i, k := range ks {
		parts[i] = mkOne(k)
	}
	return mkSeq(parts...)
}

// eachKey calls a function for every key of a set of known shape.
func (in *Interp) eachKey(c *callCtx, ks []*Term, f *Term) []callRes {
	cur := []*path{c.p}
	var out []callRes
	for _, k := range ks {
		var next []*path
		for _, q := range cur {
			for _, r := range in.callValue(c.fr, q, f, []*Term{k}, nil, nil, c.pos) {
				if r.panic {
					out = append(out, r)
					continue
				}
				stop := 0
				if r.val != nil {
					stop = in.eval(r.p.st, r.val)
				}
				if stop != 1 {
					next = append(next, r.p)
				} else {
					out = append(out, callRes{p: r.p})
				}
			}
		}
		cur = next
	}
	for _, q := range cur {
		out = append(out, callRes{p: q})
	}
	return out
}
