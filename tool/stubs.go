package main

func (r *Run) queryCommands(w *wShape) {
	c := r.capp()
	if c == nil {
		return
	}
	for _, o := range operations {
		if o.query() {
			for _, ch := range c.chains(o) {
				ch.check()
				ch.checkUndo()
			}
		}
	}
}

func (r *Run) limitCommand() {
	c := r.capp()
	if c == nil {
		return
	}
	for _, o := range operations {
		if o.verb == "list" && !o.in {
			for _, ch := range c.chains(o) {
				ch.check()
			}
		}
	}
}
