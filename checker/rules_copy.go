package main

// C11 (stored values and callers do not share memory).

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C11"] = c11
}

// own decides whether byte slice t is memory that nobody else has, when event e
// hands it over.
type own struct {
	r    *Run
	f    Facts
	loop []*Term // the loops the slice is handed over in
	seen map[*Term]bool
	m, k *Term // where it is stored
}

func (r *Run) owned(f Facts, loop []*Term, t *Term) bool {
	return (&own{r: r, f: f, loop: loop, seen: map[*Term]bool{}}).is(t)
}
func within(loop, in []*Term) bool {
	for _, l := range loop {
		ok := false
		for _, x := range in {
			ok = ok || x == l
		}
		if !ok {
			return false
		}
	}
	return true
}

// empty: there is nothing in it to change.
func (w *own) empty(t *Term) bool {
	return emptyList(t) || tri(w.f, mkEq(t, tNil)) == yes || tri(w.f, mkEq(mkLen(t), mkInt(0))) == yes
}
func (w *own) is(t *Term) bool {
	if w.empty(t) {
		return true
	}
	if w.seen[t] {
		return true
	}
	w.seen[t] = true
	switch t.Op {
	case "mkslice":
		// made for this value
		for _, e := range w.r.en.events {
			if e.Op == "bytes" && e.Args[0] == t && !within(w.loop, e.Loop) {
				return false
			}
		}
		return true
	case "asl":
		return t.Args[0].Op == "alloc" && len(w.loop) == 0
	case "slice":
		if t.Args[0].Op == "mkslice" && t.Args[1].Op == "lin" {
			// a part of its own of something made for many
			w.loop = nil
		}
		return w.is(t.Args[0])
	case "encoded", "be64":
		return true
	case "bcopy", "s2b", "seq":
		if t.Aux == "self" {
			return w.is(t.Args[0])
		}
		for _, e := range w.r.en.events {
			if e.Op == "reuse" && e.Res == t {
				x := e.Args[0].Args[0]
				if x.Op == "lookup" && x.Args[0] == w.m && strip(x.Args[1]) == strip(w.k) {
					continue // what it takes the place of
				}
				if x.Op != "nil" && x.Op != "mkslice" || !w.is(x) {
					return false
				}
			}
		}
		if t.Op == "seq" && len(t.Args) > 0 && t.Args[0].Op == "spread" {
			return w.is(t.Args[0].Args[0])
		}
		return true
	case "W":
		for _, li := range w.r.en.loops {
			if len(li.contrib[t]) == 0 {
				continue
			}
			for _, l := range w.loop {
				if l == li.id {
					// left over from an earlier round
					return false
				}
			}
			for _, m := range []map[*Term]bool{li.contrib[t], li.init[t]} {
				for x := range m {
					if !w.is(x) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

// isStoredValue: the value is one of those stored in memory.
func isStoredValue(t *Term) bool {
	for t.Op == "slice" {
		t = t.Args[0]
	}
	return t.Op == "lookup" && isDataMap(t.Args[0]) || t.Op == "mapval"
}

func c11(c *Ctx) {
	c.rule("store", "a value put into the data of a session is memory made for it, or was stored before", 1)
	c.rule("given", "bytes given to a reader are memory made for that reader", 2)
	c.rule("kept", "what a reader is given, and slices of a caller, are kept nowhere", 2)
	c.rule("valid", "memory of the database is read while the transaction it is from is open", 1)
	c.rule("args", "what a caller passes is left as it is", 3)
	for _, p := range c.providers() {
		c.allRuns(p, func(name string, r *Run, worker bool) {
			c.ob("args", r, nil, r.fn.Pos(), true, "")
			for _, e := range r.en.events {
				if e.Op != "store" && e.Op != "copy" {
					continue
				}
				x := e.Args[0]
				for x.Op == "faddr" || x.Op == "idx" || x.Op == "elem" || x.Op == "field" || x.Op == "slice" {
					x = x.Args[0]
				}
				if x != e.Args[0] && x.Op == "param" && x != recvOf(r.fn) {
					c.ob("args", r, nil, e.Pos, false, "%v is changed, which the caller has passed", e.Args[0])
				}
			}
		})
		if p.kind == "redis" {
			continue
		}
		c.allRuns(p, func(name string, r *Run, worker bool) {
			c.ob("kept", r, nil, r.fn.Pos(), true, "")
			for _, e := range r.en.events {
				switch e.Op {
				case "mapset":
					if !isDataMap(e.Args[0]) {
						continue
					}
					val := e.Args[2]
					ok := (&own{r: r, f: e.Facts, loop: e.Loop, seen: map[*Term]bool{}, m: e.Args[0], k: e.Args[1]}).is(val) || isStoredValue(val)
					c.obx("store", r, nil, e.Pos, val.Op, ok, "%v is stored, which is not a copy", val)
				case "store":
					a := e.Args[0]
					if a.Op != "faddr" && a.Op != "global" {
						continue
					}
					if n := typeStr(e.Args[1].Type); n != "[]byte" && n != "[][]byte" && n != "[]sid.PairBytes" && n != "[]sid.Value" {
						continue
					}
					if x := root(a); isFresh(x) || x.Op == "mkslice" || x.Op == "alloc" {
						continue
					}
					c.ob("kept", r, nil, e.Pos, r.owned(e.Facts, e.Loop, e.Args[1]) && name != "Get", "%v is kept in %v", e.Args[1], a)
				case "late":
					c.ob("valid", r, nil, e.Pos, false, "%v is read after its transaction", e.Args[0])
				case "copy", "decode":
					if p.kind == "bolt" {
						c.ob("valid", r, nil, e.Pos, true, "")
					}
				}
			}
		})
		for _, fn := range c.a.funcs {
			if fn.Pkg != p.pkg {
				continue
			}
			for _, b := range fn.Blocks {
				for _, x := range b.Instrs {
					if cv, ok := x.(*ssa.Convert); ok && (isUnsafe(cv.Type()) || isUnsafe(cv.X.Type())) {
						c.ob("kept", c.run(p.m["Get"]), nil, cv.Pos(), false, "%v looks at memory as something else", fn)
					}
				}
			}
		}
		r := c.run(p.m["Get"])
		r.exits(func(o *Outcome) {
			if len(o.res) == 0 {
				return
			}
			f := Facts(o.st.facts.m)
			t := o.res[0]
			if emptyList(t) {
				return
			}
			ok, why := p.gives(r, o, f, t)
			c.ob("given", r, o, o.pos, ok, "%s", why)
		})
	}
}

// gives: the values in list t share memory with nothing.
func (p *Prov) gives(r *Run, o *Outcome, f Facts, t *Term) (bool, string) {
	value := func(f Facts, loop []*Term, v *Term) bool {
		if v == nil || v.Op == "zero" {
			return true
		}
		b := valueField(v, "Bytes")
		return b != nil && r.owned(f, loop, b)
	}
	switch t.Op {
	case "seq":
		for _, a := range t.Args {
			if a.Op == "spread" {
				if a.Args[0].Op == "W" {
					if ok, why := p.gives(r, o, f, a.Args[0]); !ok {
						return false, why
					}
					continue
				}
				return false, "values from elsewhere are given"
			}
			if !value(f, nil, a) {
				return false, "the bytes of " + a.String() + " are not a copy"
			}
		}
		return true, ""
	case "mkslice", "W":
	default:
		return false, "the list given is not made for the reader"
	}
	b := r.chunksOf(o.st.log, t)
	if b == nil {
		if t.Op == "mkslice" {
			for k := range o.st.heap.m {
				if k.Op != "dirty" && root(k) == t {
					return false, "what is given is not known"
				}
			}
			return true, ""
		}
		return false, "what is given is not known"
	}
	for _, h := range b.head {
		if !value(f, nil, h) {
			return false, "the bytes of " + h.String() + " are not a copy"
		}
	}
	for _, ch := range b.chunks {
		loop := append([]*Term{b.li.id})
		for _, v := range ch.added {
			if !value(ch.it.facts, loop, v) {
				return false, "the bytes of " + v.String() + " are not a copy"
			}
		}
	}
	return true, ""
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}
