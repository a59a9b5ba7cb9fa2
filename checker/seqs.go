package main

// Lists built element by element: what a loop makes of the list it runs over.

// listOf explains a list a loop built. It is the list over itself, or was made
// by loops that each add one element per iteration, or several at most.
type built struct {
	over  *Term   // the list the loop runs over (nil: a literal)
	elems []*Term // what an iteration adds, one term per variant
	exact bool    // every iteration adds exactly one element
	loop  *LoopInfo
	whole bool // the list is over itself
}

func emptyList(t *Term) bool {
	switch t.Op {
	case "nil":
		return true
	case "seq":
		return len(t.Args) == 0
	case "mkslice":
		return t.Args[0].isInt(0)
	case "asl":
		return len(t.Args) > 1 && t.Args[1].isInt(0)
	case "slice":
		return t.Args[1].isInt(0) && t.Args[2].isInt(0)
	}
	return false
}

// doneLoop: the path went through all of a loop.
func doneLoop(log []*Event, id *Term) *Event {
	for _, e := range log {
		if e.Op == "loop.done" && e.Args[0] == id {
			return e
		}
	}
	return nil
}

// builtList explains list t at the end of a path.
func (r *Run) builtList(log []*Event, t *Term) *built {
	return r.builtFrom(log, t, func(id *Term) *Event { return doneLoop(log, id) })
}
func (r *Run) builtFrom(log []*Event, t *Term, done func(id *Term) *Event) *built {
	switch t.Op {
	case "W":
		for _, li := range r.en.loops {
			c := li.contrib[t]
			if len(c) == 0 {
				continue
			}
			d := done(li.id)
			if d == nil {
				return nil
			}
			b := &built{over: d.Args[1], loop: li, exact: true}
			for i := range li.init[t] {
				if !emptyList(i) && !(i.Op == "W" && i == t) {
					// later iterations start from what the first has made
					ok := false
					if i.Op == "seq" {
						ok = len(i.Args) == 1 && i.Args[0].Op != "spread"
						if ok {
							b.add(i.Args[0])
						}
					}
					if !ok {
						return nil
					}
				}
			}
			for v := range c {
				switch {
				case v == t, emptyList(v):
					b.exact = false
				case v.Op == "seq":
					as := v.Args
					if len(as) > 0 && as[0].Op == "spread" && (as[0].Args[0] == t || emptyList(as[0].Args[0])) {
						as = as[1:]
					}
					if len(as) != 1 || as[0].Op == "spread" {
						return nil
					}
					b.add(as[0])
				default:
					return nil
				}
			}
			return b
		}
	case "mkslice", "asl":
		base := t
		if t.Op == "asl" {
			base = t.Args[0]
		}
		var found *built
		for _, li := range r.en.loops {
			b := &built{loop: li, exact: true}
			n := 0
			for _, it := range li.iters {
				if it.exit != "next" {
					continue
				}
				k, other := 0, false
				var at *Term
				var of *Term
				for _, e := range it.events {
					if e.Op != "store" {
						continue
					}
					a := e.Args[0]
					for a.Op == "faddr" {
						a = a.Args[0]
					}
					if a.Op != "idx" {
						continue
					}
					switch l := a.Args[0]; {
					case l == base || l == t:
						if at != a.Args[1] || of != l {
							k++
						}
						at, of = a.Args[1], l
					case l.Op == base.Op && l.Aux == base.Aux:
						other = true // a list made on another path
					}
				}
				if k > 1 {
					return nil
				}
				if k == 1 {
					v := r.elemAt(it, of, at)
					if v == nil || v.Op == "withs" {
						return nil
					}
					b.add(v)
					// at the place of the element it was made of
					if v.any(func(x *Term) bool { return x.Op == "elem" && !sameIndex(x.Args[1], at) }) {
						return nil
					}
				}
				n += k
				if k == 0 && other {
					continue
				}
				if k != 1 {
					b.exact = false
				}
			}
			if n == 0 {
				continue
			}
			d := done(li.id)
			if d == nil {
				return nil
			}
			b.over = d.Args[1]
			if found != nil {
				return nil
			}
			found = b
		}
		return found
	case "seq":
		if !seqHasSpread(t) {
			return &built{elems: t.Args, exact: true}
		}
		if len(t.Args) == 1 && t.Args[0].Op == "spread" {
			return r.builtFrom(log, t.Args[0].Args[0], done)
		}
	case "param", "lookup", "load", "res", "cmdval":
		return &built{over: t, whole: true, exact: true}
	}
	return nil
}
func sameIndex(a, b *Term) bool { return a == b }
func (b *built) add(t *Term) {
	for _, x := range b.elems {
		if x == t {
			return
		}
	}
	b.elems = append(b.elems, t)
}

// elemOfList: t is an element of list l; at which index.
func elemIndex(t, l *Term) *Term {
	if t.Op == "elem" && t.Args[0] == l {
		return t.Args[1]
	}
	return nil
}
