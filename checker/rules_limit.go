package main

// C07 (the session limit).

import (
	"strings"
)

func init() {
	props["C07"] = c07
}

// limits: the terms for the configured maximum that a path knows something of.
func limits(f Facts) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for k := range f {
		k.any(func(x *Term) bool {
			if optLoad(x, "maxSize") && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
			return false
		})
	}
	return out
}

// full: n is known to be (yes) or not to be (no) at least the maximum.
func full(f Facts, n *Term) int {
	for _, m := range limits(f) {
		if r := tri(f, mkLt(n, m)); r != unknown {
			return -r
		}
	}
	return unknown
}

// unlimited: yes if there is known to be no maximum, no if there is one.
func unlimited(f Facts) int {
	for _, m := range limits(f) {
		if r := tri(f, mkLt(mkInt(0), m)); r != unknown {
			return -r
		}
	}
	return unknown
}

// ageChange: the age order is changed.
func ageChange(e *Event) bool {
	switch e.Op {
	case "list.Remove", "list.PushBack", "list.PushFront", "list.Init", "list.MoveToBack", "list.MoveToFront", "list.MoveBefore", "list.MoveAfter", "list.InsertBefore", "list.InsertAfter",
		"list.PushBackList", "list.PushFrontList":
		return isLRU(e.Args[0])
	case "bolt.Put", "bolt.Delete", "bolt.CursorDelete":
		return e.Ok && isRole(e.Args[0], "lru")
	}
	return false
}

// counted: the number of sessions that an event finds out.
func (u *unit) counted(e *Event) *Term {
	switch {
	case e.Op == "list.Len" && isLRU(e.Args[0]):
		return e.Res
	case e.Op == "maplen" && isTokens(e.Args[0]):
		return e.Res
	case e.Op == "bolt.Get" && isRole(e.Args[0], "store") && e.Ok:
		v := strip(e.Res)
		if v == tNil || tri(u.f, mkEq(v, tNil)) == yes {
			return mkInt(0)
		}
		if v.Op == "be64" {
			return v.Args[0]
		}
		return mk("unbe64", "", nil, v)
	}
	return nil
}

// counts: what is known of the number of sessions: f is called with the number,
// and whether it still is the number when u.evs[at] happens.
func (u *unit) counts(at int, f func(n *Term, now bool)) {
	own := u.evs
	if len(u.log) >= len(own) {
		own = u.log
	}
	end := len(own)
	if at >= 0 && at < len(u.evs) {
		for i, e := range own {
			if e == u.evs[at] {
				end = i
			}
		}
	}
	for i, e := range own[:end] {
		n := u.counted(e)
		if n == nil {
			continue
		}
		n = u.known(n)
		now := true
		for _, x := range own[i+1 : end] {
			if ageChange(x) && x.Op != "list.Len" || x.Op == "bolt.Put" && isRole(x.Args[0], "store") {
				now = false
			}
		}
		f(n, now)
	}
}

// known finds the term the facts use for a number read from the store.
func (u *unit) known(n *Term) *Term {
	if n.Op != "unbe64" || n.Type != nil {
		return n
	}
	out := n
	for k := range u.f {
		k.any(func(x *Term) bool {
			if x.Op == "unbe64" && x.Args[0] == n.Args[0] {
				out = x
			}
			return false
		})
	}
	return out
}

// deadKnown: session t is known to be past its refresh lifetime.
func (p *Prov) deadKnown(f Facts, t *Term) bool {
	for k, v := range f {
		if k.Op != "lt" || v || k.Args[0] != tNow || deadline(k.Args[1]) != "refresh" {
			continue
		}
		h := holder(k.Args[1])
		if p.kind == "memory" {
			if e := eleOf(h); e != nil && p.canonEle(e) == t {
				return true
			}
		} else if x := mdToken(h); x != nil && p.canonTok(x) == t {
			return true
		}
	}
	return false
}

// noneLeft: there is known to be no session in the age order.
func (u *unit) noneLeft(uses map[*Term]*loopUse) bool {
	is := func(x *Term) bool {
		if x.Op == "old" {
			x = x.Args[0]
		}
		return x.Op == "listfront" && isLRU(x.Args[0]) || x.Op == "listback" && isLRU(x.Args[0])
	}
	for k, v := range u.f {
		// each session in the age order is in the table, see C06
		if k.Op == "has" && !v && isTokens(k.Args[0]) && is(u.p.canonTok(k.Args[1])) {
			return true
		}
		if v && k.Op == "eq" {
			for j := 0; j < 2; j++ {
				x := k.Args[1-j]
				if k.Args[j] == tNil && is(x) {
					return true
				}
				if k.Args[j].isInt(0) && x.Op == "listlen" && isLRU(x.Args[0]) {
					return true
				}
			}
		}
	}
	for _, e := range u.evs {
		if e.Op == "bolt.Cursor" && e.Res == tNil && isRole(e.Args[0], "lru") && e.how() != "Prev" {
			return true
		}
		if e.Op == "loop.done" && u.strays(e) {
			return true
		}
	}
	return false
}

// strays: a finished loop has gone through the whole age order and found only
// entries without a session.
func (u *unit) strays(e *Event) bool {
	li := u.r.loopOf(e)
	if li == nil {
		return false
	}
	n := 0
	for _, it := range li.iters {
		if it.exit != "next" {
			continue
		}
		if !u.onlyStray(li, it) {
			return false
		}
		n++
	}
	return n > 0
}

// onlyStray: the iteration goes past an entry of the age order that has no session.
func (u *unit) onlyStray(li *LoopInfo, it *Iter) bool {
	x := &unit{p: u.p, r: u.r, name: u.name, it: it, li: li, log: it.st.log, evs: it.events, f: it.facts}
	var cur *Term
	for _, e := range it.events {
		if e.Op == "bolt.Get" && isRole(e.Args[0], "metadata") {
			cur = u.p.canonTok(e.Args[1])
		}
	}
	if cur == nil || cur.Op != "cval" || !x.absent(x.f, cur) {
		return false
	}
	for _, e := range it.events {
		if e.Op == "bolt.Cursor" && e.Res != nil && e.Res != tNil && !strings.HasPrefix(e.Res.Aux, "Next@") {
			return false
		}
	}
	return true
}

// oldest: session t, removed by the event, is the one at the old end of the age order.
func (u *unit) oldest(t *Term, x *rec) (why string) {
	e := x.part["age"]
	if e == nil {
		return "its place in the age order is not known"
	}
	if u.p.kind == "memory" {
		if t.Op != "listfront" || !isLRU(t.Args[0]) {
			return "it is not the one at the front of the age order"
		}
		seen := false
		for _, y := range u.log {
			if y == e {
				break
			}
			if y.Op == "list.Front" && y.Res == t {
				seen = true
			} else if seen && ageChange(y) {
				return "the age order is changed after its front has been looked at"
			}
		}
		return ""
	}
	if t.Op != "cval" {
		return "it is not found in the age order"
	}
	k := t.Args[0]
	if k.Op == "old" {
		k = k.Args[0]
	}
	if k.Op != "ckey" || !isRole(k.Args[0], "lru") {
		return "it is not found in the age order"
	}
	switch {
	case strings.HasPrefix(k.Aux, "First@"):
		return ""
	case strings.HasPrefix(k.Aux, "Next@"), strings.HasPrefix(k.Aux, "Each"):
		// all before it were entries without a session
		for _, li := range u.r.en.loops {
			uses := false
			for _, it := range li.iters {
				for _, y := range it.events {
					if y.Op == "bolt.Cursor" && y.Res == k {
						uses = true
					}
				}
			}
			if !uses {
				continue
			}
			for _, it := range li.iters {
				if it.exit == "next" && !u.onlyStray(li, it) {
					return "older sessions are passed over"
				}
			}
			return ""
		}
	}
	return "it is not the first in the age order"
}

func c07(c *Ctx) {
	c.rule("room", "a session is added only when there is no limit, the limit is not reached, or another session has been removed", 2)
	c.rule("full", "a session makes room only when there is a limit and it is reached", 2)
	c.rule("oldest", "the session that makes room is the one at the old end of the age order", 2)
	c.rule("young", "a session created or refreshed goes to the young end of the age order", 4)
	c.rule("order", "nothing else changes the age order", 4)
	for _, p := range c.providers() {
		if p.kind == "redis" {
			continue
		}
		c.allUnits(p, func(u *unit, uses map[*Term]*loopUse) { c.limit(p, u, uses) })
		// refreshing makes a session the youngest
		c.ops([]string{p.kind}, []string{"Refresh"}, func(p *Prov, op string, r *Run) {
			seen := map[*Outcome]bool{}
			p.units(op, r, func(u *unit) {
				for _, a := range u.adds {
					if u.ageOfAdd(a) != nil && u.o != nil {
						seen[u.o] = true
					}
				}
			})
			r.exits(func(o *Outcome) {
				if class, _ := c.errOf(o); class == "nil" {
					c.ob("young", r, o, o.pos, seen[o], "a refreshed session keeps its age")
				}
			})
		})
	}
}

// ageOfAdd: the event that puts an added session into the age order.
func (u *unit) ageOfAdd(a *rec) *Event {
	if e := a.part["age"]; e != nil {
		return e
	}
	for _, e := range u.evs {
		if u.p.kind == "memory" && (strings.HasPrefix(e.Op, "list.Push") || strings.HasPrefix(e.Op, "list.Insert")) && e.Res == a.ele {
			return e
		}
	}
	return nil
}

func (c *Ctx) limit(p *Prov, u *unit, uses map[*Term]*loopUse) {
	r := u.r
	if u.name == "Destroy" || u.name == "DestroyByToken" || u.name == "Clear" {
		return
	}
	index := func(e *Event) int {
		for i, x := range u.evs {
			if x == e {
				return i
			}
		}
		return -1
	}
	// what is added
	for t, a := range u.adds {
		te := a.part["table"]
		if te == nil {
			continue
		}
		ok := unlimited(u.f) == yes || u.noneLeft(uses)
		for _, x := range u.rems {
			if y := x.part["table"]; y != nil && index(y) < index(te) {
				ok = true
			}
		}
		u.counts(index(te), func(n *Term, now bool) {
			if full(te.Facts, n) == no {
				ok = true
			}
		})
		c.obx("room", r, u.o, te.Pos, u.name, ok, "the session %s is added although the limit may be reached", t)
		e := u.ageOfAdd(a)
		if e == nil {
			continue // see C06
		}
		young := false
		switch p.kind {
		case "memory":
			young = e.Op == "list.PushBack"
		case "bolt":
			k := strip(e.Args[1])
			young = k.Op == "be64" && k.Args[0].Op == "seqno" && isRole(k.Args[0].Args[0], "lru")
		}
		c.obx("young", r, u.o, e.Pos, u.name, young, "the session is not put at the young end: %s", e)
	}
	// what makes room
	for t, x := range u.rems {
		if u.asked(t) || p.deadKnown(u.f, t) {
			continue
		}
		first := u.evs[x.first]
		is := false
		u.counts(x.first, func(n *Term, now bool) {
			if now && full(first.Facts, n) == yes {
				is = true
			}
		})
		why := ""
		switch {
		case unlimited(first.Facts) != no:
			why = "although there may be no limit"
		case !is:
			why = "although the limit need not be reached"
		}
		for y, z := range u.rems {
			if why == "" && u.asked(y) && z.first > x.first {
				why = "although removing " + y.String() + " makes the room needed"
			}
		}
		c.obx("full", r, u.o, first.Pos, u.name, why == "", "the session %s is removed %s", t, why)
		why = u.oldest(t, x)
		c.obx("oldest", r, u.o, first.Pos, u.name, why == "", "the session %s is removed, but %s", t, why)
	}
	// the age order
	for _, e := range u.evs {
		bad := ""
		switch e.Op {
		case "list.MoveToBack", "list.MoveToFront", "list.MoveBefore", "list.MoveAfter", "list.InsertBefore", "list.InsertAfter", "list.PushFront", "list.PushBackList", "list.PushFrontList":
			if isLRU(e.Args[0]) {
				bad = e.Op
			}
		case "bolt.SetSequence":
			bad = e.Op
		case "bolt.Put":
			if !isRole(e.Args[0], "lru") {
				continue
			}
			for _, a := range u.adds {
				if a.part["age"] == e {
					c.obx("order", r, u.o, e.Pos, u.name, true, "")
					bad = "-"
				}
			}
			if bad == "-" {
				continue
			}
			bad = "a session not added gets a new place"
		case "list.PushBack":
			if isLRU(e.Args[0]) {
				c.obx("order", r, u.o, e.Pos, u.name, true, "")
			}
		}
		if bad != "" {
			c.obx("order", r, u.o, e.Pos, u.name, false, "the age order is changed: %s", e)
		}
	}
}

// asked: session t is one the caller of the operation named.
func (u *unit) asked(t *Term) bool {
	fn := u.r.fn
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if par(fn, i) == t {
			return true
		}
	}
	return false
}
