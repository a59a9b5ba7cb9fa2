package main

// C06 (records kept together).

import (
	"fmt"
	"strings"
)

func init() {
	props["C06"] = c06
}

// loopInfo is what the iterations of a loop do to the records.
type loopUse struct {
	wiped map[string]bool
	whole *Term // the user whose list it goes through, removing each session
	over  *Term
	gaps  bool // some iteration removes nothing
	walks bool // it goes on whenever an iteration succeeds
}

// allUnits: the units of every operation and background task of a provider.
func (c *Ctx) allUnits(p *Prov, f func(u *unit, uses map[*Term]*loopUse)) {
	c.allRuns(p, func(name string, r *Run, worker bool) {
		if name != "Close" {
			p.unitsUsed(name, r, f)
		}
	})
}

// unitsUsed: the units of one function, and what its loops do.
func (p *Prov) unitsUsed(name string, r *Run, f func(u *unit, uses map[*Term]*loopUse)) {
	var us []*unit
	p.units(name, r, func(u *unit) { us = append(us, u) })
	uses := map[*Term]*loopUse{}
	for _, u := range us {
		if u.li == nil {
			continue
		}
		l := uses[u.li.id]
		if l == nil {
			l = &loopUse{wiped: map[string]bool{}}
			uses[u.li.id] = l
		}
		for k := range u.wiped {
			l.wiped[k] = true
		}
		for t, x := range u.rems {
			if x.part["ids"] == nil {
				if over, _ := u.eachOf(t); over != nil {
					l.over, l.whole = over, p.listOfID(over)
				}
			}
		}
	}
	for _, u := range us {
		if u.li != nil && uses[u.li.id].over != nil && len(u.rems) == 0 && !u.goneAlready(uses[u.li.id].over) {
			uses[u.li.id].gaps = true
		}
	}
	for _, u := range us {
		f(u, uses)
	}
}

// eachOf: session t is that of the current entry of the list the loop goes through.
func (u *unit) eachOf(t *Term) (over, idx *Term) {
	if u.li == nil || t.Op != "elem" || u.p.listOfID(t.Args[0]) == nil || !u.r.counts(t.Args[1]) && !u.r.countsDown(t.Args[1], t.Args[0]) {
		return
	}
	if t.Args[1].any(func(x *Term) bool { return x.Op == "W" && !strings.HasPrefix(x.Aux, u.li.id.Aux+".") }) {
		return // a place in a list that another loop goes through
	}
	return t.Args[0], t.Args[1]
}

// goneAlready: the current entry of the list has no session.
func (u *unit) goneAlready(over *Term) bool {
	for k, v := range u.f {
		var g *Term
		if v && k.Op == "eq" {
			for j := 0; j < 2; j++ {
				if k.Args[j] == tNil {
					g = k.Args[1-j]
				}
			}
		}
		if !v && k.Op == "has" {
			g = k
		}
		if g != nil && (g.Op == "get" && isRole(g.Args[0], "metadata") || (g.Op == "has" || g.Op == "lookup") && isTokens(g.Args[0])) {
			if x := strip(g.Args[1]); x.Op == "elem" && x.Args[0] == over {
				return true
			}
		}
	}
	return false
}

// exhausted: the list of the session's user has been searched for it in vain,
// or there is none.
func (u *unit) exhausted(T *Term) bool {
	p := u.p
	for _, e := range u.evs {
		if e.Op == "mapget" && isIDs(e.Args[0]) || e.Op == "bolt.Get" && isRole(e.Args[0], "ids") {
			X := strip(e.Args[1])
			if p.idOf(u.f, X, T) && (e.Res == tNil || u.noList(u.f, X)) {
				return true
			}
		}
		if e.Op != "loop.done" || e.Args[1] == nil {
			continue
		}
		L := strip(e.Args[1])
		X := u.listOf(L)
		if X == nil || !u.userOf(X, T) {
			continue
		}
		if e.Args[2].isInt(0) {
			return true
		}
		li := u.r.loopOf(e)
		if li == nil {
			continue
		}
		n, searches := 0, true
		for _, it := range li.iters {
			if it.exit != "next" || it.over == nil || baseOf(strip(it.over)) != baseOf(L) {
				continue
			}
			ok, other := false, false
			for k, v := range it.facts {
				if v || k.Op != "eq" {
					continue
				}
				for j := 0; j < 2; j++ {
					x := strip(k.Args[j])
					if x.Op == "elem" && u.r.counts(x.Args[1]) && baseOf(strip(x.Args[0])) == baseOf(L) {
						if p.canonTok(k.Args[1-j]) == T {
							ok = true
						} else {
							other = true
						}
					}
				}
			}
			if ok {
				n++
			} else if !other {
				searches = false // other: a search for another session
			}
		}
		if searches && n > 0 {
			return true
		}
	}
	return false
}

// userOf: X is known to be the user of session T.
func (u *unit) userOf(X, T *Term) bool {
	if u.p.idOf(u.f, X, T) || u.sameUser(u.f, X, T) {
		return true
	}
	for _, e := range u.evs {
		if e.Op == "mapget" && isIDs(e.Args[0]) || e.Op == "bolt.Get" && isRole(e.Args[0], "ids") {
			if Y := strip(e.Args[1]); u.p.idOf(u.f, Y, T) && tri(u.f, mkEq(X, Y)) == yes {
				return true
			}
		}
	}
	return false
}

// absent: session T was known not to be stored.
func (u *unit) absent(f Facts, T *Term) bool {
	for k, v := range f {
		if !v && k.Op == "has" && isTokens(k.Args[0]) && u.p.canonTok(k.Args[1]) == T {
			return true
		}
		if v && k.Op == "eq" {
			for j := 0; j < 2; j++ {
				g := k.Args[1-j]
				if k.Args[j] != tNil {
					continue
				}
				if g.Op == "lookup" && isTokens(g.Args[0]) && u.p.canonTok(g.Args[1]) == T {
					return true
				}
				if g.Op == "get" && isRole(g.Args[0], "metadata") && u.p.canonTok(g.Args[1]) == T {
					return true
				}
			}
		}
	}
	for _, e := range u.evs {
		if e.Op == "bolt.Get" && e.Res == tNil && isRole(e.Args[0], "metadata") && u.p.canonTok(e.Args[1]) == T {
			return true
		}
	}
	return false
}
func lacks(r *rec, parts ...string) string {
	var out []string
	for _, x := range parts {
		if r.part[x] == nil {
			out = append(out, partName[x])
		}
	}
	return strings.Join(out, ", ")
}

var partName = map[string]string{"table": "the token table", "ids": "the list of its user", "age": "the age order", "data": "the data"}

func c06(c *Ctx) {
	c.rule("understood", "every change of the records adds or removes whole sessions", 30)
	c.rule("removed", "a session removed from one record is removed from all of them, in the same critical section", 30)
	c.rule("added", "a session added to one record is added to all of them, in the same critical section", 4)
	c.rule("new", "a session is added only under a token that has none", 4)
	c.rule("user", "all sessions of a user are removed together with the user's entry", 2)
	c.rule("count", "bolt's count changes by the number of sessions added less those removed", 20)
	c.rule("cleared", "what empties one record empties all of them", 1)
	for _, p := range c.providers() {
		if p.kind == "redis" {
			continue
		}
		parts := []string{"table", "age", "ids"}
		if p.kind == "bolt" {
			parts = append(parts, "data")
		}
		c.allUnits(p, func(u *unit, uses map[*Term]*loopUse) { c.together(p, u, uses, parts) })
	}
}
func (c *Ctx) together(p *Prov, u *unit, uses map[*Term]*loopUse, parts []string) {
	r := u.r
	inst := func(x string) string { return u.name + x }
	for _, b := range u.bad {
		c.obx("understood", r, u.o, b.e.Pos, inst(b.what), false, "%s: %s", b.what, b.e)
	}
	if len(u.bad) == 0 && (len(u.rems) > 0 || len(u.adds) > 0 || len(u.whole) > 0) {
		c.obx("understood", r, u.o, u.pos(), inst(""), true, "")
	}
	mine := map[string]*Event{}
	for k, e := range u.wiped {
		mine[k] = e
	}
	wholes := map[*Term]bool{}
	for _, e := range u.evs {
		if e.Op != "loop.done" && e.Op != "loop.break" {
			continue
		}
		l := uses[e.Args[0]]
		if l == nil {
			continue
		}
		for k := range l.wiped {
			if e.Op == "loop.done" {
				mine[k] = e
			}
		}
		if l.over == nil {
			continue
		}
		why := u.walked(e, l)
		wholes[l.whole] = true
		c.obx("user", r, u.o, u.pos(), inst(""), why == "", "%s", why)
	}
	for _, w := range u.whole {
		ok := wholes[w.id] || w.none || u.knownEmpty(w)
		if !ok {
			// the entry of a user with one session, removed with it
			c.obx("user", r, u.o, w.e.Pos, inst("whole"), false, "the entry of user %s is removed but not all of its sessions", w.id)
		}
	}
	if u.li == nil && len(mine) > 0 {
		var miss []string
		for _, k := range []string{"metadata", "data", "ids", "lru", "count"} {
			if mine[k] == nil {
				if k == "count" && u.noCount() {
					continue
				}
				miss = append(miss, k)
			}
		}
		if p.kind == "bolt" && !(len(mine) == 0) {
			c.obx("cleared", r, u.o, u.pos(), inst(""), len(miss) == 0, "%v is not emptied with the rest", miss)
		}
	}
	for t, x := range u.rems {
		miss := u.left(t, x, parts)
		pos := u.pos()
		for _, e := range x.part {
			pos = e.Pos
			break
		}
		for _, k := range []string{"table", "age", "ids", "data"} {
			if x.part[k] != nil {
				pos = x.part[k].Pos
				break
			}
		}
		c.obx("removed", r, u.o, pos, inst(""), miss == "", "the session %s is not removed from %s", t, miss)
	}
	for t, a := range u.adds {
		c.checkAdd(p, u, t, a, parts)
	}
	// re-keyed records
	if p.kind == "memory" {
		for i, e := range u.evs {
			if e.Op != "store" || e.Args[0].Op != "faddr" || isFresh(root(e.Args[0])) {
				continue
			}
			h := eleOf(e.Args[0].Args[0])
			if h == nil || typeStr(e.Args[1].Type) != "string" {
				continue
			}
			n := strings.ToLower(e.Args[0].Aux)
			isID := n == "id" || strings.HasSuffix(n, "id")
			if !isID && !strings.Contains(n, "access") {
				continue
			}
			t := p.canonEle(h)
			x := u.rems[t]
			why := ""
			switch {
			case isID:
				why = "the user of a stored session is changed"
			case x == nil || x.part["table"] == nil || x.part["age"] == nil:
				why = "the token of a stored session is changed"
			default:
				pushed := false
				for _, y := range u.evs[i:] {
					if strings.HasPrefix(y.Op, "list.Push") && unwrapIface(y.Args[1]) == e.Args[0].Args[0] {
						pushed = true
					}
				}
				if !pushed {
					why = "the token of a session is changed although it is not stored again"
				}
			}
			c.obx("understood", r, u.o, e.Pos, inst("rekey"), why == "", "%s", why)
		}
	}
	if p.kind == "bolt" && len(mine) == 0 {
		n := int64(0)
		for _, a := range u.adds {
			if a.part["table"] != nil {
				n++
			}
		}
		for _, x := range u.rems {
			if x.part["table"] != nil {
				n--
			}
		}
		if n != 0 || u.delta != 0 || len(u.rems) > 0 {
			ok := u.delta == n || u.short
			c.obx("count", r, u.o, u.pos(), inst(fmt.Sprint(n)), ok, "the count changes by %d while the sessions change by %d", u.delta, n)
		}
	}
}

// walked: a loop that removes the sessions of a user one by one removes all of them.
func (u *unit) walked(e *Event, l *loopUse) (why string) {
	switch {
	case e.Op == "loop.break":
		return "not all sessions of the user are removed"
	case l.gaps:
		return "a session of the user is passed over"
	case !u.r.wentThrough(u.f, l.over):
		return "the list of the user need not be gone through to its end"
	}
	why = "the entry of the user remains"
	for _, w := range u.whole {
		if w.id == l.whole {
			why = ""
		}
	}
	if e.Args[1] != nil && e.Args[1] != l.over && u.p.listOfID(e.Args[1]) == nil && e.Args[1].Op != "nil" && e.Args[1] != tNil {
		why = "not all sessions of the user are removed"
	}
	return
}

// knownEmpty: the user whose entry is removed has no sessions.
func (u *unit) knownEmpty(w *wholeID) bool {
	if u.noList(w.e.Facts, w.id) {
		return true
	}
	for k, v := range u.f {
		if v && k.Op == "eq" {
			for j := 0; j < 2; j++ {
				if k.Args[j].isInt(0) && k.Args[1-j].Op == "len" && u.p.listOfID(k.Args[1-j].Args[0]) == w.id {
					return true
				}
			}
		}
	}
	return false
}

// left: the records that a removed session stays in.
func (u *unit) left(t *Term, x *rec, parts []string) string {
	if x.part["ids"] == nil {
		if over, _ := u.eachOf(t); over != nil || u.exhausted(t) {
			parts = without(parts, "ids")
		}
	}
	return lacks(x, parts...)
}

// noCount: there is no count stored.
func (u *unit) noCount() bool {
	for _, e := range u.evs {
		if e.Op == "bolt.Get" && isRole(e.Args[0], "store") && (e.Res == tNil || tri(u.f, mkEq(e.Res, tNil)) == yes) {
			return true
		}
	}
	return false
}
func without(l []string, x string) []string {
	var out []string
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}
func (c *Ctx) checkAdd(p *Prov, u *unit, t *Term, a *rec, parts []string) {
	r := u.r
	if a.part["table"] == nil {
		var e *Event
		for _, x := range a.part {
			e = x
		}
		c.obx("added", r, u.o, e.Pos, u.name, false, "%s concerns a session that is not put into the token table", e)
		return
	}
	te := a.part["table"]
	at := 0
	for i, e := range u.evs {
		if e == te {
			at = i
		}
	}
	why := ""
	switch p.kind {
	case "memory":
		for _, e := range u.evs {
			if (strings.HasPrefix(e.Op, "list.Push") || strings.HasPrefix(e.Op, "list.Insert")) && e.Res == a.ele {
				a.part["age"] = e
			}
		}
		if m := lacks(a, parts...); m != "" {
			why = "the session is not put into " + m
		} else if u.o != nil {
			for _, x := range p.adds(r, u.o) {
				if x.e == te && p.canonTok(x.get("access")) != t {
					why = "the session stored under " + t.String() + " has another access token"
				}
			}
		}
	case "bolt":
		if m := lacks(a, parts...); m != "" {
			why = "the session is not put into " + m
		} else {
			ro := structRoles(a.ele)
			k := strip(a.part["age"].Args[1])
			if ro["seq"] == nil || k.Op != "be64" || k.Args[0] != ro["seq"] {
				why = "the age entry of the session is not the one its metadata tells"
			}
			if p.canonTok(ro["access"]) != t {
				why = "the session stored under " + t.String() + " has another access token"
			}
		}
	}
	c.obx("added", r, u.o, te.Pos, u.name, why == "", "%s", why)
	// there is none under this token
	ok := u.absent(te.Facts, t)
	if x := u.rems[t]; x != nil && x.part["table"] != nil {
		for i, e := range u.evs {
			if e == x.part["table"] && i < at {
				ok = true
			}
		}
	}
	c.obx("new", r, u.o, te.Pos, u.name, ok, "a session stored under %s before would be left in part of the records", t)
}
