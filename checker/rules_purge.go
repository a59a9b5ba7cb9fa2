package main

// C18 (background purging).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C18"] = c18
}

// deadNow: session t is known dead from what was read in the critical section,
// or transaction, of event e.
func (p *Prov) deadNow(e *Event, t *Term) bool {
	for k, v := range e.Facts {
		if k.Op != "lt" || v || k.Args[0] != tNow || deadline(k.Args[1]) != "refresh" {
			continue
		}
		if p.ownerOf(k.Args[1]) == t && p.sameSection(e, k.Args[1]) {
			return true
		}
	}
	return false
}

// ownerOf: the session a deadline belongs to.
func (p *Prov) ownerOf(d *Term) *Term {
	h := holder(d)
	if p.kind == "memory" {
		if e := eleOf(h); e != nil {
			return p.canonEle(e)
		}
	} else if x := mdToken(h); x != nil {
		return p.canonTok(x)
	}
	return nil
}
func (p *Prov) sameSection(e *Event, d *Term) bool {
	if p.kind == "bolt" {
		ok := false
		d.any(func(x *Term) bool {
			ok = ok || x == e.Tx
			return false
		})
		return ok && e.Tx != nil
	}
	return !d.any(func(x *Term) bool {
		return x.Op == "load" && len(x.Args) > 1 && x.Args[1] != e.Epoch && x.Args[1].Op == "epoch"
	})
}

// received: what an event takes from a channel.
func (e *Event) received() (ch, v *Term) {
	switch e.Op {
	case "recv":
		return e.Args[0], e.Res
	case "select", "selectnb":
		i, ok := e.Args[0].intVal()
		if !ok || int(i)+1 >= len(e.Args) || i < 0 {
			return nil, nil
		}
		if cs := e.Args[i+1]; cs.Op == "case" && cs.Aux == "recv" {
			return cs.Args[0], e.Res
		}
	}
	return nil, nil
}

// purge is what the rules of C18 know of a provider.
type purge struct {
	c       *Ctx
	p       *Prov
	sig     map[string]bool
	reports map[string]bool // the fields with the channels of reported sessions
}

// over: the provider is closed, as far as a path can tell.
func (g *purge) over(log []*Event, f Facts) bool {
	if _, cl := g.p.closedFacts(f); len(cl) > 0 {
		return true
	}
	for _, e := range log {
		if ch, _ := e.received(); ch != nil && closing(g.sig, ch) {
			return true
		}
	}
	for k, v := range f {
		if k.Op == "eq" && !v {
			for j := 0; j < 2; j++ {
				if x := k.Args[1-j]; k.Args[j] == tNil && x.Aux == "(context.Context).Err" && len(x.Args) > 0 && g.sig[chanField(unwrapIface(x.Args[0]))] {
					return true
				}
			}
		}
	}
	return false
}

// failedTx: a step of the transaction failed and it is rolled back; giving up
// with an error of its own is no failure.
func failedTx(log []*Event) bool {
	for _, e := range log {
		switch e.Op {
		case "tx.rollback":
			t := e.Res
			if t == nil || t.any(func(x *Term) bool { return x.Op == "errv" }) || t.Op == "W" {
				return true
			}
		case "tx.commitfail":
			return true
		case "tx.begin":
			if !e.Ok {
				return true
			}
		}
	}
	return false
}

// got is a session that a background task has received.
type got struct {
	v  *Term
	at int   // where in the iteration of the outer loop
	it *Iter // the iteration in which it was received
}

// carries: container t has what x stands for.
func (g *purge) carries(r *Run, t *Term, x *got) bool {
	seen := map[*Term]bool{}
	var in func(t *Term) bool
	is := func(t *Term) bool { return strip(t) == strip(x.v) }
	in = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if is(t) {
			return true
		}
		// put in when it was received
		for _, e := range x.it.events {
			if e.Op == "mapset" && e.Args[0] == t && (is(e.Args[1]) || is(e.Args[2])) {
				return true
			}
		}
		for n := range x.it.next[t] {
			if n.Op == "seq" {
				for _, a := range n.Args {
					if is(a) {
						return true
					}
				}
			}
		}
		for _, e := range r.en.events {
			if e.Op == "mapset" && e.Args[0] == t && (!is(e.Args[1]) && in(e.Args[1]) || !is(e.Args[2]) && in(e.Args[2])) {
				return true
			}
		}
		switch t.Op {
		case "seq", "spread", "bcopy", "old":
			for _, a := range t.Args {
				if in(a) {
					return true
				}
			}
		case "W":
			for _, li := range r.en.loops {
				for a := range li.contrib[t] {
					if a.any(func(y *Term) bool { return y == t }) {
						continue
					}
					if in(a) {
						return true
					}
				}
				for a := range li.init[t] {
					if in(a) {
						return true
					}
				}
			}
		}
		return false
	}
	return in(t)
}

// keyAt: what an iteration over a container is about.
func keyAt(it *Iter, over *Term) func(t *Term) bool {
	return func(t *Term) bool {
		t = strip(t)
		for t != nil && t.Op == "old" {
			t = t.Args[0]
		}
		return t != nil && (t.Op == "mkey" || t.Op == "elem" && t.Args[0] == over || t == strip(it.idx))
	}
}

// settles: the loop leaves nothing of what it goes through unexamined.
func (g *purge) settles(r *Run, li *LoopInfo, over *Term) bool {
	n := 0
	for _, it := range li.iters {
		if it.exit != "next" || it.over != nil && it.over != over {
			continue
		}
		n++
		if failedTx(it.events) {
			continue
		}
		if g.p.kind == "redis" {
			ok := false
			is := keyAt(it, over)
			for _, e := range it.events {
				if c := redisCmd(e); isRedis(e) && (c == "Del" || c == "Unlink") {
					for _, a := range e.Args[1:] {
						ok = ok || is(a) || a.Op == "seq" && len(a.Args) == 1 && is(a.Args[0])
					}
				}
			}
			if !ok {
				return false
			}
			continue
		}
		if !g.settled(r, it.st.log, it.events, it.facts, it, li, keyAt(it, over)) {
			return false
		}
	}
	return n > 0
}

// settled: session K is gone, alive, or removed.
func (g *purge) settled(r *Run, log, evs []*Event, f Facts, it *Iter, li *LoopInfo, is func(t *Term) bool) bool {
	p := g.p
	u := &unit{p: p, r: r, it: it, li: li, log: log, evs: evs, f: f}
	u.read()
	for t := range u.rems {
		if is(t) {
			return true
		}
	}
	for k, v := range f {
		switch {
		case k.Op == "has" && !v && isTokens(k.Args[0]) && is(k.Args[1]):
			return true
		case k.Op == "eq" && v:
			for j := 0; j < 2; j++ {
				x := k.Args[1-j]
				if k.Args[j] == tNil && (x.Op == "lookup" && isTokens(x.Args[0]) || x.Op == "get" && isRole(x.Args[0], "metadata")) && is(x.Args[1]) {
					return true
				}
			}
		case k.Op == "lt" && v && k.Args[0] == tNow && deadline(k.Args[1]) == "refresh":
			if o := p.ownerOf(k.Args[1]); o != nil && is(o) {
				return true
			}
		}
	}
	for _, e := range evs {
		if e.Op == "bolt.Get" && e.Res == tNil && isRole(e.Args[0], "metadata") && is(e.Args[1]) {
			return true
		}
	}
	return false
}

// deletes: event e of a redis worker removes what has been reported; src is the
// container that it takes it from, and by the loop that lists it.
func (g *purge) deletes(r *Run, log []*Event, e *Event, x *got) (ok bool, by *LoopInfo, src *Term) {
	if c := redisCmd(e); c != "Del" && c != "Unlink" {
		return false, nil, nil
	}
	for _, a := range e.Args[1:] {
		if a.Op == "spread" {
			a = a.Args[0]
		}
		if a.Op == "seq" && len(a.Args) == 1 && a.Args[0].Op == "spread" {
			a = a.Args[0].Args[0]
		}
		if b := r.builtList(log, a); b != nil && b.exact && b.over != nil && len(b.elems) > 0 && g.carries(r, b.over, x) {
			ok := true
			for _, x := range b.elems {
				x = strip(x)
				ok = ok && (x.Op == "mkey" || x.Op == "elem")
			}
			if ok {
				return true, b.loop, b.over
			}
		}
		if g.carries(r, a, x) {
			return true, nil, a
		}
	}
	return false, nil, nil
}

// handled: after it is received x is examined.
func (g *purge) handled(r *Run, log []*Event, f Facts, x *got) (bool, string) {
	cleared := map[*Term]int{} // containers that lost elements, and since when
	clear := func(m *Term, i int) {
		if _, ok := cleared[m]; !ok {
			cleared[m] = i
		}
	}
	for i := x.at; i < len(log); i++ {
		e := log[i]
		switch {
		case e.Op == "mapdel":
			clear(e.Args[0], i)
		case e.Op == "loop.done" || e.Op == "loop.break":
			li := r.loopOf(e)
			if li == nil {
				continue
			}
			over := e.Args[1]
			if e.Op == "loop.done" && over != nil && over != tNil && g.carries(r, over, x) {
				if _, gone := cleared[over]; !gone && g.settles(r, li, over) {
					return true, ""
				}
			}
			for _, it := range li.iters {
				for _, y := range it.events {
					if y.Op == "mapdel" {
						clear(y.Args[0], i)
					}
				}
			}
		case g.p.kind == "redis" && isRedis(e):
			ok, by, src := g.deletes(r, log, e, x)
			if !ok {
				continue
			}
			until := i
			if by != nil {
				for j := x.at; j < i; j++ {
					if log[j].Op == "loop.done" && log[j].Args[0] == by.id {
						until = j
					}
				}
			}
			if j, gone := cleared[src]; gone && j < until {
				return false, "is forgotten before it is looked at"
			}
			return true, ""
		}
	}
	if g.p.kind != "redis" && g.settled(r, log, log[x.at:], f, nil, nil, func(t *Term) bool { return strip(t) == strip(x.v) }) {
		return true, ""
	}
	return false, "is not looked at"
}

// forgotten: what a round of loop li had collected in src is not there in the next.
func (g *purge) forgotten(r *Run, li *LoopInfo, it *Iter, at int, by *LoopInfo, src *Term) bool {
	empties := func(l *LoopInfo) bool {
		n := 0
		for _, x := range l.iters {
			if x.exit != "next" || x.over != nil && x.over != src {
				continue
			}
			n++
			is := keyAt(x, src)
			ok := false
			for _, e := range x.events {
				ok = ok || e.Op == "mapdel" && e.Args[0] == src && is(e.Args[1])
			}
			if !ok {
				return false
			}
		}
		return n > 0
	}
	if by != nil && empties(by) {
		return true
	}
	for i, e := range it.events {
		if e.Op == "loop.done" && e.Args[1] == src {
			if l := r.loopOf(e); l != nil && empties(l) {
				return true
			}
		}
		if e.Op == "mapclear" && e.Args[0] == src && i >= 0 {
			return true
		}
	}
	_ = at
	// it is made anew
	kept := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "W" {
			if len(li.init[t]) > 0 {
				for n := range it.next[t] {
					kept = kept || !emptyList(n)
				}
				kept = kept || len(it.next[t]) == 0 || strings.HasPrefix(t.Aux, strings.TrimSuffix(li.id.Aux, ">")+".map")
				return
			}
			if strings.HasPrefix(t.Aux, li.id.Aux+".map") {
				kept = true
				return
			}
			for _, l := range r.en.loops {
				for x := range l.init[t] {
					walk(x)
				}
				for x := range l.contrib[t] {
					walk(x)
				}
			}
		}
		if ms := it.st.maps.m[t]; ms != nil {
			walk(ms.base)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(src)
	return !kept
}

// swept: at the end of the log nothing dead is left at the old end.
func (g *purge) swept(r *Run, log []*Event, f Facts) bool {
	p := g.p
	alive := func(t *Term) bool {
		for k, v := range f {
			if v && k.Op == "lt" && k.Args[0] == tNow && deadline(k.Args[1]) == "refresh" && p.ownerOf(k.Args[1]) == t {
				return true
			}
		}
		return false
	}
	var last *Event
	looped := false
	for _, e := range log {
		if e.Op == "loop.done" || e.Op == "loop.break" {
			li := r.loopOf(e)
			if li != nil && e.Op == "loop.done" && r.nilExit(li) {
				return true
			}
			looped = looped || li != nil && li.fromFront()
		}
		if p.kind == "memory" {
			switch {
			case e.Op == "list.Front", e.Op == "list.Next":
				last = e
			case ageChange(e):
				last, looped = nil, false
			}
			continue
		}
		switch e.Op {
		case "bolt.Cursor":
			last = nil
			if how := e.how(); isRole(e.Args[0], "lru") && (how == "First" || how == "Next") {
				last = e
			}
		case "bolt.Get":
			if t := p.canonTok(e.Args[1]); isRole(e.Args[0], "metadata") && t != nil && t.Op == "cval" {
				if k := t.Args[0]; onCursor(k) {
					if k.Op == "old" {
						k = k.Args[0]
					}
					if (strings.HasPrefix(k.Aux, "First@") || strings.HasPrefix(k.Aux, "Next@") || strings.HasPrefix(k.Aux, "Each")) && isRole(k.Args[0], "lru") && alive(t) {
						return true
					}
				}
			}
		}
	}
	for k, v := range f {
		if !v || k.Op != "eq" {
			continue
		}
		for j := 0; j < 2; j++ {
			if x := k.Args[1-j]; k.Args[j].isInt(0) && x.Op == "listlen" && isLRU(x.Args[0]) {
				return true
			}
		}
	}
	if p.kind == "memory" && looped {
		// the element at which the loop stopped
		for k, v := range f {
			if v && k.Op == "lt" && k.Args[0] == tNow && deadline(k.Args[1]) == "refresh" {
				if e := eleOf(holder(k.Args[1])); e != nil {
					if r.oldEnd(e, map[*Term]bool{}) {
						return true
					}
				}
			}
		}
	}
	if last == nil || last.Res == nil {
		return false
	}
	if last.Res == tNil || tri(f, mkEq(last.Res, tNil)) == yes {
		return true
	}
	if p.kind == "memory" {
		return alive(p.canonEle(last.Res))
	}
	return false
}

// fromFront: the loop goes through the age order from its old end.
func (li *LoopInfo) fromFront() bool {
	for _, it := range li.iters {
		for _, e := range it.events {
			if e.Op == "bolt.Cursor" && isRole(e.Args[0], "lru") || e.Op == "list.Front" && isLRU(e.Args[0]) || e.Op == "list.Remove" && isLRU(e.Args[0]) {
				return true
			}
		}
	}
	return false
}

// oldEnd: e is an element of the age order counted from its old end.
func (r *Run) oldEnd(e *Term, seen map[*Term]bool) bool {
	for e.Op == "old" {
		e = e.Args[0]
	}
	if seen[e] {
		return true
	}
	seen[e] = true
	switch e.Op {
	case "listfront":
		return isLRU(e.Args[0])
	case "listnext":
		return e.Aux == "Next" && r.oldEnd(e.Args[0], seen)
	case "W":
		n := 0
		for _, li := range r.en.loops {
			for _, m := range []map[*Term]bool{li.init[e], li.contrib[e]} {
				for t := range m {
					n++
					if t != tNil && !r.oldEnd(t, seen) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// nilExit: the loop goes through the age order from its old end, and is done
// only when there is no more of it.
func (r *Run) nilExit(li *LoopInfo) bool {
	if !li.fromFront() {
		return false
	}
	if li.head == nil {
		return true
	}
	i, ok := li.head.Instrs[len(li.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	// none are left
	for _, v := range []ssa.Value{b.X, b.Y} {
		if c, ok := v.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.String() == "(*container/list.List).Len" {
				k, ok := b.Y.(*ssa.Const)
				return ok && v == b.X && k.Value != nil && k.Int64() == 0 && (b.Op == token.GTR || b.Op == token.NEQ || b.Op == token.EQL)
			}
		}
	}
	if b.Op != token.NEQ && b.Op != token.EQL {
		return false
	}
	isNil := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value == nil
	}
	if !isNil(b.X) && !isNil(b.Y) {
		return false
	}
	x := b.X
	if isNil(x) {
		x = b.Y
	}
	if p, ok := x.Type().Underlying().(*types.Pointer); ok && types.TypeString(p.Elem(), nil) == "container/list.Element" {
		return fromFront(x, map[ssa.Value]bool{})
	}
	s, ok := x.Type().Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte])
}

// fromFront: the value is the first element of a list, or the next one.
func fromFront(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !fromFront(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.String() == "(*container/list.List).Front" || f.String() == "(*container/list.Element).Next"
		}
	}
	return false
}

// emptied: the log has a loop over a map that is found empty although
// something was put into it, which cannot be.
func (r *Run) emptied(log []*Event) bool {
	put := map[*Term]bool{}
	for _, e := range log {
		switch e.Op {
		case "mapset":
			put[e.Args[0]] = true
		case "mapdel":
			delete(put, e.Args[0])
		case "loop.done", "loop.break":
			if e.Op == "loop.done" && e.Args[2].isInt(0) && put[e.Args[1]] {
				return true
			}
			if li := r.loopOf(e); li != nil {
				for _, it := range li.iters {
					for _, x := range it.events {
						if x.Op == "mapdel" {
							delete(put, x.Args[0])
						}
					}
				}
			}
		}
	}
	return false
}

func c18(c *Ctx) {
	c.rule("dead", "a background task removes a session only when it is found dead in the same critical section", 2)
	c.rule("purged", "a session that a background task finds dead is removed by it", 2)
	c.rule("reported", "every session reported is looked at, and removed if dead", 3)
	c.rule("sweep", "each tick removes what is dead from the old end of the age order until nothing dead is left there", 2)
	c.rule("lasting", "a background task ends only once the provider is closed", 3)
	c.rule("ends", "a background task waits for nothing without waiting for the provider to be closed, and ends then", 5)
	c.rule("rests", "a background task does not go round while there is nothing for it to do", 0)
	c.rule("started", "the constructor starts the background tasks", 3)
	c.rule("found", "an access that finds a dead session reports or removes it", 10)
	c.rule("forgotten", "what a background task removed from redis is not removed again in a later round", 0)
	c.rule("told", "only sessions found dead, missing or unreadable are reported", 3)
	for _, p := range c.providers() {
		g := &purge{c: c, p: p, sig: c.signals(p), reports: map[string]bool{}}
		c.ob("ends", c.run(p.m["Close"]), nil, p.m["Close"].Pos(), len(g.sig) > 0, "Close tells the background tasks nothing")
		c.run(p.m["Close"]).exits(func(o *Outcome) {
			if class, _ := c.errOf(o); class != "nil" {
				return
			}
			ok := false
			for _, e := range o.st.log {
				if e.Op == "cancel" || e.Op == "close" && g.sig[chanField(e.Args[0])] {
					ok = true
				}
			}
			c.obx("ends", c.run(p.m["Close"]), o, o.pos, "Close", ok, "Close does not end the background tasks")
		})
		c.ops([]string{p.kind}, providerOps, func(p *Prov, op string, r *Run) { g.access(op, r) })
		if len(g.reports) == 0 {
			c.fail("no session is ever reported to the background task of the " + p.kind + " provider")
		}
		takes, ticks := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		for _, w := range c.workersOf(p) {
			t, k := g.task(w)
			takes[w.fn], ticks[w.fn] = t, k
		}
		cr := c.run(p.ctor)
		cr.exits(func(o *Outcome) {
			if class, e := c.errOf(o); e.Type != nil && typeStr(e.Type) == "error" && class != "nil" && class != "" {
				return
			}
			t, k := false, false
			for _, e := range o.st.log {
				if e.Op != "go" {
					continue
				}
				fn, _ := e.Args[0].Obj.(*ssa.Function)
				t = t || takes[fn]
				k = k || ticks[fn]
			}
			c.obx("started", cr, o, o.pos, "reports", t, "nothing takes the sessions that are reported")
			if p.kind != "redis" {
				off := false
				for x, v := range o.st.facts.m {
					if x.Op == "lt" && (optOf(x.Args[1], "clear") && !v && x.Args[0].isInt(0) || optOf(x.Args[0], "clear") && v && x.Args[1].isInt(1)) {
						off = true
					}
				}
				c.obx("started", cr, o, o.pos, "clear", k || off, "there is no regular purge although there is an interval")
			}
		})
	}
}

// optOf: the value of an option while the provider is made.
func optOf(t *Term, name string) bool {
	return optLoad(t, name) || t.any(func(x *Term) bool { return (x.Op == "faddr" || x.Op == "field") && x.Aux == name })
}

// access checks what an operation does about dead sessions.
func (g *purge) access(op string, r *Run) {
	c, p := g.c, g.p
	removed := map[*Outcome]map[*Term]bool{}
	if p.kind != "redis" {
		p.units(op, r, func(u *unit) {
			if u.o == nil {
				return
			}
			if removed[u.o] == nil {
				removed[u.o] = map[*Term]bool{}
			}
			for t := range u.rems {
				removed[u.o][t] = true
			}
		})
	}
	for _, e := range r.en.events {
		ch, v := e.sent()
		if ch == nil || isFresh(ch) {
			continue
		}
		if k := chanField(ch); k != "" {
			g.reports[k] = true
		}
		if p.kind != "redis" {
			continue
		}
		K := p.tokenOfKey(v)
		ok := K != nil && (some(p.sessions(e.Facts, K), func(s *Sess) bool { return s.dead == yes || s.exists == no }) || g.unreadable(r, e, K))
		c.obx("told", r, nil, e.Pos, op, ok, "%v is reported, which is not found dead", v)
	}
	r.exits(func(o *Outcome) {
		f := Facts(o.st.facts.m)
		for i := 0; i < r.fn.Signature.Params().Len(); i++ {
			K := par(r.fn, i)
			if K == nil || !isString(K.Type) {
				continue
			}
			if !some(p.sessions(f, K), func(s *Sess) bool { return s.dead == yes }) {
				continue
			}
			ok := removed[o][p.canonTok(K)]
			for j, e := range o.st.log {
				if ch, v := e.sent(); ch != nil && chanField(ch) != "" {
					if strip(v) == K || p.tokenOfKey(v) == K {
						ok = true
					}
				}
				if ch, _ := e.received(); ch != nil && closing(g.sig, ch) {
					ok = true
				}
				if p.kind == "redis" && isRedis(e) && e.Ok {
					if x := redisCmd(e); x == "Del" || x == "Unlink" {
						ks, _ := redisKeys(e)
						for _, k := range ks {
							ok = ok || p.tokenOfKey(k) == K
						}
					}
				}
				if !e.Ok && e.Op != "split" && !strings.HasPrefix(e.Op, "redis.watch") && failedAfter(o.st.log, j, p) {
					ok = true
				}
			}
			if _, cl := p.closedFacts(f); len(cl) > 0 {
				ok = true
			}
			c.obx("found", r, o, o.pos, op, ok, "a dead session is found and left where it is")
		}
	})
}

// unreadable: wherever e happens, the metadata of session K could not be
// decoded.
func (g *purge) unreadable(r *Run, e *Event, K *Term) bool {
	n, ok := 0, true
	see := func(log []*Event) {
		bad := false
		for _, x := range log {
			if x.Op == "decode" && !x.Ok && x.Args[1].any(func(t *Term) bool { return g.p.isReading(t, K) }) {
				bad = true
			}
			if x == e {
				n++
				ok = ok && bad
			}
		}
	}
	r.exits(func(o *Outcome) { see(o.st.log) })
	for _, li := range r.en.loops {
		for _, it := range li.iters {
			see(it.events)
		}
	}
	return n > 0 && ok
}

// failedAfter: the step that failed is the reason for the operation to end.
func failedAfter(log []*Event, i int, p *Prov) bool {
	switch log[i].Op {
	case "tx.rollback", "decode":
		return false
	}
	return true
}

// task checks a background task: whether it takes reports, and ticks.
func (g *purge) task(w *Worker) (takes, ticks bool) {
	c, p, r := g.c, g.p, w.run
	kindOf := func(ch *Term) string {
		switch {
		case closing(g.sig, ch):
			return "close"
		case g.reports[chanField(ch)]:
			return "report"
		}
		return "tick"
	}
	// removing
	if p.kind != "redis" {
		p.units(w.fn.Name(), r, func(u *unit) {
			for t, x := range u.rems {
				for part, e := range x.part {
					if e.Tx != nil && strings.HasPrefix(e.Tx.Aux, "View") {
						c.obx("purged", r, u.o, e.Pos, part, false, "%v is removed in a transaction that cannot write", t)
					}
					ok := p.deadNow(e, t) || u.absent(e.Facts, t)
					c.obx("dead", r, u.o, e.Pos, part, ok, "%v is removed without being found dead", t)
				}
			}
			for _, x := range u.whole {
				c.obx("dead", r, u.o, x.e.Pos, "user", x.none, "all sessions of a user are removed")
			}
			for k, v := range u.f {
				if k.Op != "lt" || v || k.Args[0] != tNow || deadline(k.Args[1]) != "refresh" {
					continue
				}
				t := p.ownerOf(k.Args[1])
				if t == nil {
					c.obx("purged", r, u.o, u.pos(), "", false, "%v is a deadline of an unknown session", k.Args[1])
					continue
				}
				if t.Op == "old" || (t.Op == "listfront" || t.Op == "listback") && len(t.Args) > 1 && t.Args[1].Op == "old" {
					continue // of an earlier round, which is a stretch of its own
				}
				// read in this stretch
				mine := false
				for _, e := range u.evs {
					if p.sameSection(e, k.Args[1]) && (e.Op == "bolt.Get" && isRole(e.Args[0], "metadata") && p.canonTok(e.Args[1]) == t || e.Op == "assert" || e.Op == "mapget" && isTokens(e.Args[0]) && p.canonTok(e.Args[1]) == t || e.Op == "list.Front" && p.canonEle(e.Res) == t) {
						mine = true
					}
				}
				if mine {
					c.obx("purged", r, u.o, u.pos(), t.Op, u.rems[t] != nil, "%v is found dead and stays", t)
				}
			}
		})
	}
	// waiting
	for _, e := range r.en.events {
		if !waits(e) && e.Op != "selectnb" {
			continue
		}
		ok := false
		switch e.Op {
		case "select", "selectnb":
			for _, a := range e.Args[1:] {
				if a.Op == "case" && a.Aux == "recv" {
					switch kindOf(a.Args[0]) {
					case "close":
						ok = true
					case "report":
						takes = true
					case "tick":
						ticks = true
					}
				}
			}
		case "recv":
			ok = kindOf(e.Args[0]) == "close"
		}
		if e.Op != "selectnb" {
			c.obx("ends", r, nil, e.Pos, e.Op, ok, "%s does not end when the provider is closed", e.Op)
		}
	}
	r.exits(func(o *Outcome) {
		c.ob("lasting", r, o, o.pos, g.over(o.st.log, o.st.facts.m), "the task ends although the provider is not closed")
	})
	c.ob("lasting", r, nil, r.fn.Pos(), true, "")
	// resting
	for _, li := range r.en.loops {
		for _, it := range li.iters {
			if it.exit != "next" || it.last {
				continue
			}
			idle, does := token.NoPos, false
			for _, e := range it.events {
				ch, _ := e.received()
				switch {
				case ch != nil || waits(e):
					does = true
				case e.Op == "selectnb":
					idle = e.Pos
				}
			}
			if idle.IsValid() {
				c.ob("rests", r, nil, idle, does, "the task goes round without waiting while nothing is reported")
			}
		}
	}
	// taking
	outer := map[*Term]bool{}
	for id, li := range r.en.loops {
		waitsIn := false
		nested := false
		for _, it := range li.iters {
			for _, e := range it.events {
				if waits(e) {
					waitsIn = true
					nested = nested || len(e.Loop) > 0 && e.Loop[0] != id
				}
			}
		}
		outer[id] = waitsIn && !nested
	}
	n := 0
	for id, li := range r.en.loops {
		if !outer[id] {
			continue
		}
		for _, it := range li.iters {
			if it.exit != "next" {
				continue
			}
			f := Facts(it.facts)
			// what has been received so far, and where
			var gots []*got
			tick := -1
			var collect func(in *Iter, evs []*Event, at int)
			seen := map[*LoopInfo]bool{}
			collect = func(in *Iter, evs []*Event, at int) {
				for i, e := range evs {
					j := i
					if at >= 0 {
						j = at
					}
					if ch, v := e.received(); ch != nil {
						switch kindOf(ch) {
						case "close":
							if it.last {
								continue
							}
							c.obx("ends", r, nil, e.Pos, "goes on", false, "the task goes on after the provider is closed")
						case "report":
							gots = append(gots, &got{v, j, in})
						case "tick":
							tick = j
						}
					}
					if e.Op == "loop.done" || e.Op == "loop.break" {
						if n, ok := e.Args[2].intVal(); ok && n == 0 {
							continue
						}
						if l := r.loopOf(e); l != nil && !seen[l] {
							seen[l] = true
							for _, x := range l.iters {
								if x.exit == "next" && x.within(li, it) {
									collect(x, x.events, j)
								}
							}
						}
					}
				}
			}
			collect(it, it.events, -1)
			if _, cl := p.closedFacts(f); it.last || len(cl) > 0 || failedTx(it.events) || r.emptied(it.events) {
				continue
			}
			for _, x := range gots {
				n++
				ok, why := g.handled(r, it.events, f, x)
				c.obx("reported", r, nil, r.fn.Pos(), w.fn.Name(), ok, "%v, which is reported, %s", x.v, why)
			}
			for i, e := range it.events {
				if p.kind != "redis" || !isRedis(e) || !e.Ok {
					continue
				}
				if x := redisCmd(e); x != "Del" && x != "Unlink" {
					continue
				}
				for _, x := range gots {
					if ok, by, src := g.deletes(r, it.events, e, x); ok {
						c.obx("forgotten", r, nil, e.Pos, w.fn.Name(), g.forgotten(r, li, it, i, by, src), "%v is kept for the next round after what it names was removed", src)
						break
					}
				}
			}
			if tick >= 0 && p.kind != "redis" {
				c.obx("sweep", r, nil, r.fn.Pos(), w.fn.Name(), g.swept(r, it.events[tick:], f), "a tick may leave dead sessions at the old end")
			}
		}
	}
	return
}
