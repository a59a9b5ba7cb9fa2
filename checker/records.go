package main

// What a stretch of a path does to the records of the store: the token table,
// the per-user index, the age order and, for bolt, the data and the count.

import (
	"go/token"
	"sort"
	"strings"
)

// unit is a critical section of a path, or one iteration of a loop in one.
type unit struct {
	p    *Prov
	r    *Run
	name string
	o    *Outcome
	it   *Iter
	li   *LoopInfo
	log  []*Event // all that happened before and in it
	evs  []*Event // its own
	f    Facts

	rems, adds map[*Term]*rec
	whole      []*wholeID // ids removed with all their sessions
	wiped      map[string]*Event
	stray      []*Event // age entries without a session
	bad        []badRec
	delta      int64             // of the count
	short      bool              // the count is known to be less than what is removed
	lists      map[*Term]ownList // lists written to the index
}
type badRec struct {
	e    *Event
	what string
}
type wholeID struct {
	id, list *Term
	none     bool // the list was empty
	e        *Event
}

// rec is a session removed or added, by parts.
type rec struct {
	tok   *Term
	first int
	part  map[string]*Event
	ele   *Term // the list element, or the record
}

func (u *unit) pos() token.Pos {
	for i := len(u.evs) - 1; i >= 0; i-- {
		if changes(u.p, u.evs[i]) {
			return u.evs[i].Pos
		}
	}
	if u.o != nil {
		return u.o.pos
	}
	return token.NoPos
}

// units cuts what a function does into critical sections and loop iterations.
func (p *Prov) units(name string, r *Run, f func(u *unit)) {
	cut := func(log, evs []*Event, facts Facts, o *Outcome, it *Iter, li *LoopInfo) {
		var cur []*Event
		end := func(keep bool) {
			if keep && (len(cur) > 0 || it != nil && len(evs) == 0) {
				u := &unit{p: p, r: r, name: name, o: o, it: it, li: li, log: log, evs: cur, f: facts}
				u.read()
				f(u)
			}
			cur = nil
		}
		for _, e := range evs {
			switch {
			case p.kind == "memory" && e.Op == "unlockW", p.kind == "bolt" && e.Op == "tx.commit":
				end(true)
			case p.kind == "bolt" && (e.Op == "tx.rollback" || e.Op == "tx.commitfail"):
				end(false)
			case p.kind == "bolt" && !e.Ok && e.Op != "split" && !strings.HasPrefix(e.Op, "tx."):
				// the transaction is rolled back: see C09
				if it != nil {
					return
				}
			default:
				cur = append(cur, e)
			}
		}
		end(true)
	}
	r.exits(func(o *Outcome) { cut(o.st.log, o.st.log, o.st.facts.m, o, nil, nil) })
	var ids []*Term
	for id := range r.en.loops {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	for _, id := range ids {
		li := r.en.loops[id]
		for _, it := range li.iters {
			if it.exit == "next" {
				cut(it.st.log, it.events, it.facts, nil, it, li)
			}
		}
	}
}

// canonTok names the session stored under a key.
func (p *Prov) canonTok(k *Term) *Term {
	k = strip(k)
	if k == nil {
		return nil
	}
	switch {
	case p.kind == "memory" && (k.Op == "load" || k.Op == "field") && typeStr(k.Type) == "string" && strings.Contains(strings.ToLower(fieldName(k)), "access"):
		if e := eleOf(holder(k)); e != nil {
			return p.canonEle(e)
		}
	case p.kind == "bolt" && k.Op == "field" && strings.Contains(strings.ToLower(k.Aux), "access"):
		if t := mdToken(k.Args[0]); t != nil {
			return p.canonTok(t)
		}
	case k.Op == "cval":
		return mk("cval", "", nil, k.Args[0])
	}
	return k
}

// eleOf: the list element whose value a record is.
func eleOf(h *Term) *Term {
	if h == nil || h.Op != "assert" {
		return nil
	}
	v := h.Args[0]
	if (v.Op == "load" || v.Op == "field") && fieldName(v) == "Value" {
		return holder(v)
	}
	return nil
}

// mdToken: the token whose metadata a decoded record is.
func mdToken(d *Term) *Term {
	if d == nil || d.Op != "decoded" {
		return nil
	}
	g := strip(d.Args[1])
	if g.Op != "get" || !isRole(g.Args[0], "metadata") {
		return nil
	}
	return strip(g.Args[1])
}
func (p *Prov) canonEle(e *Term) *Term {
	if e.Op == "lookup" && isTokens(e.Args[0]) {
		return p.canonTok(e.Args[1])
	}
	return e
}

// idOf: X is the user id of session T.
func (p *Prov) idOf(f Facts, X, T *Term) bool {
	X = strip(X)
	if X.Op == "tokid" {
		return p.canonTok(X.Args[0]) == T || sameID(f, X.Args[0], T)
	}
	if (X.Op == "load" || X.Op == "field") && roleName(X) == "id" {
		h := holder(X)
		if p.kind == "memory" {
			if e := eleOf(h); e != nil {
				return p.canonEle(e) == T
			}
			return false
		}
		if t := mdToken(h); t != nil {
			return p.canonTok(t) == T
		}
	}
	return false
}

// ids lists: L is the list of sessions of user X.
// ownList is a list of a user as changed: an array and how much of it counts.
type ownList struct{ user, n *Term }

func (u *unit) listOf(t *Term) *Term {
	if l, ok := u.lists[baseOf(strip(t))]; ok {
		return l.user
	}
	return u.p.listOfID(t)
}
func (u *unit) lenOf(L *Term) *Term {
	if l, ok := u.lists[baseOf(L)]; ok {
		return l.n
	}
	return mkLen(L)
}
func baseOf(t *Term) *Term {
	if t != nil && t.Op == "slice" && isZero(t.Args[1]) {
		return t.Args[0]
	}
	return t
}
func (u *unit) isList(f Facts, t, X *Term) bool {
	Y := u.listOf(t)
	return Y != nil && (Y == X || tri(f, mkEq(Y, X)) == yes)
}
func (p *Prov) listOfID(t *Term) (X *Term) {
	t = strip(t)
	if t == nil {
		return nil
	}
	switch {
	case t.Op == "lookup" && isIDs(t.Args[0]):
		return strip(t.Args[1])
	case t.Op == "decoded" && strip(t.Args[1]).Op == "get":
		g := strip(t.Args[1])
		if isRole(g.Args[0], "ids") {
			return strip(g.Args[1])
		}
	}
	return nil
}

// anyList finds the list of sessions of user X that a term is about.
func (p *Prov) anyList(t, X *Term) (L *Term) {
	t.any(func(x *Term) bool {
		if y := p.listOfID(x); y != nil && y == X {
			L = x
			return true
		}
		return false
	})
	return
}

// found: the sessions known to be at places of user X's list.
type foundAt struct{ list, idx, tok *Term }

func (u *unit) foundIn(f Facts, X *Term) []foundAt {
	p := u.p
	var out []foundAt
	for k, v := range f {
		if !v || k.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			e := strip(k.Args[i])
			if e.Op == "elem" && u.isList(f, e.Args[0], X) {
				out = append(out, foundAt{e.Args[0], e.Args[1], p.canonTok(k.Args[1-i])})
			}
		}
	}
	return out
}

// single: list L, which has some entry, has just one.
func (u *unit) single(f Facts, L *Term) int {
	n := u.lenOf(L)
	if r := tri(f, mkEq(n, mkInt(1))); r != unknown {
		return r
	}
	switch tri(f, mkLt(mkInt(1), n)) {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// filtered: t is list L of user X without session T.
func (u *unit) filtered(t, X *Term) (T *Term) {
	p := u.p
	b := u.r.chunksOf(u.log, t)
	if b == nil || b.fill || len(b.head) > 0 {
		return nil
	}
	over := doneLoop(u.log, b.li.id).Args[1]
	toks := map[*Term]bool{} // whether it is taken out of the list
	for _, c := range b.chunks {
		if c.it.over != nil && over != tNil && c.it.over != over {
			continue // of a path on which another list is gone through
		}
		var el, tok *Term
		same := unknown
		for k, v := range c.it.facts {
			if k.Op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				e := strip(k.Args[i])
				if e.Op == "elem" && u.isList(u.f, e.Args[0], X) && (len(c.added) == 0 || strip(c.added[0]) == e) {
					el, tok = e, p.canonTok(k.Args[1-i])
					same = no
					if v {
						same = yes
					}
				}
			}
		}
		if el == nil || !u.r.counts(el.Args[1]) {
			return nil
		}
		if _, ok := toks[tok]; !ok {
			toks[tok] = true
		}
		if same == yes && len(c.added) != 0 || same == no && (len(c.added) != 1 || strip(c.added[0]) != el) {
			toks[tok] = false
		}
	}
	if len(toks) > 1 {
		// the same loop on other paths: which session it is about on this one
		for t := range toks {
			about := false
			for _, e := range u.log {
				for _, a := range e.Args {
					about = about || a != nil && p.canonTok(a) == t
				}
			}
			if !about {
				delete(toks, t)
			}
		}
	}
	if len(toks) != 1 {
		return nil
	}
	for t, ok := range toks {
		if ok {
			T = t
		}
	}
	return T
}
func (u *unit) rem(t *Term, i int) *rec { return get(u.rems, t, i) }
func (u *unit) add(t *Term, i int) *rec { return get(u.adds, t, i) }
func get(m map[*Term]*rec, t *Term, i int) *rec {
	if m[t] == nil {
		m[t] = &rec{tok: t, first: i, part: map[string]*Event{}}
	}
	return m[t]
}
func (u *unit) fault(e *Event, what string) { u.bad = append(u.bad, badRec{e, what}) }

// read finds out what the unit does to the records.
func (u *unit) read() {
	p := u.p
	u.rems, u.adds, u.wiped = map[*Term]*rec{}, map[*Term]*rec{}, map[string]*Event{}
	u.lists = map[*Term]ownList{}
	for i, e := range u.evs {
		if p.kind == "memory" {
			u.readMemory(i, e)
		} else if e.Ok {
			u.readBolt(i, e)
		}
	}
	if p.kind == "bolt" {
		u.readCount()
		// an age entry whose session is known not to exist
		for t, r := range u.rems {
			if len(r.part) == 1 && r.part["age"] != nil && t.Op == "cval" {
				gone := u.absent(u.f, t)
				if gone {
					u.stray = append(u.stray, r.part["age"])
					delete(u.rems, t)
				} else if u.it != nil && u.li != nil {
					u.wiped["lru"] = r.part["age"]
					delete(u.rems, t)
				}
			}
		}
	}
}
func (u *unit) readMemory(i int, e *Event) {
	p := u.p
	switch e.Op {
	case "mapdel":
		switch {
		case isTokens(e.Args[0]):
			u.rem(p.canonTok(e.Args[1]), i).part["table"] = e
		case isIDs(e.Args[0]):
			u.idsDelete(i, e, strip(e.Args[1]))
		}
	case "mapset":
		switch {
		case isTokens(e.Args[0]):
			a := u.add(p.canonTok(e.Args[1]), i)
			a.part["table"] = e
			a.ele = e.Args[2]
		case isIDs(e.Args[0]):
			u.idsSet(i, e, strip(e.Args[1]), e.Args[2])
			if len(e.Args) > 3 && e.Args[3] != e.Args[2] {
				u.lists[baseOf(e.Args[3])] = u.lists[baseOf(e.Args[2])]
			}
		}
	case "list.Remove":
		if isLRU(e.Args[0]) {
			u.rem(p.canonEle(e.Args[1]), i).part["age"] = e
		}
	case "list.PushBack", "list.PushFront", "list.InsertBefore", "list.InsertAfter":
		if !isLRU(e.Args[0]) {
			return
		}
	case "list.Init":
		u.fault(e, "the age order is emptied")
	case "store":
		a := e.Args[0]
		if a.Op != "faddr" {
			return
		}
		if v := e.Args[1]; (isTokens(v) || isIDs(v) || isLRU(v)) && !isFresh(root(a)) {
			u.fault(e, "a whole table is replaced")
		}
	}
}
func (u *unit) readBolt(i int, e *Event) {
	p := u.p
	if !strings.HasPrefix(e.Op, "bolt.") || len(e.Args) == 0 {
		return
	}
	role, tok := bktRole(e.Args[0])
	key := func() *Term { return strip(e.Args[1]) }
	switch e.Op {
	case "bolt.Delete":
		switch role {
		case "metadata":
			if k := key(); onCursor(k) {
				u.wiped[role] = e
			} else {
				u.rem(p.canonTok(k), i).part["table"] = e
			}
		case "ids":
			if k := key(); onCursor(k) {
				u.wiped[role] = e
			} else {
				u.idsDelete(i, e, k)
			}
		case "lru":
			if t := p.ageOf(key()); t != nil {
				u.rem(t, i).part["age"] = e
			} else {
				u.fault(e, "an unknown age entry is removed")
			}
		case "store":
			u.wiped["count"] = e
		case "data":
			u.wipeData(e)
		}
	case "bolt.DeleteBucket":
		switch role {
		case "data":
			k := key()
			if onCursor(k) {
				u.wiped["data"] = e
			} else {
				u.rem(p.canonTok(k), i).part["data"] = e
			}
		case "metadata", "ids", "lru":
			// the other arm of a function that empties any bucket
		case "store":
			if s, ok := key().strVal(); ok {
				u.wiped[s] = e
			}
		}
	case "bolt.Put":
		switch role {
		case "metadata":
			a := u.add(p.canonTok(key()), i)
			a.part["table"] = e
			a.ele = encodedStruct(e.Args[2])
		case "ids":
			u.idsSet(i, e, key(), e.Args[2])
		case "lru":
			a := u.add(p.canonTok(e.Args[2]), i)
			a.part["age"] = e
		}
	case "bolt.CreateBucket", "bolt.CreateBucketIfNotExists":
		if role == "data" && !(e.Op == "bolt.CreateBucketIfNotExists" && u.present(e.Facts, p.canonTok(key()))) {
			u.add(p.canonTok(key()), i).part["data"] = e
		}
	}
	_ = tok
}
func onCursor(k *Term) bool { return k.Op == "ckey" || k.Op == "old" && k.Args[0].Op == "ckey" }
func (u *unit) wipeData(e *Event) {
	k := strip(e.Args[1])
	if onCursor(k) {
		return // the arm for plain entries, of which there are none
	}
	u.fault(e, "an entry among the data buckets is removed")
}

// present: session T is known to be stored (and not to have been removed).
func (u *unit) present(f Facts, T *Term) bool {
	if u.rems[T] != nil {
		return false
	}
	for k, v := range f {
		if !v && k.Op == "eq" {
			for j := 0; j < 2; j++ {
				g := k.Args[1-j]
				if k.Args[j] == tNil && g.Op == "get" && isRole(g.Args[0], "metadata") && u.p.canonTok(g.Args[1]) == T {
					return true
				}
			}
		}
	}
	return false
}

// ageOf: the session an age key belongs to.
func (p *Prov) ageOf(k *Term) *Term {
	k = strip(k)
	if k.Op == "be64" {
		x := k.Args[0]
		if x.Op == "field" && typeStr(x.Type) == "uint64" {
			if t := mdToken(x.Args[0]); t != nil {
				return p.canonTok(t)
			}
		}
		return nil
	}
	c := k
	if c.Op == "old" {
		c = c.Args[0]
	}
	if c.Op == "ckey" && isRole(c.Args[0], "lru") {
		return mk("cval", "", nil, k)
	}
	return nil
}

// idsDelete: the entry of user X is removed.
func (u *unit) idsDelete(i int, e *Event, X *Term) {
	p := u.p
	for _, c := range u.foundIn(e.Facts, X) {
		if u.single(e.Facts, c.list) == yes {
			u.rem(c.tok, i).part["ids"] = e
			return
		}
	}
	for k, v := range e.Facts {
		if v && k.Op == "eq" {
			for j := 0; j < 2; j++ {
				if k.Args[j].isInt(0) && k.Args[1-j].Op == "len" {
					if T := u.filtered(k.Args[1-j].Args[0], X); T != nil {
						u.rem(T, i).part["ids"] = e
						return
					}
				}
			}
		}
	}
	none := false
	if u.noList(e.Facts, X) {
		set := false
		for _, l := range u.lists {
			set = set || l.user == X || tri(e.Facts, mkEq(l.user, X)) != no
		}
		none = !set
	}
	// the empty list written out: a filter loop that was left with nothing
	w := &wholeID{id: X, e: e, none: none}
	for _, x := range u.log {
		for _, a := range append(append([]*Term{}, x.Args...), x.Res) {
			if a == nil {
				continue
			}
			if p.listOfID(a) == X {
				w.list = a
			}
		}
		if x == e && w.list != nil {
			break
		}
	}
	if w.list == nil {
		for k := range u.f {
			if L := p.anyList(k, X); L != nil {
				w.list = L
			}
		}
	}
	u.whole = append(u.whole, w)
}

// idsSet: the list of user X is replaced.
func (u *unit) idsSet(i int, e *Event, X, v *Term) {
	p := u.p
	if p.kind == "bolt" {
		v = strip(v)
		if v.Op != "encoded" {
			u.fault(e, "the list of a user is not understood")
			return
		}
		v = unwrapIface(v.Args[1])
		if v.Op == "ptrto" {
			v = v.Args[0]
		}
	}
	defer func() {
		n := mkLen(v)
		if v.Op == "slice" && isZero(v.Args[1]) && v.Args[2] != nil && v.Args[2] != tNil {
			n = v.Args[2]
		}
		u.lists[baseOf(v)] = ownList{X, n}
	}()
	notEmpty := func(L *Term) {
		if u.single(e.Facts, L) != no {
			u.fault(e, "an empty list may be left for a user")
		}
	}
	removeAt := func(L, idx *Term) {
		for _, c := range u.foundIn(e.Facts, X) {
			if c.idx == idx && c.list == L {
				u.rem(c.tok, i).part["ids"] = e
				notEmpty(L)
				return
			}
		}
		u.fault(e, "an entry is removed from the list of a user without knowing whose it is")
	}
	switch v.Op {
	case "seq":
		as := v.Args
		switch {
		case len(as) > 2 && as[len(as)-1].Op != "spread" && u.isList(e.Facts, mk("seq", v.Aux, v.Type, as[:len(as)-1]...), X):
			// to a list edited before
			u.addID(i, e, X, as[len(as)-1])
			return
		case len(as) == 2 && as[0].Op == "spread" && as[1].Op != "spread" && u.isList(e.Facts, as[0].Args[0], X):
			u.addID(i, e, X, as[1])
			return
		case len(as) == 1 && as[0].Op != "spread":
			if u.noList(e.Facts, X) {
				u.addID(i, e, X, as[0])
			} else {
				u.fault(e, "the list of a user is replaced by a single session")
			}
			return
		case len(as) == 2 && as[0].Op == "spread" && as[1].Op == "spread":
			a, b := as[0].Args[0], as[1].Args[0]
			if a.Op == "slice" && b.Op == "slice" && u.isList(e.Facts, a.Args[0], X) && a.Args[0] == b.Args[0] && isZero(a.Args[1]) && a.Args[2] != nil && b.Args[1] == plus(a.Args[2], 1) {
				removeAt(a.Args[0], a.Args[2])
				return
			}
		case len(as) == 1 && as[0].Op == "spread":
			u.idsSetList(i, e, X, as[0].Args[0], removeAt)
			return
		}
	default:
		u.idsSetList(i, e, X, v, removeAt)
		return
	}
	u.fault(e, "the list of a user is replaced by "+v.String())
}
func isZero(t *Term) bool { return t == nil || t == tNil || t.isInt(0) }

// noList: user X is known to have no list.
func (u *unit) noList(f Facts, X *Term) bool {
	for k, v := range f {
		switch {
		case !v && k.Op == "has" && isIDs(k.Args[0]) && strip(k.Args[1]) == X:
			return true
		case v && k.Op == "eq":
			for j := 0; j < 2; j++ {
				x, y := k.Args[j], k.Args[1-j]
				if x == tNil && y.Op == "get" && isRole(y.Args[0], "ids") && strip(y.Args[1]) == X {
					return true
				}
				if x == tNil && u.p.listOfID(y) == X || x.isInt(0) && y.Op == "len" && u.p.listOfID(y.Args[0]) == X {
					return true
				}
			}
		}
	}
	// read as nothing, or removed before
	for _, e := range u.log {
		if e.Op == "bolt.Get" && e.Res == tNil && isRole(e.Args[0], "ids") && strip(e.Args[1]) == X {
			return true
		}
		if e.Op == "mapget" && e.Res == tNil && isIDs(e.Args[0]) && strip(e.Args[1]) == X {
			return true
		}
	}
	return false
}
func (u *unit) addID(i int, e *Event, X, tok *Term) {
	t := u.p.canonTok(tok)
	a := u.add(t, i)
	a.part["ids"] = e
	if !u.p.idOf(e.Facts, X, t) && !u.sameUser(e.Facts, X, t) {
		u.fault(e, "a session is listed under "+X.String()+", which need not be its user")
	}
}

// sameUser: X is the user id of a session known to have the same one as T.
func (u *unit) sameUser(f Facts, X, T *Term) bool {
	// the id of the record that is added
	if a := u.adds[T]; a != nil && a.ele != nil && a.ele.Op == "struct" {
		if id := structRoles(a.ele)["id"]; id != nil && strip(id) == X {
			return true
		}
	}
	// the id stored with a session whose token has the same id
	if (X.Op == "load" || X.Op == "field") && roleName(X) == "id" {
		var t *Term
		if u.p.kind == "memory" {
			if e := eleOf(holder(X)); e != nil {
				t = u.p.canonEle(e)
			}
		} else {
			t = mdToken(holder(X))
		}
		return t != nil && sameID(f, t, T)
	}
	return false
}
func (u *unit) idsSetList(i int, e *Event, X, v *Term, removeAt func(L, idx *Term)) {
	if v.Op == "slice" {
		base, lo, hi := v.Args[0], v.Args[1], v.Args[2]
		L := base
		if L.Op == "copyinto" && !u.isList(e.Facts, L, X) {
			L = L.Args[0]
		}
		if u.isList(e.Facts, L, X) {
			n := u.lenOf(L)
			if lo != nil && lo.isInt(1) && (hi == nil || hi == tNil || hi == n) {
				removeAt(L, mkInt(0))
				return
			}
			if isZero(lo) && hi == plus(n, -1) {
				// moved up?
				if idx := u.closedGap(e, L, n, base); idx != nil {
					removeAt(L, idx)
					return
				}
				// the last one
				for _, c := range u.foundIn(e.Facts, X) {
					if c.list == L && c.idx == hi {
						removeAt(L, hi)
						return
					}
				}
			}
		}
	}
	if T := u.filtered(v, X); T != nil {
		u.rem(T, i).part["ids"] = e
		if tri(e.Facts, mkEq(mkLen(v), mkInt(0))) != no {
			u.fault(e, "an empty list may be left for a user")
		}
		return
	}
	u.fault(e, "the list of a user is replaced by "+v.String())
}

// closedGap: the entries behind one have been moved up by one (or the last one
// put in its place); which.
func (u *unit) closedGap(e *Event, L, n, base *Term) *Term {
	var idx *Term
	end := func(t *Term) bool { return t == nil || t == tNil || t == n }
	for _, x := range u.log {
		if x == e {
			break
		}
		switch x.Op {
		case "copy":
			d, s := x.Args[0], x.Args[1]
			if d.Op == "slice" && s.Op == "slice" && d.Args[0] == L && s.Args[0] == L && end(d.Args[2]) && end(s.Args[2]) &&
				d.Args[1] != nil && s.Args[1] == plus(d.Args[1], 1) {
				idx = d.Args[1]
			}
		case "store":
			a := x.Args[0]
			if a.Op == "idx" && a.Args[0] == L && x.Args[1].Op == "elem" && x.Args[1].Args[0] == L && x.Args[1].Args[1] == plus(n, -1) {
				idx = a.Args[1]
			}
		}
	}
	if base.Op == "copyinto" && base.Args[0] == L && len(base.Args) == 3 {
		s := base.Args[2]
		if s.Op == "slice" && s.Args[0] == L && end(s.Args[2]) && s.Args[1] == plus(base.Args[1], 1) {
			idx = base.Args[1]
		}
	}
	return idx
}

// readCount: how the unit changes the number of sessions. A count that is
// missing or 0 while sessions are removed does not occur (it is the number of
// sessions stored).
func (u *unit) readCount() {
	var base, last *Term
	var put *Event
	missing := false
	for _, e := range u.evs {
		if len(e.Args) < 2 || !isRole(e.Args[0], "store") || !e.Ok {
			continue
		}
		if _, isCount := strip(e.Args[1]).strVal(); !isCount && strip(e.Args[1]).Op != "load" {
			continue
		}
		switch e.Op {
		case "bolt.Get":
			if put != nil || base != nil {
				continue
			}
			if e.Res == tNil || tri(u.f, mkEq(e.Res, tNil)) == yes {
				base, missing = mkInt(0), true
			} else if g := strip(e.Res); g.Op == "get" {
				base = mk("unbe64", "", nil, g)
			}
		case "bolt.Put":
			put, last = e, strip(e.Args[2])
		}
	}
	if base != nil && (missing || u.zero(base)) {
		u.short = true
	}
	if put == nil {
		return
	}
	switch {
	case last.Op == "be64":
		last = last.Args[0]
	case last.Op == "get":
		last = mk("unbe64", "", nil, last)
	default:
		u.fault(put, "the count is not understood")
		return
	}
	if base == nil {
		u.fault(put, "the count is not based on what is stored")
		return
	}
	l, lb := toLinU(last), toLinU(base)
	for t, k := range lb.m {
		l.addTerm(t, -k)
	}
	for _, k := range l.m {
		if k != 0 {
			u.fault(put, "the count is not based on what is stored")
			return
		}
	}
	u.delta = l.c - lb.c
	for n := 1; n < len(u.rems); n++ {
		if u.zero(plus(base, -int64(n))) {
			u.short = true
		}
	}
}

// toLinU reads numbers without regard to how unbe64 terms are typed.
func toLinU(t *Term) *lin { return toLin(normU(t)) }
func normU(t *Term) *Term {
	if t.Op == "unbe64" {
		return mk("unbe64", "", nil, t.Args...)
	}
	if t.Op == "lin" {
		l := toLin(t)
		n := toLin(mkInt(0))
		n.c = l.c
		for x, k := range l.m {
			n.addTerm(normU(x), k)
		}
		return n.term(nil)
	}
	return t
}

// zero: a number known not to be positive.
func (u *unit) zero(t *Term) bool {
	lt := toLinU(t)
	below := func(a, b *Term) bool { // b-a is not positive: is t?
		l, la := toLinU(b), toLinU(a)
		for x, k := range la.m {
			l.addTerm(x, -k)
		}
		l.c -= la.c
		for x, k := range lt.m {
			l.addTerm(x, -k)
		}
		for _, k := range l.m {
			if k != 0 {
				return false
			}
		}
		return lt.c <= l.c
	}
	for k, v := range u.f {
		if len(k.Args) == 2 && (k.Op == "lt" && !v && below(k.Args[0], k.Args[1]) ||
			k.Op == "eq" && v && (below(k.Args[0], k.Args[1]) || below(k.Args[1], k.Args[0]))) {
			return true
		}
	}
	return false
}
