package main

// C25 (creating a session), C04 (refreshing one).

import (
	"go/types"
	"strings"
)

func init() {
	props["C25"] = c25
	props["C04"] = c04
}

// roleOf tells what a field of a stored record is for.
func roleOf(v *types.Var) string {
	n := strings.ToLower(fname(v))
	switch typeStr(v.Type()) {
	case "string":
		switch {
		case strings.Contains(n, "refresh"):
			return "refresh"
		case strings.Contains(n, "access"):
			return "access"
		case n == "id" || strings.HasSuffix(n, "id"):
			return "id"
		}
	case "time.Time":
		switch {
		case strings.Contains(n, "refresh"):
			return "refreshEnd"
		case strings.Contains(n, "access"):
			return "accessEnd"
		}
	case "map[string][]byte":
		return "data"
	case "uint64":
		return "seq"
	}
	return ""
}

// added is a session that a path puts into the store.
type added struct {
	tok   *Term // under which it is stored
	e     *Event
	i     int   // position of e in the log
	rec   *Term // its record: an address or a struct value
	roles map[string]*Term
	batch *rbatch
	from  *Term // redis: the token its key was renamed from
}

func (a *added) get(role string) *Term { return a.roles[role] }

// structRoles reads the fields of a struct value by role.
func structRoles(s *Term) map[string]*Term {
	out := map[string]*Term{}
	if s == nil || s.Type == nil {
		return out
	}
	st, ok := s.Type.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		if r := roleOf(st.Field(i)); r != "" {
			out[r] = structField(s, fname(st.Field(i)))
		}
	}
	return out
}

// encodedStruct: the struct value that bytes are the encoding of.
func encodedStruct(t *Term) *Term {
	t = strip(t)
	if t == nil || t.Op != "encoded" || len(t.Args) < 2 {
		return nil
	}
	x := unwrapIface(t.Args[1])
	if x.Op == "ptrto" {
		x = x.Args[0]
	}
	if x.Op != "struct" {
		return nil
	}
	return x
}

// rbatch is a redis transaction that has been executed.
type rbatch struct {
	pipe *Term
	evs  []*Event
	exec *Event
}

// batches lists the executed redis transactions of a path.
func (p *Prov) batches(log []*Event) (bs []*rbatch, direct []*Event) {
	open := map[*Term]*rbatch{}
	for _, e := range log {
		switch {
		case strings.HasPrefix(e.Op, "redisq.") && len(e.Args) > 0:
			b := open[e.Args[0]]
			if b == nil {
				b = &rbatch{pipe: e.Args[0]}
				open[e.Args[0]] = b
			}
			b.evs = append(b.evs, e)
		case e.Op == "redis.Exec" && e.Ok:
			if b := open[e.Args[0]]; b != nil {
				b.exec = e
				bs = append(bs, b)
				delete(open, e.Args[0])
			}
		case e.Op == "redis.Discard":
			delete(open, e.Args[0])
		case strings.HasPrefix(e.Op, "redis.") && e.Ok && rwrite(e.Op[6:]):
			direct = append(direct, e)
		}
	}
	return
}

// rwrite: a redis command that changes something.
func rwrite(n string) bool {
	switch n {
	case "Exec", "HGet", "HMGet", "HGetAll", "HKeys", "HVals", "HLen", "HExists", "HStrLen", "HScan", "Keys", "Scan", "Exists", "TTL", "PTTL", "Type", "Get", "MGet",
		"watchbegin", "watchend", "pipeClose", "Close", "NewClient", "ParseURL", "Ping", "Discard", "DBSize", "Watch", "TxPipeline", "Pipeline":
		return false
	}
	return true
}

// listArg: a list grown in a loop and handed to a command as it is.
func listArg(a *Term) *Term {
	if a.Op != "W" {
		return a
	}
	if a.Type != nil {
		if _, ok := a.Type.Underlying().(*types.Slice); !ok {
			return a
		}
	}
	return mkSpread(a)
}

// metaOf: the metadata written by a redis HSet.
func (p *Prov) metaOf(r *Run, log []*Event, e *Event) *Term {
	as := e.Args[2:]
	for i := 0; i < len(as); i++ {
		a := as[i]
		if a = listArg(a); a.Op == "spread" {
			l := a.Args[0]
			if c := r.chunksOf(log, l); c != nil && len(c.head) == 2 && p.isMetaKey(c.head[0]) {
				return c.head[1]
			}
			continue
		}
		if i+1 < len(as) {
			if p.isMetaKey(a) {
				return as[i+1]
			}
			i++
		}
	}
	return nil
}

// adds lists the sessions that a path puts into the store.
func (p *Prov) adds(r *Run, o *Outcome) []*added {
	var out []*added
	log := o.st.log
	switch p.kind {
	case "memory":
		for i, e := range log {
			if e.Op != "mapset" || !isTokens(e.Args[0]) {
				continue
			}
			a := &added{tok: strip(e.Args[1]), e: e, i: i, roles: map[string]*Term{}}
			for _, x := range log {
				if strings.HasPrefix(x.Op, "list.Push") && x.Res == e.Args[2] {
					a.rec = unwrapIface(x.Args[1])
				}
			}
			if a.rec != nil && a.rec.Type != nil {
				if pt, ok := a.rec.Type.Underlying().(*types.Pointer); ok {
					t := pt.Elem()
					if st, ok := t.Underlying().(*types.Struct); ok {
						cl := o.st
						for _, x := range log[i:] {
							if x.Op == "unlockW" && eventStates[x] != nil {
								cl = eventStates[x]
								break
							}
						}
						cl = cl.clone()
						for i := 0; i < st.NumFields(); i++ {
							if ro := roleOf(st.Field(i)); ro != "" {
								fa := mkObj("faddr", fname(st.Field(i)), fieldKey(t, i), types.NewPointer(st.Field(i).Type()), a.rec)
								a.roles[ro] = r.en.load(cl, fa, st.Field(i).Type())
							}
						}
					}
				}
			}
			out = append(out, a)
		}
	case "bolt":
		for i, e := range log {
			if e.Op != "bolt.Put" || !e.Ok {
				continue
			}
			if role, _ := bktRole(e.Args[0]); role != "metadata" {
				continue
			}
			a := &added{tok: strip(e.Args[1]), e: e, i: i}
			a.rec = encodedStruct(e.Args[2])
			a.roles = structRoles(a.rec)
			out = append(out, a)
		}
	case "redis":
		bs, _ := p.batches(log)
		for _, b := range bs {
			for i, e := range b.evs {
				switch e.Op {
				case "redisq.HSet", "redisq.HMSet":
					v := p.metaOf(r, log, e)
					if v == nil {
						continue
					}
					a := &added{tok: p.tokenOfKey(e.Args[1]), e: e, i: i, batch: b}
					a.rec = encodedStruct(v)
					a.roles = structRoles(a.rec)
					for _, x := range b.evs[:i] {
						if x.Op == "redisq.Rename" && p.tokenOfKey(x.Args[2]) == a.tok {
							a.from = p.tokenOfKey(x.Args[1])
						}
					}
					for _, x := range b.evs[i+1:] {
						if x.Op == "redisq.Rename" && p.tokenOfKey(x.Args[1]) == a.tok {
							a.from = a.tok
							a.tok = p.tokenOfKey(x.Args[2])
						}
					}
					out = append(out, a)
				}
			}
		}
	}
	return out
}

// runsFor: a deadline that is now plus the configured lifetime.
func runsFor(t *Term, opt string) bool {
	if t == nil {
		return false
	}
	l := toLin(t)
	l.addTerm(tNow, -1)
	return optLoad(l.term(nil), opt)
}

func c25(c *Ctx) {
	c.rule("stored", "a successful Create of a session with a positive lifetime stores exactly one session, under its access token", 3)
	c.rule("refused", "only a closed provider, malformed tokens, ids that differ, a reserved key or a failed step make Create fail", 12)
	c.rule("record", "what is stored has the access and refresh token given and the user id of the access token", 3)
	c.rule("lifetimes", "what is stored ends after the configured lifetimes, counted from now", 3)
	c.rule("data", "what is stored has exactly the pairs given, each value under its key, in order", 3)
	c.rule("replaced", "nothing of a session stored before under the same token is left", 3)
	c.ops(allKinds, []string{"Create"}, func(p *Prov, op string, r *Run) {
		acc, ref, pairs := par(r.fn, 0), par(r.fn, 1), par(r.fn, 2)
		r.exits(func(o *Outcome) {
			class, t := c.errOf(o)
			f := o.st.facts.m
			if class != "nil" {
				ok := false
				switch class {
				case "ErrProviderClosed", "ErrTokenInvalid":
					ok = true
				case "ErrTokenIDNotMatched":
					for k, v := range f {
						if !v && k.Op == "eq" && k.Args[0].Op == "tokid" && k.Args[1].Op == "tokid" && k.Args[0] != k.Args[1] {
							ok = true
						}
					}
				default:
					ok = (failedStep(o) || reservedKey(p, f, r, 2)) && !unfounded(o, t)
				}
				c.obx("refused", r, o, o.pos, class, ok, "a new session is refused with %v", t)
				return
			}
			as := p.adds(r, o)
			if len(as) == 0 && deadOnArrival(f) {
				return
			}
			one := len(as) == 1 && as[0].tok == acc
			c.ob("stored", r, o, o.pos, one, "%d sessions stored", len(as))
			if !one {
				return
			}
			a := as[0]
			c.ob("record", r, o, a.e.Pos, p.recordOK(f, a, acc, ref, nil), "the record stored has access %v, refresh %v, id %v", a.get("access"), a.get("refresh"), a.get("id"))
			c.ob("lifetimes", r, o, a.e.Pos, runsFor(a.get("accessEnd"), "access") && runsFor(a.get("refreshEnd"), "refresh"), "the session stored ends at %v and %v", a.get("accessEnd"), a.get("refreshEnd"))
			is := func(t *Term) bool { return p.dataOf(t, acc) }
			if p.kind == "memory" {
				is = func(t *Term) bool { return t == a.get("data") }
			}
			if p.kind == "redis" {
				bs, direct := p.batches(o.st.log)
				c.ob("stored", r, o, o.pos, len(bs) == 1 && len(direct) == 0, "not stored in one transaction")
			}
			ok, why := p.coversIn(r, o, pairs, false, false, is)
			c.ob("data", r, o, a.e.Pos, ok, "%s", why)
			why = ""
			switch p.kind {
			case "memory":
				if d := a.get("data"); d == nil || !isFresh(d) && d != tNil {
					why = "the data is not in a new map"
				}
			case "bolt":
				gone := some(p.sessions(f, acc), func(s *Sess) bool { return s.exists == no })
				made := false
				for _, e := range o.st.log {
					if len(e.Args) < 2 || !e.Ok {
						continue
					}
					role, _ := bktRole(e.Args[0])
					if role == "data" && strip(e.Args[1]) == acc {
						switch e.Op {
						case "bolt.DeleteBucket":
							gone = !made
						case "bolt.CreateBucket", "bolt.CreateBucketIfNotExists":
							made = true
						}
					}
				}
				if !gone {
					why = "the data of a session stored before is not known to be gone"
				}
				if !made {
					why = "no place is made for the data"
				}
			case "redis":
				why = "the hash stored before is not deleted first"
				wrote := false
				for _, e := range a.batch.evs {
					switch e.Op {
					case "redisq.Del", "redisq.Unlink":
						for _, k := range e.Args[1:] {
							if p.tokenOfKey(k) == acc {
								if wrote {
									why = "what has been stored is deleted"
								} else {
									why = ""
								}
							}
						}
					case "redisq.HSet", "redisq.HMSet":
						wrote = true
					}
				}
			}
			c.ob("replaced", r, o, a.e.Pos, why == "", "%s", why)
		})
	})
}

// recordOK: the record stored under a token has the right tokens and user id.
// old is the token of the session it continues, if any.
func (p *Prov) recordOK(f Facts, a *added, acc, ref, old *Term) bool {
	if strip(a.get("access")) != acc || strip(a.get("refresh")) != ref {
		return false
	}
	id := a.get("id")
	if id == nil {
		return p.kind == "redis"
	}
	id = strip(id)
	if id.Op == "tokid" && sameID(f, id.Args[0], acc) {
		return true
	}
	// the id of the session that is continued
	return old != nil && id.any(func(x *Term) bool { return p.isReading(x, old) }) && (id.Op == "load" || id.Op == "field") && roleName(id) == "id"
}
func roleName(t *Term) string {
	n := strings.ToLower(fieldName(t))
	if n == "id" || strings.HasSuffix(n, "id") {
		return "id"
	}
	return n
}

func c04(c *Ctx) {
	c.rule("stored", "a successful Refresh stores exactly one session, under the new access token", 3)
	c.rule("record", "what is stored has the new access and refresh token and the same user id", 3)
	c.rule("lifetimes", "what is stored ends after the configured lifetimes, counted from now", 3)
	c.rule("old", "the old access token is removed before the new one is stored", 3)
	c.rule("data", "what is stored has every key and value of the refreshed session and nothing else", 3)
	c.rule("unchanged", "a Refresh that reports an error changes nothing, except that it may remove a dead session", 6)
	c.ops(allKinds, []string{"Refresh"}, func(p *Prov, op string, r *Run) {
		acc, nacc, nref := par(r.fn, 0), par(r.fn, 2), par(r.fn, 3)
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			f := o.st.facts.m
			if class != "nil" {
				why := p.untouched(o, acc)
				c.obx("unchanged", r, o, o.pos, class, why == "", "%s", why)
				return
			}
			as := p.adds(r, o)
			one := len(as) == 1 && as[0].tok == nacc
			c.ob("stored", r, o, o.pos, one, "%d sessions stored", len(as))
			if !one {
				return
			}
			a := as[0]
			c.ob("record", r, o, a.e.Pos, p.recordOK(f, a, nacc, nref, acc), "the record stored has access %v, refresh %v, id %v", a.get("access"), a.get("refresh"), a.get("id"))
			c.ob("lifetimes", r, o, a.e.Pos, runsFor(a.get("accessEnd"), "access") && runsFor(a.get("refreshEnd"), "refresh"), "the session stored ends at %v and %v", a.get("accessEnd"), a.get("refreshEnd"))
			ok, why := p.oldGone(r, o, a, acc)
			c.ob("old", r, o, a.e.Pos, ok, "%s", why)
			ok, why = p.kept(r, o, a, acc)
			c.ob("data", r, o, a.e.Pos, ok, "%s", why)
		})
	})
}

// untouched: no session has been changed, except for a dead one removed.
func (p *Prov) untouched(o *Outcome, acc *Term) string {
	f := o.st.facts.m
	dead := some(p.sessions(f, acc), func(s *Sess) bool { return s.exists == yes && s.dead == yes })
	if p.kind == "redis" {
		bs, direct := p.batches(o.st.log)
		for _, b := range bs {
			for _, e := range b.evs {
				if rwrite(strings.TrimPrefix(e.Op, "redisq.")) {
					return e.String() + " although an error is reported"
				}
			}
		}
		for _, e := range direct {
			del := (e.Op == "redis.Del" || e.Op == "redis.Unlink") && dead
			for _, k := range e.Args[1:] {
				del = del && p.tokenOfKey(k) == acc
			}
			if !del {
				return e.String() + " although an error is reported"
			}
		}
		return ""
	}
	for _, e := range o.st.log {
		if !changes(p, e) || rolledBack(o, e) || !e.Ok {
			continue
		}
		if !dead {
			return e.String() + " although an error is reported"
		}
		// only removals, and only of this session
		ok := true
		switch e.Op {
		case "mapdel":
			ok = !isTokens(e.Args[0]) || p.canonTok(e.Args[1]) == acc
		case "mapset":
			ok = isIDs(e.Args[0])
		case "list.Remove":
			ok = e.Args[1].any(func(x *Term) bool { return p.isReading(x, acc) })
		case "copy", "bolt.CursorDelete":
		case "bolt.Delete", "bolt.DeleteBucket":
			role, _ := bktRole(e.Args[0])
			ok = role != "metadata" && role != "data" || p.canonTok(e.Args[1]) == acc
		case "bolt.Put":
			role, _ := bktRole(e.Args[0])
			ok = role == "ids" || role == "store"
		default:
			ok = false
		}
		if !ok {
			return e.String() + " although an error is reported"
		}
	}
	return ""
}

// oldGone: the session is not stored under its old token any more.
func (p *Prov) oldGone(r *Run, o *Outcome, a *added, acc *Term) (bool, string) {
	switch p.kind {
	case "memory", "bolt":
		for i, e := range o.st.log {
			if e.Op == "mapdel" && isTokens(e.Args[0]) && p.canonTok(e.Args[1]) == acc || p.kind == "bolt" && e.Op == "bolt.Delete" && e.Ok && p.canonTok(e.Args[1]) == acc && isRole(e.Args[0], "metadata") {
				if i > a.i && tri(o.st.facts.m, mkEq(acc, a.tok)) != no {
					return false, "the new session is removed if it has the old token"
				}
				return true, ""
			}
		}
		return false, "the session stays stored under its old token"
	}
	if a.from == acc {
		return true, ""
	}
	gone := false
	wrote := false
	for _, e := range a.batch.evs {
		switch e.Op {
		case "redisq.Del", "redisq.Unlink":
			for _, k := range e.Args[1:] {
				if p.tokenOfKey(k) == acc {
					gone = !wrote
				}
			}
		case "redisq.HSet", "redisq.HMSet", "redisq.Rename":
			wrote = true
		}
	}
	return gone, "the session stays stored under its old token"
}
func isRole(b *Term, want string) bool {
	role, _ := bktRole(b)
	return role == want
}

// kept: the new session has all the data of the old one.
func (p *Prov) kept(r *Run, o *Outcome, a *added, acc *Term) (bool, string) {
	f := o.st.facts.m
	switch p.kind {
	case "memory":
		d := a.get("data")
		if d == nil {
			return false, "the new session has no data"
		}
		is := func(t *Term) bool { return t == d }
		if isFresh(d) {
			return p.copied(r, o, is, acc)
		}
		ws, other := p.dataWrites(r, o.st.log, o.st.log, is)
		for _, w := range ws {
			return false, w.e.String() + " changes the data"
		}
		for _, e := range other {
			return false, e.String() + " changes data"
		}
		for _, li := range r.en.loops {
			if doneLoop(o.st.log, li.id) == nil {
				continue
			}
			for _, it := range li.iters {
				ws, other := p.dataWrites(r, it.st.log, it.events, is)
				for _, w := range ws {
					return false, w.e.String() + " changes the data"
				}
				for _, e := range other {
					return false, e.String() + " changes data"
				}
			}
		}
		return p.dataOf(d, acc) && (d.Op == "load" || d.Op == "field"), "the data of the new session is " + d.String()
	case "bolt":
		return p.copied(r, o, func(t *Term) bool { return p.dataOf(t, a.tok) }, acc)
	}
	if a.from != acc {
		return false, "the data is not moved to the new key"
	}
	ws, other := p.dataWrites(r, o.st.log, o.st.log, func(t *Term) bool { k := p.tokenOfKey(t); return k == acc || k == a.tok })
	for _, w := range ws {
		return false, w.e.String() + " changes the data"
	}
	for _, e := range other {
		return false, e.String() + " changes data"
	}
	// nothing between may delete what is moved
	moved := false
	for _, e := range a.batch.evs {
		switch e.Op {
		case "redisq.Rename":
			moved = p.tokenOfKey(e.Args[1]) == acc && p.tokenOfKey(e.Args[2]) == a.tok
		case "redisq.Del", "redisq.Unlink":
			for _, k := range e.Args[1:] {
				if t := p.tokenOfKey(k); !moved && t != a.tok || moved && t != acc || tri(f, mkEq(acc, a.tok)) != no {
					return false, e.String() + " deletes what is moved"
				}
			}
		}
	}
	return moved, "the data is not moved to the new key"
}

// copied: the container has got all pairs of session K: from a list of them, or
// in the loop that goes through them.
func (p *Prov) copied(r *Run, o *Outcome, is func(*Term) bool, K *Term) (bool, string) {
	f := o.st.facts.m
	// what is written, and by which loops
	ws, _ := p.dataWrites(r, o.st.log, o.st.log, is)
	if len(ws) > 0 {
		return false, ws[0].e.String() + " changes the data"
	}
	n := 0
	for _, d := range o.st.log {
		if d.Op != "loop.done" && d.Op != "loop.break" {
			continue
		}
		li := r.loopOf(d)
		if li == nil || d.Op == "loop.done" && len(d.Args) > 2 && d.Args[2].isInt(0) {
			continue
		}
		writes := false
		for _, it := range li.iters {
			ws, other := p.dataWrites(r, it.st.log, it.events, is)
			if len(other) > 0 {
				return false, other[0].String() + " changes other data"
			}
			writes = writes || len(ws) > 0
		}
		if !writes {
			continue
		}
		n++
		if d.Op == "loop.break" {
			return false, "success although not everything was copied"
		}
		// directly from what was stored?
		direct := li.kind == "maprange" && p.dataOf(li.over, K) || li.kind == "foreach" && p.dataOf(li.over, K)
		for _, it := range li.iters {
			for _, e := range it.events {
				if e.Op == "bolt.Cursor" && p.dataOf(e.Args[0], K) {
					direct = true
				}
			}
		}
		if direct {
			ok, why := p.walks(r, o, li, K)
			if !ok {
				return false, why
			}
			for _, it := range li.iters {
				if it.exit != "next" || it.again() {
					continue
				}
				ws, _ := p.dataWrites(r, it.st.log, it.events, is)
				if len(ws) != 1 || ws[0].del || !p.storedPair(ws[0].key, ws[0].val, K) {
					return false, "a pair is not copied as it is"
				}
			}
			continue
		}
		// through a list
		var list *Term
		for _, it := range li.iters {
			if it.exit != "next" || it.again() {
				continue
			}
			ws, _ := p.dataWrites(r, it.st.log, it.events, is)
			if len(ws) == 1 && ws[0].key != nil {
				k := strip(ws[0].key)
				if k.Op == "field" {
					k = k.Args[0]
				}
				if k.Op == "elem" {
					list = k.Args[0]
				} else {
					// the first of a list of known beginning
					continue
				}
			}
		}
		if list == nil {
			return false, "what is copied is not understood"
		}
		ok, why := p.coversIn(r, o, list, false, false, is)
		if !ok {
			return false, why
		}
		if ok, why := p.allPairs(r, o, list, K); !ok {
			return false, why
		}
	}
	if n == 0 {
		if p.nothing(o, K) {
			return true, ""
		}
		// the list of pairs may be known to be empty
		for _, d := range o.st.log {
			if d.Op == "loop.done" && d.Args[1] != nil && d.Args[1].Op == "W" && tri(f, mkEq(mkLen(d.Args[1]), mkInt(0))) == yes {
				if ok, _ := p.allPairs(r, o, d.Args[1], K); ok {
					return true, ""
				}
			}
		}
		return false, "the data is not copied"
	}
	if n > 1 {
		return false, "the data is copied more than once"
	}
	return true, ""
}
func (r *Run) loopOf(d *Event) *LoopInfo {
	for _, li := range r.en.loops {
		if li.id == d.Args[0] {
			return li
		}
	}
	return nil
}

// nothing: the bucket of session K was found missing or empty.
func (p *Prov) nothing(o *Outcome, K *Term) bool {
	// what is missing now may have been removed just before
	removed := false
	for _, e := range o.st.log {
		if e.Op == "bolt.DeleteBucket" && e.Ok && strip(e.Args[1]) == K && isRole(e.Args[0], "data") {
			removed = true
		}
	}
	f := Facts{}
	for k, v := range o.st.facts.m {
		if removed && k.Op == "eq" && (k.Args[0] == tNil && k.Args[1].Op == "bucket" || k.Args[1] == tNil && k.Args[0].Op == "bucket") {
			continue
		}
		f[k] = v
	}
	if p.noData(f, K) {
		return true
	}
	for _, e := range o.st.log {
		if e.Op == "bolt.Cursor" && p.dataOf(e.Args[0], K) && e.Res == tNil && len(e.Loop) == 0 {
			return true
		}
	}
	return false
}

// walks: the loop goes through all pairs of session K.
func (p *Prov) walks(r *Run, o *Outcome, li *LoopInfo, K *Term) (bool, string) {
	switch li.kind {
	case "maprange", "foreach":
		return p.dataOf(li.over, K), "what is gone through is other data"
	}
	return p.stepped(o, li, K)
}

// stepped: the loop moves a cursor over the pairs of session K from one end
// to the other, one pair at a time.
func (p *Prov) stepped(o *Outcome, li *LoopInfo, K *Term) (bool, string) {
	onward := map[string]string{"First": "Next", "Last": "Prev"}
	next := ""
	for _, e := range o.st.log {
		if e.Op == "bolt.Cursor" && p.dataOf(e.Args[0], K) && (len(e.Loop) == 0 || next == "") {
			if next == "" {
				next = onward[e.how()]
			}
		}
	}
	if next == "" {
		return false, "the first pair is passed over"
	}
	for _, it := range li.iters {
		if it.exit != "next" {
			continue
		}
		n := 0
		for _, e := range it.events {
			if e.Op == "bolt.Cursor" && p.dataOf(e.Args[0], K) {
				n++
				if e.how() != next {
					return false, "the pairs are not gone through from one end to the other"
				}
			}
		}
		if n != 1 {
			return false, "a pair is passed over"
		}
	}
	return true, ""
}

// storedPair: key and value of one and the same stored pair.
func (p *Prov) storedPair(k, v, K *Term) bool {
	k, v = strip(unold(strip(k))), strip(unold(strip(v)))
	switch p.kind {
	case "memory":
		return k.Op == "mkey" && p.dataOf(k.Args[0], K) && (v.Op == "lookup" && v.Args[0] == k.Args[0] && v.Args[1] == k || v.Op == "mval" && v.Args[0] == k.Args[0])
	case "bolt":
		return k.Op == "ckey" && v.Op == "cval" && p.dataOf(k.Args[0], K) && unold(v.Args[0]) == k
	}
	return false
}

// allPairs: the list holds all pairs of session K.
func (p *Prov) allPairs(r *Run, o *Outcome, list *Term, K *Term) (bool, string) {
	b := r.chunksOf(o.st.log, list)
	if b == nil || b.fill || len(b.head) > 0 {
		return false, "what is copied is not understood: " + list.String()
	}
	if ok, why := p.walks(r, o, b.li, K); !ok {
		return false, why
	}
	for _, c := range b.chunks {
		if len(c.added) != 1 {
			return false, "a pair is passed over or copied twice"
		}
		k, v := valueField(c.added[0], "Key"), valueField(c.added[0], "Value")
		if k == nil || v == nil || !p.storedPair(k, v, K) {
			return false, "a pair is not copied as it is: " + c.added[0].String()
		}
	}
	return true, ""
}

// how: the method that moved a cursor.
func (e *Event) how() string {
	if len(e.Args) > 1 {
		s, _ := e.Args[1].strVal()
		return s
	}
	return ""
}
