package main

// C27 (Put, Delete, Get, Keys), C19 (the reserved field).

import (
	"go/types"
	"sort"
	"strings"
)

func init() {
	props["C27"] = c27
}

// counts: an index that takes every value from 0 on, one after the other.
func (r *Run) counts(i *Term) bool {
	if i == nil {
		return false
	}
	if i.isInt(0) {
		return true
	}
	if i.Op == "mkey" {
		return true
	}
	l := toLin(i)
	if len(l.m) != 1 {
		return false
	}
	for w, k := range l.m {
		if k != 1 || w.Op != "W" {
			return false
		}
		for _, li := range r.en.loops {
			if len(li.contrib[w]) == 0 {
				continue
			}
			first := map[int64]bool{}
			for v := range li.init[w] {
				if v == w {
					continue
				}
				n, ok := v.intVal()
				if !ok || n+l.c != 0 {
					return false
				}
				first[n+1] = true
			}
			for v := range li.contrib[w] {
				if n, ok := v.intVal(); ok {
					if !first[n] {
						return false
					}
					continue
				}
				d := toLin(v)
				d.addTerm(w, -1)
				if n, ok := d.term(nil).intVal(); !ok || n != 1 {
					return false
				}
			}
			return true
		}
	}
	return false
}

// passes: at the end of the loop, index i has gone past list l.
func passes(f Facts, i, l *Term) bool {
	n := mkLen(l)
	return tri(f, mkEq(n, mkInt(0))) == yes || i != nil && tri(f, mkLt(i, n)) == no
}

// countsDown: i goes from the last place of list l down, one by one.
func (r *Run) countsDown(i, l *Term) bool {
	last := toLin(mkLen(l))
	last.c--
	is := func(t *Term, c int64) bool {
		d := toLin(t)
		d.c += c
		d.addTerm(last.term(nil), -1)
		n, ok := d.term(nil).intVal()
		return ok && n == 0
	}
	if is(i, 0) {
		return true
	}
	li := toLin(i)
	if len(li.m) != 1 {
		return false
	}
	for w, k := range li.m {
		if k != 1 || w.Op != "W" {
			return false
		}
		for _, lp := range r.en.loops {
			if len(lp.contrib[w]) == 0 {
				continue
			}
			for v := range lp.init[w] {
				if v != w && !is(v, li.c) {
					return false
				}
			}
			for v := range lp.contrib[w] {
				if is(v, li.c+1) {
					continue
				}
				d := toLin(v)
				d.addTerm(w, -1)
				if n, ok := d.term(nil).intVal(); !ok || n != -1 {
					return false
				}
			}
			return true
		}
	}
	return false
}

// wentThrough: a place has gone past the end of list l, or down past its start.
func (r *Run) wentThrough(f Facts, l *Term) bool {
	n := mkLen(l)
	if tri(f, mkEq(n, mkInt(0))) == yes || tri(f, mkLt(mkInt(0), n)) == no {
		return true
	}
	for k, v := range f {
		switch {
		case k.Op == "lt" && k.Args[1] == n && !v && r.counts(k.Args[0]),
			k.Op == "eq" && v && (k.Args[1] == n && r.counts(k.Args[0]) || k.Args[0] == n && r.counts(k.Args[1])):
			return true
		case k.Op == "lt" && v && k.Args[1].isInt(0) && r.countsDown(k.Args[0], l),
			k.Op == "lt" && !v && k.Args[0].isInt(-1) && r.countsDown(k.Args[1], l):
			return true
		}
	}
	return false
}

// chunk is what one iteration adds to a list that a loop builds.
type chunk struct {
	it    *Iter
	added []*Term
	at    *Term // the index written to, for a list made in full size
}
type chunked struct {
	li     *LoopInfo
	chunks []chunk
	fill   bool
	list   *Term
	head   []*Term // what is in the list before the loop
}

// chunksOf explains the list t a finished loop built.
func (r *Run) chunksOf(log []*Event, t *Term) *chunked {
	if t.Op == "seq" && len(t.Args) == 1 && t.Args[0].Op == "spread" {
		t = t.Args[0].Args[0]
	}
	switch t.Op {
	case "W":
		for _, li := range r.en.loops {
			if len(li.contrib[t]) == 0 {
				continue
			}
			if doneLoop(log, li.id) == nil {
				return nil
			}
			c := &chunked{li: li, list: t}
			for i := range li.init[t] {
				if emptyList(i) || i == t {
					continue
				}
				if i.Op != "seq" || c.head != nil {
					return nil
				}
				c.head = i.Args
			}
			for _, it := range li.iters {
				if it.exit != "next" {
					continue
				}
				vs := it.next[t]
				if len(vs) == 0 {
					c.chunks = append(c.chunks, chunk{it: it})
				}
				for v := range vs {
					switch {
					case v == t || emptyList(v):
						c.chunks = append(c.chunks, chunk{it: it})
					case v.Op == "seq":
						as := v.Args
						if len(as) > 0 && as[0].Op == "spread" && (as[0].Args[0] == t || emptyList(as[0].Args[0])) {
							as = as[1:]
						} else if it.n > 0 {
							return nil
						} else {
							if len(as) < len(c.head) {
								return nil
							}
							for i, h := range c.head {
								if as[i] != h {
									return nil
								}
							}
							as = as[len(c.head):]
						}
						if seqHasSpread(&Term{Op: "seq", Args: as}) {
							return nil
						}
						c.chunks = append(c.chunks, chunk{it: it, added: as})
					default:
						return nil
					}
				}
			}
			return c
		}
	case "mkslice":
		var found *chunked
		for _, li := range r.en.loops {
			c := &chunked{li: li, fill: true, list: t}
			n := 0
			for _, it := range li.iters {
				if it.exit != "next" {
					continue
				}
				var at, val *Term
				for _, e := range it.events {
					if e.Op != "store" {
						continue
					}
					a := e.Args[0]
					for a.Op == "faddr" {
						a = a.Args[0]
					}
					if a.Op == "idx" && a.Args[0] == t {
						if at != nil && at != a.Args[1] {
							return nil
						}
						at = a.Args[1]
					}
				}
				if at != nil {
					n++
					val = r.elemAt(it, t, at)
					c.chunks = append(c.chunks, chunk{it: it, added: []*Term{val}, at: at})
				} else {
					c.chunks = append(c.chunks, chunk{it: it})
				}
			}
			if n == 0 {
				continue
			}
			if found != nil || doneLoop(log, li.id) == nil {
				return nil
			}
			found = c
		}
		return found
	}
	return nil
}

// elemAt is what an iteration has put at an index of a list: a struct.
func (r *Run) elemAt(it *Iter, list, at *Term) *Term {
	var val *Term
	fields := map[string]*Term{}
	for _, e := range it.events {
		if e.Op != "store" {
			continue
		}
		switch x := e.Args[0]; {
		case x.Op == "idx" && x.Args[0] == list && x.Args[1] == at:
			val = e.Args[1]
			fields = map[string]*Term{}
		case x.Op == "faddr" && x.Args[0].Op == "idx" && x.Args[0].Args[0] == list && x.Args[0].Args[1] == at:
			fields[x.Aux] = e.Args[1]
		}
	}
	if len(fields) == 0 {
		return val
	}
	if val == nil && r.once(list, at) {
		// a new element is changed field by field
		en := r.en
		if st := en.a.repoStruct(elemType(list.Type)); st != nil {
			var fs []*Term
			for i := 0; i < st.NumFields(); i++ {
				v := fields[fname(st.Field(i))]
				if v == nil {
					v = zero(en.a, st.Field(i).Type())
				}
				fs = append(fs, v)
			}
			return mkStruct(elemType(list.Type), fs)
		}
	}
	var names []string
	for n := range fields {
		names = append(names, n)
	}
	sort.Strings(names)
	var args []*Term
	for _, n := range names {
		args = append(args, mk("with", n, nil, fields[n]))
	}
	if val != nil {
		args = append([]*Term{val}, args...)
	}
	return mk("withs", "", nil, args...)
}

// once: each element of a new list is set at one place only, one after the other.
func (r *Run) once(list, at *Term) bool {
	if list.Op != "mkslice" || !r.counts(at) {
		return false
	}
	for _, e := range r.en.events {
		if len(e.Args) == 0 || root(e.Args[0]) != list {
			continue
		}
		switch e.Op {
		case "store":
			a := e.Args[0]
			for a.Op == "faddr" {
				a = a.Args[0]
			}
			if a.Op != "idx" || a.Args[0] != list || a.Args[1] != at {
				return false
			}
		case "copy", "appendinto":
			return false
		}
	}
	return true
}

// valueField reads a field of what elemAt gives.
func valueField(v *Term, name string) *Term {
	switch v.Op {
	case "withs":
		for _, a := range v.Args {
			if a.Op == "with" && a.Aux == name {
				return a.Args[0]
			}
		}
		for _, a := range v.Args {
			if a.Op != "with" {
				return valueField(a, name)
			}
		}
		return nil
	}
	return structField(v, name)
}

// dwrite is a change of one key of the data of a session.
type dwrite struct {
	del      bool
	key, val *Term
	e        *Event
	li       *LoopInfo
	pieces   *chunked // a list of them, built by a loop
	all      *Term    // or a list given
}

// dataOf tells whether a container of data is that of session K.
func (p *Prov) dataOf(t, K *Term) bool {
	switch p.kind {
	case "memory":
		return isDataMap(t) && t.any(func(x *Term) bool { return p.isReading(x, K) })
	case "bolt":
		role, tok := bktRole(t)
		return role == "session" && tok == K
	case "redis":
		return p.tokenOfKey(t) == K
	}
	return false
}

// dataWrites lists the changes of data among events. other counts those that
// are not of session K or not understood.
func (p *Prov) dataWrites(r *Run, log, evs []*Event, is func(*Term) bool) (ws []dwrite, other []*Event) {
	for _, e := range evs {
		switch p.kind {
		case "memory":
			switch e.Op {
			case "mapset", "mapdel":
				m := e.Args[0]
				if !isDataMap(m) || isFresh(m) && !is(m) {
					continue
				}
				if !is(m) {
					other = append(other, e)
					continue
				}
				w := dwrite{del: e.Op == "mapdel", key: e.Args[1], e: e}
				if !w.del {
					w.val = r.plain(log, e.Facts, e.Args[len(e.Args)-1])
				}
				ws = append(ws, w)
			case "store":
				a := e.Args[0]
				if a.Op == "faddr" && !isFresh(root(a)) && isDataMap(e.Args[1]) {
					// only where there was nothing
					ok := false
					for k, v := range e.Facts {
						if v && k.Op == "eq" && (k.Args[0] == tNil && isDataMap(k.Args[1]) || k.Args[1] == tNil && isDataMap(k.Args[0])) {
							ok = true
						}
					}
					if !ok || e.Args[1].Op != "makemap" {
						other = append(other, e)
					}
				}
			}
		case "bolt":
			switch e.Op {
			case "bolt.Put", "bolt.Delete":
				if role, _ := bktRole(e.Args[0]); role != "session" {
					continue
				}
				if !e.Ok {
					continue
				}
				if !is(e.Args[0]) {
					other = append(other, e)
					continue
				}
				w := dwrite{del: e.Op == "bolt.Delete", key: e.Args[1], e: e}
				if !w.del {
					w.val = r.plain(log, e.Facts, e.Args[2])
				}
				ws = append(ws, w)
			}
		case "redis":
			switch e.Op {
			case "redisq.HSet", "redis.HSet", "redisq.HDel", "redis.HDel", "redis.HMSet", "redisq.HMSet":
				if !e.Ok || len(e.Args) < 3 {
					continue
				}
				if !is(e.Args[1]) {
					other = append(other, e)
					continue
				}
				del := e.Op == "redisq.HDel" || e.Op == "redis.HDel"
				as := e.Args[2:]
				for i := 0; i < len(as); i++ {
					a := listArg(as[i])
					switch {
					case a.Op == "spread" && del && a.Args[0].Op == "param":
						ws = append(ws, dwrite{del: true, all: a.Args[0], e: e})
					case a.Op == "spread":
						c := r.chunksOf(log, a.Args[0])
						if c == nil {
							if !emptyList(a.Args[0]) {
								other = append(other, e)
							}
							continue
						}
						ws = append(ws, dwrite{del: del, pieces: c, e: e})
					case del:
						if a.Op == "param" && typeStr(a.Type) == "[]string" {
							ws = append(ws, dwrite{del: true, all: a, e: e})
						} else {
							ws = append(ws, dwrite{del: true, key: a, e: e})
						}
					default:
						if i+1 >= len(as) || as[i+1].Op == "spread" {
							other = append(other, e)
							continue
						}
						i++
						if !p.isMetaKey(a) {
							ws = append(ws, dwrite{key: a, val: as[i], e: e})
						}
					}
				}
			case "redisq.HSetNX", "redis.HSetNX", "redisq.HIncrBy", "redis.HIncrBy":
				other = append(other, e)
			}
		}
	}
	return
}

// covered: key (and value) of index i of the list given by the caller.
// plain sees through bytes copied one by one: it is what v is a copy of.
func (r *Run) plain(log []*Event, f Facts, v *Term) *Term {
	x := strip(v)
	if x == nil || x.Type != nil && !isByteSlice(x.Type) || x.Op == "seq" && len(x.Args) == 0 {
		return v
	}
	if x.Op == "seq" && len(x.Args) == 1 && x.Args[0].Op == "spread" {
		x = strip(x.Args[0].Args[0])
	}
	if x.Op == "mkslice" && x.Args[0].Op == "len" && tri(f, mkEq(x.Args[0], mkInt(0))) == yes {
		return x.Args[0].Args[0]
	}
	if x.Op != "W" && x.Op != "mkslice" {
		return v
	}
	b := r.chunksOf(log, x)
	if b == nil || len(b.head) > 0 || len(b.chunks) == 0 {
		return v
	}
	var list, idx *Term
	for _, c := range b.chunks {
		if len(c.added) != 1 || c.added[0] == nil {
			return v
		}
		e := c.added[0]
		if e.Op != "elem" || list != nil && strip(e.Args[0]) != list || !r.counts(e.Args[1]) || c.at != nil && c.at != e.Args[1] {
			return v
		}
		list = strip(e.Args[0])
		if c.it.n > 0 || idx == nil {
			idx = e.Args[1]
		}
	}
	if !passes(f, idx, list) || b.fill && x.Args[0] != mkLen(list) {
		return v
	}
	return list
}
func pairOf(k, v, list *Term) *Term {
	k = strip(k)
	var i *Term
	base := k
	if v != nil {
		if k.Op != "field" || k.Aux != "Key" {
			return nil
		}
		base = k.Args[0]
	}
	if l, j := element(base, list); l != nil {
		i = j
	}
	if i == nil {
		return nil
	}
	if v != nil {
		b := strip(v)
		if b.Op != "field" || b.Aux != "Value" || b.Args[0] != base {
			return nil
		}
	}
	return i
}

// covers: the writes of a path are exactly one for each element of the list,
// in order.
func (p *Prov) covers(r *Run, o *Outcome, list *Term, del bool, K *Term) (ok bool, why string) {
	is := func(t *Term) bool { return p.dataOf(t, K) }
	return p.coversIn(r, o, list, del, del && p.noData(o.st.facts.m, K), is)
}
func (p *Prov) coversIn(r *Run, o *Outcome, list *Term, del, none bool, is func(*Term) bool) (ok bool, why string) {
	f := o.st.facts.m
	empty := emptyList(list) || tri(f, mkEq(mkLen(list), mkInt(0))) == yes
	ws, other := p.dataWrites(r, o.st.log, o.st.log, is)
	if len(other) > 0 {
		return false, other[0].String() + " is not one of the changes asked for"
	}
	n := 0
	pos := func(k, v *Term, fs Facts, i0 *Term) *Term {
		if del {
			v = nil
		} else if v != nil && emptyList(v) {
			// a value known to be nil or empty
			kk := strip(k)
			if kk.Op == "field" && kk.Aux == "Key" {
				for x, b := range fs {
					if b && x.Op == "eq" && (x.Args[0] == tNil || x.Args[1] == tNil || x.Args[0].isInt(0) || x.Args[1].isInt(0)) {
						y := x.Args[0]
						if y == tNil || y.isInt(0) {
							y = x.Args[1]
						}
						if y.Op == "len" {
							y = strip(y.Args[0])
						}
						if y.Op == "field" && y.Aux == "Value" && y.Args[0] == kk.Args[0] {
							v = y
						}
					}
				}
			}
		}
		return pairOf(k, v, list)
	}
	for _, w := range ws {
		if w.del != del {
			return false, w.e.String() + " is not one of the changes asked for"
		}
		switch {
		case w.all != nil:
			if w.all != list {
				return false, w.e.String() + " concerns other keys than asked for"
			}
			n++
		case w.pieces != nil:
			if h := w.pieces.head; len(h) > 0 && (del || len(h) != 2 || !p.isMetaKey(h[0])) {
				return false, w.e.String() + " concerns other keys than asked for"
			}
			size := 2
			if del {
				size = 1
			}
			var idx *Term
			for _, c := range w.pieces.chunks {
				if len(c.added) != size || c.at != nil {
					return false, "an element of the list is passed over or used twice"
				}
				var v *Term
				if !del {
					v = c.added[1]
				}
				i := pos(c.added[0], v, c.it.facts, nil)
				if i == nil || !r.counts(i) {
					return false, c.added[0].String() + " is not the key, with its own value, of each element in order"
				}
				if c.it.n > 0 || idx == nil {
					idx = i
				}
			}
			if !passes(f, idx, list) {
				return false, "not the whole list is used"
			}
			n++
		default:
			// a single one, or one of each iteration of a loop that is in the log
			i := pos(w.key, w.val, w.e.Facts, nil)
			if i == nil {
				return false, w.e.String() + " is not one of the changes asked for"
			}
			return false, "only one element of the list is used"
		}
	}
	for _, e := range o.st.log {
		if e.Op != "loop.done" && e.Op != "loop.break" {
			continue
		}
		var li *LoopInfo
		for id, l := range r.en.loops {
			if id == e.Args[0] {
				li = l
			}
		}
		if li == nil {
			continue
		}
		writes := 0
		var idx *Term
		for _, it := range li.iters {
			if it.again() || it.last || it.exit != "next" {
				continue // the last round is in the log
			}
			ws, other := p.dataWrites(r, it.st.log, it.events, is)
			if len(other) > 0 {
				return false, other[0].String() + " is not one of the changes asked for"
			}
			writes += len(ws)
			if it.exit == "next" {
				for _, w := range ws {
					if w.del != del {
						return false, w.e.String() + " is not one of the changes asked for"
					}
					if w.key == nil {
						return false, w.e.String() + " is not one of the changes asked for"
					}
					i := pos(w.key, w.val, w.e.Facts, nil)
					if i == nil || !r.counts(i) {
						return false, w.e.String() + " does not concern the next element of the list"
					}
					if it.n > 0 || idx == nil {
						idx = i
					}
				}
			}
		}
		if writes == 0 {
			continue
		}
		if e.Op == "loop.break" {
			return false, "success although not the whole list was used"
		}
		for _, it := range li.iters {
			if it.exit == "next" && !it.again() && !it.last {
				ws, _ := p.dataWrites(r, it.st.log, it.events, is)
				if len(ws) != 1 {
					return false, "an element of the list is passed over or used twice"
				}
			}
		}
		if !passes(f, idx, list) {
			return false, "not the whole list is used"
		}
		n++
	}
	switch {
	case n == 0 && !empty && !none:
		return false, "success although nothing was changed"
	case n > 1:
		return false, "the list is used more than once"
	}
	return true, ""
}

// again: an iteration that failed and is tried again.
func (it *Iter) again() bool {
	if it.exit != "next" {
		return false
	}
	for _, e := range it.events {
		if !e.Ok && e.Op != "split" {
			return true
		}
	}
	return false
}

// noData: the session is known to hold nothing.
func (p *Prov) noData(f Facts, K *Term) bool {
	for k, v := range f {
		if !v || k.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := k.Args[i], k.Args[1-i]
			if x == tNil && p.dataOf(y, K) {
				return true
			}
			if x.isInt(0) && y.Op == "len" && p.dataOf(y.Args[0], K) {
				return true
			}
			if x == tNil && y.Op == "ckey" && strings.HasPrefix(y.Aux, "First") && p.dataOf(y.Args[0], K) {
				return true
			}
		}
	}
	return false
}

// stored: the value stored under a key; has tells that there is one.
func (p *Prov) stored(f Facts, K, key, v *Term) bool {
	x := strip(v)
	if emptyList(x) {
		// known to be nil or empty as stored
		for k, b := range f {
			if !b || k.Op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				y := k.Args[i]
				if y.Op == "len" {
					y = y.Args[0]
				} else if p.kind == "bolt" {
					continue // nil: not stored
				}
				if y.Op == "get" && k.Args[1-i].isInt(0) && p.dataOf(y.Args[0], K) && strip(y.Args[1]) == strip(key) {
					return true
				}
				if y.Op == "lookup" && p.dataOf(y.Args[0], K) && strip(y.Args[1]) == strip(key) {
					return true
				}
			}
		}
		return false
	}
	if x.Op == "seq" && len(x.Args) == 1 && x.Args[0].Op == "spread" {
		x = strip(x.Args[0].Args[0])
	}
	switch p.kind {
	case "memory":
		return x.Op == "lookup" && p.dataOf(x.Args[0], K) && strip(x.Args[1]) == strip(key)
	case "bolt":
		return x.Op == "get" && p.dataOf(x.Args[0], K) && strip(x.Args[1]) == strip(key)
	}
	return false
}

// absent: there is known to be none under a key; yes, no or unknown.
func (p *Prov) holds(f Facts, K, key *Term) int {
	res := unknown
	for k, v := range f {
		switch {
		case p.kind == "memory" && k.Op == "has" && p.dataOf(k.Args[0], K) && strip(k.Args[1]) == strip(key):
			if v {
				res = yes
			} else {
				res = no
			}
		case p.kind == "bolt" && k.Op == "eq":
			for i := 0; i < 2; i++ {
				x := k.Args[i]
				if k.Args[1-i] == tNil && x.Op == "get" && p.dataOf(x.Args[0], K) && strip(x.Args[1]) == strip(key) {
					if v {
						res = no
					} else {
						res = yes
					}
				}
			}
		}
	}
	return res
}

// accepted: the outcome without the changes redis turned down before they
// were put together anew.
func accepted(o *Outcome) *Outcome {
	last := -1
	failed := map[*Term]bool{}
	for i, e := range o.st.log {
		switch {
		case e.Op == "redis.watchbegin" && e.Ok:
			last = i
		case e.Op == "redis.Exec" && !e.Ok:
			failed[e.Args[0]] = true
		}
	}
	var log []*Event
	for i, e := range o.st.log {
		if i < last && strings.HasPrefix(e.Op, "redisq.") && failed[e.Args[0]] {
			continue
		}
		log = append(log, e)
	}
	if len(log) == len(o.st.log) {
		return o
	}
	n := *o
	n.st = o.st.clone()
	n.st.log = log
	return &n
}

func c27(c *Ctx) {
	c.rule("put", "a successful Put stores each pair given under its own key, in order, and changes nothing else", 3)
	c.rule("delete", "a successful Delete removes each key given, and changes nothing else", 3)
	c.rule("some", "redis is given a command only with fields", 2)
	c.rule("executed", "changes put together for redis are executed", 2)
	c.rule("get", "a successful Get gives for each key, in order, its own stored value or its absence", 3)
	c.rule("keys", "a successful Keys gives every stored key, and nothing else", 3)
	c.ops(allKinds, []string{"Put", "Delete"}, func(p *Prov, op string, r *Run) {
		K, list := par(r.fn, 0), par(r.fn, 1)
		rule := "put"
		if op == "Delete" {
			rule = "delete"
		}
		for _, e := range r.en.events {
			// redis refuses a command without fields
			if p.kind == "redis" && (strings.HasSuffix(e.Op, ".HSet") || strings.HasSuffix(e.Op, ".HMSet") || strings.HasSuffix(e.Op, ".HDel")) {
				ok := tri(e.Facts, mkEq(mkLen(list), mkInt(0))) == no
				for _, a := range e.Args[2:] {
					ok = ok || a.Op != "spread" && a != list && a.Op != "W"
				}
				c.ob("some", r, nil, e.Pos, ok, "%s although nothing may be asked for", e)
			}
		}
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			if class != "nil" {
				return
			}
			o = accepted(o)
			ok, why := p.covers(r, o, list, op == "Delete", K)
			c.ob(rule, r, o, o.pos, ok, "%s", why)
			if p.kind == "redis" {
				open := map[*Term]*Event{}
				for _, e := range o.st.log {
					switch {
					case e.Op == "redisq.HSet" || e.Op == "redisq.HDel":
						open[e.Args[0]] = e
					case e.Op == "redis.Exec" && e.Ok:
						delete(open, e.Args[0])
					}
				}
				c.ob("executed", r, o, o.pos, len(open) == 0, "success although what was put together is not executed")
			}
		})
	})
	c.ops(allKinds, []string{"Get"}, func(p *Prov, op string, r *Run) {
		K, list := par(r.fn, 0), par(r.fn, 1)
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			if class != "nil" {
				return
			}
			f := o.st.facts.m
			ok, why := p.answers(r, o, f, K, list, o.res[0])
			c.ob("get", r, o, o.pos, ok, "%s", why)
		})
	})
	c.ops(allKinds, []string{"Keys"}, func(p *Prov, op string, r *Run) {
		K := par(r.fn, 0)
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			if class != "nil" {
				return
			}
			ok, why := p.lists(r, o, K, o.res[0])
			c.ob("keys", r, o, o.pos, ok, "%s", why)
		})
	})
}

// answers: the list holds for each key its stored value.
func (p *Prov) answers(r *Run, o *Outcome, f Facts, K, keys, t *Term) (bool, string) {
	if tri(f, mkEq(mkLen(keys), mkInt(0))) == yes {
		if emptyList(t) || t.Op == "mkslice" && (t.Args[0] == mkLen(keys)) {
			return true, ""
		}
	}
	sameLen := t.Op == "mkslice" && (t.Args[0] == mkLen(keys) || tri(f, mkEq(t.Args[0], mkLen(keys))) == yes)
	b := r.chunksOf(o.st.log, t)
	if b == nil {
		if sameLen && p.noData(f, K) {
			// nothing has been put into it
			for k := range o.st.heap.m {
				if root(k) == t && k.Op != "dirty" {
					return false, "values are made up"
				}
			}
			return true, ""
		}
		if sameLen && tri(f, mkEq(mkLen(keys), mkInt(0))) == yes {
			return true, ""
		}
		return false, "what is answered is not made from the stored values"
	}
	if len(b.head) > 0 {
		return false, "values are made up"
	}
	if b.fill && !sameLen {
		return false, "there are not as many values as keys"
	}
	var idx *Term
	for _, c := range b.chunks {
		// the key this iteration is about
		var i *Term
		if c.at != nil {
			i = c.at
		} else {
			i = p.keyIndex(c.it, K, keys)
		}
		if p.kind == "redis" && i == nil && len(c.added) == 0 {
			// the metadata, asked for first
			if p.onMeta(c.it) {
				continue
			}
		}
		if i == nil || !r.countsFrom(i, p) {
			return false, "an iteration does not concern the next key"
		}
		if c.it.n > 1 || idx == nil {
			idx = i
		}
		key := mk("elem", "", nil, keys, i)
		ok, why := p.answer(r, c, K, keys, key, i)
		if !ok {
			return false, why
		}
		if !b.fill && len(c.added) != 1 {
			return false, "a key is passed over"
		}
	}
	if idx == nil {
		return false, "no key is looked at"
	}
	if !passes(f, idx, keys) {
		// the loop runs over something as long as the keys
		d := doneLoop(o.st.log, b.li.id)
		ok := false
		if d != nil && d.Args[1] != nil && d.Args[1] != tNil {
			over := d.Args[1]
			n := mkLen(over)
			ok = tri(f, mkEq(n, mkLen(keys))) == yes || tri(f, mkEq(n, plus(mkLen(keys), 1))) == yes && p.kind == "redis"
		}
		if !ok {
			return false, "not all keys are looked at"
		}
	}
	return true, ""
}

// countsFrom allows redis to start behind the metadata.
func (r *Run) countsFrom(i *Term, p *Prov) bool {
	return r.counts(i) || p.kind == "redis" && r.counts(plus(i, 1))
}

// keyIndex finds the key an iteration looks up.
func (p *Prov) keyIndex(it *Iter, K, keys *Term) *Term {
	var found *Term
	look := func(t *Term) {
		t.any(func(x *Term) bool {
			switch p.kind {
			case "memory":
				if (x.Op == "has" || x.Op == "lookup") && p.dataOf(x.Args[0], K) {
					if l, i := element(strip(x.Args[1]), keys); l != nil {
						found = i
					}
				}
			case "bolt":
				if x.Op == "get" && p.dataOf(x.Args[0], K) {
					if l, i := element(strip(x.Args[1]), keys); l != nil {
						found = i
					}
				}
			case "redis":
				if x.Op == "elem" && x.Args[0].Op == "cmdval" && !x.Args[1].isInt(0) {
					found = plus(x.Args[1], -1)
				}
			}
			return false
		})
	}
	for _, e := range it.events {
		for _, a := range e.Args {
			look(a)
		}
	}
	if found == nil {
		for k := range it.facts {
			look(k)
		}
	}
	return found
}

// onMeta: the iteration is about the metadata, the first field asked for.
func (p *Prov) onMeta(it *Iter) bool {
	ok := false
	for k := range it.facts {
		k.any(func(x *Term) bool {
			if x.Op == "elem" && x.Args[0].Op == "cmdval" && x.Args[1].isInt(0) {
				ok = true
			}
			return false
		})
	}
	return ok && it.n == 0
}

// answer: what an iteration puts for a key is what is stored.
func (p *Prov) answer(r *Run, c chunk, K, keys, key, i *Term) (bool, string) {
	var v, exists, bytes *Term
	if len(c.added) == 1 && c.added[0] != nil {
		v = c.added[0]
		exists, bytes = valueField(v, "Exists"), valueField(v, "Bytes")
		if v.Op == "zero" {
			exists = tFalse
		}
	}
	if bytes != nil && bytes.Op == "mkslice" {
		bytes = r.en.snap(c.it.st, bytes)
	}
	if bytes != nil {
		bytes = r.plain(c.it.st.log, c.it.facts, bytes)
	}
	if p.kind == "redis" {
		// the reply to exactly this key
		var reply *Term
		find := func(t *Term) {
			t.any(func(x *Term) bool {
				if x.Op == "elem" && x.Args[0].Op == "cmdval" && x.Args[1] == plus(i, 1) {
					reply = x
				}
				return false
			})
		}
		for k := range c.it.facts {
			find(k)
		}
		if reply == nil {
			return false, "the reply for " + key.String() + " is not looked at"
		}
		cmd := reply.Args[0].Args[0]
		good := cmd.Op == "cmd" && len(cmd.Args) == 4 && p.tokenOfKey(cmd.Args[1]) == K && cmd.Args[3].Op == "spread" && cmd.Args[3].Args[0] == keys && cmd.Args[2].Op != "spread"
		if !good {
			return false, "the reply is not to a question for the keys given"
		}
		isS := tri(c.it.facts, mk("isT", "string", nil, reply))
		if v == nil || exists == tFalse {
			return isS == no, "a stored value is not given"
		}
		x := strip(bytes)
		return exists == tTrue && isS == yes && x.Op == "assert" && x.Args[0] == reply, "what is given for " + key.String() + " is not what is stored for it"
	}
	h := p.holds(c.it.facts, K, key)
	if v == nil || exists == tFalse {
		return h == no, "a stored value is not given"
	}
	if exists != tTrue || bytes == nil {
		// told by whether there is one
		return exists != nil && bytes != nil && exists.Op == "has" && p.stored(c.it.facts, K, key, bytes), "what is given for " + key.String() + " is not what is stored for it"
	}
	return h == yes && p.stored(c.it.facts, K, key, bytes), "what is given for " + key.String() + " is not what is stored for it"
}

// lists: the list holds every stored key of session K.
func (p *Prov) lists(r *Run, o *Outcome, K, t *Term) (bool, string) {
	f := o.st.facts.m
	if emptyList(t) && p.noData(f, K) {
		return true, ""
	}
	started := false
	for _, e := range o.st.log {
		if e.Op == "bolt.Cursor" && p.dataOf(e.Args[0], K) && len(e.Loop) == 0 {
			started = true
			if e.Res == tNil && (emptyList(t) || t.Op == "W") {
				return true, "" // nothing is stored
			}
		}
	}
	b := r.chunksOf(o.st.log, t)
	if b == nil {
		if emptyList(t) {
			for _, e := range o.st.log {
				if e.Op == "loop.done" {
					for _, li := range r.en.loops {
						if li.id == e.Args[0] && p.keyLoop(li, e, K) && tri(f, mkEq(mkInt(0), mkLen(e.Args[1]))) == yes {
							return true, ""
						}
					}
				}
			}
			// for each of nothing
			if p.kind == "bolt" {
				for _, li := range r.en.loops {
					if li.kind == "foreach" && p.dataOf(li.over, K) && len(o.st.log) > 0 {
						return true, ""
					}
				}
			}
		}
		if p.kind == "redis" {
			// all that redis lists, less the metadata field
			if p.cutMeta(f, t) && p.allFields(t.Args[0].Args[0].Args[0], K) || p.allFields(t, K) && p.listed(r, o, t) == "" {
				return true, ""
			}
		}
		if t.Op == "res" || t.Op == "cmdval" {
			return false, "the keys are given as redis lists them"
		}
		return false, "what is listed is not made from the stored keys"
	}
	d := doneLoop(o.st.log, b.li.id)
	if d == nil {
		return false, "not all keys are listed"
	}
	if b.fill && (p.kind != "memory" || !t.is("mkslice") || t.Args[0].Op != "len" || !p.dataOf(t.Args[0].Args[0], K)) || len(b.head) > 0 {
		return false, "what is listed is not understood"
	}
	var idx *Term
	for _, c := range b.chunks {
		if len(c.added) > 1 {
			return false, "a key is listed twice"
		}
		if b.fill && !r.counts(c.at) {
			return false, "keys are listed over one another"
		}
		var x *Term
		if len(c.added) == 1 {
			x = unold(strip(c.added[0]))
			x = strip(x)
		}
		switch p.kind {
		case "memory":
			ok := x != nil && x.Op == "mkey" && p.dataOf(x.Args[0], K)
			if !ok {
				return false, "a stored key is passed over"
			}
		case "bolt":
			ok := x != nil && x.Op == "ckey" && p.dataOf(x.Args[0], K)
			if ok && b.li.kind != "foreach" {
				if ok, why := p.stepped(o, b.li, K); !started || !ok {
					return false, why
				}
			}
			if !ok {
				return false, "a stored key is passed over"
			}
		case "redis":
			// one field of the reply
			var fld *Term
			if x != nil {
				fld = x
			} else {
				for k, v := range c.it.facts {
					if v && k.Op == "eq" {
						for j := 0; j < 2; j++ {
							if p.isMetaKey(k.Args[j]) && k.Args[1-j].Op == "elem" {
								fld = k.Args[1-j]
							}
						}
					}
				}
			}
			if fld == nil || fld.Op != "elem" || !p.allFields(fld.Args[0], K) || !r.counts(fld.Args[1]) {
				return false, "a stored key is passed over, or what is listed is none"
			}
			if c.it.n > 0 || idx == nil {
				idx = fld.Args[1]
			}
		}
	}
	if p.kind == "redis" {
		if idx == nil || d.Args[1] == nil || !p.allFields(d.Args[1], K) || !passes(f, idx, d.Args[1]) {
			return false, "not all keys are listed"
		}
	}
	if p.kind == "memory" && (b.li.kind != "maprange" || !p.dataOf(b.li.over, K)) {
		return false, "not all keys are listed"
	}
	return true, ""
}

// keyLoop: a loop over the stored keys.
func (p *Prov) keyLoop(li *LoopInfo, done *Event, K *Term) bool {
	switch p.kind {
	case "memory":
		return li.kind == "maprange" && p.dataOf(li.over, K)
	case "redis":
		return done.Args[1] != nil && p.allFields(done.Args[1], K)
	}
	return false
}

// allFields: the reply that lists all fields of session K.
func (p *Prov) allFields(t, K *Term) bool {
	if t.Op != "cmdval" {
		return false
	}
	cmd := t.Args[0]
	return cmd.Op == "cmd" && len(cmd.Aux) > 5 && cmd.Aux[:6] == "HKeys@" && p.tokenOfKey(cmd.Args[1]) == K
}
func plus(t *Term, n int64) *Term { return mkAdd(t, mkInt(n), 1, types.Typ[types.Int]) }
