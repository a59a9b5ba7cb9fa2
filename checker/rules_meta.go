package main

// C19 (the reserved metadata field of redis).

import (
	"strings"
)

func init() {
	props["C19"] = c19
}

// hashFields are the redis commands that name fields of a hash: how many names
// and values make one entry.
var hashFields = map[string]int{
	"HSet": 2, "HMSet": 2, "HSetNX": 2, "HIncrBy": 2, "HIncrByFloat": 2,
	"HGet": 1, "HMGet": 1, "HDel": 1, "HExists": 1,
}

// hashAll are those that answer with all fields.
var hashAll = map[string]bool{"HKeys": true, "HGetAll": true, "HVals": true, "HScan": true, "HRandField": true}

// redisCmd: the name of the redis command an event is.
func redisCmd(e *Event) string {
	for _, p := range []string{"redis.", "redisq."} {
		if strings.HasPrefix(e.Op, p) {
			return e.Op[len(p):]
		}
	}
	return ""
}

// places visits each point a run is examined at: the end of each path and of
// each iteration.
func (r *Run) places(f func(o *Outcome, f Facts, log, evs []*Event)) {
	r.exits(func(o *Outcome) { f(o, o.st.facts.m, o.st.log, o.st.log) })
	for _, li := range r.en.loops {
		for _, it := range li.iters {
			if it.exit != "next" || it.st == nil {
				continue
			}
			f(nil, it.facts, it.st.log, it.events)
		}
	}
}

// every: the path went through all of list l, and each iteration satisfied ok
// for its element.
func (r *Run) every(f Facts, log []*Event, l *Term, ok func(it *Iter, x *Term) bool) bool {
	if tri(f, mkEq(mkLen(l), mkInt(0))) == yes {
		return true
	}
	for _, e := range log {
		if e.Op != "loop.done" {
			continue
		}
		li := r.loopOf(e)
		if li == nil {
			continue
		}
		n, good := 0, true
		for _, it := range li.iters {
			if it.exit != "next" {
				continue
			}
			// the element this iteration is about
			found := false
			for k := range it.facts {
				k.any(func(x *Term) bool {
					if x.Op == "elem" && x.Args[0] == l && !found && ok(it, x) &&
						(r.counts(x.Args[1]) || r.countsDown(x.Args[1], l)) {
						found = true
					}
					return false
				})
			}
			n++
			if !found {
				good = false
			}
		}
		if n > 0 && good && r.wentThrough(f, l) {
			return true
		}
	}
	return false
}

// notMeta: field name x is known not to be the metadata field.
func (p *Prov) notMeta(f Facts, x *Term) bool {
	x = strip(x)
	for k, v := range f {
		if k.Op == "eq" && !v {
			for j := 0; j < 2; j++ {
				if p.isMetaKey(k.Args[j]) && strip(k.Args[1-j]) == x {
					return true
				}
			}
		}
	}
	return false
}

// userField: field name x given by the caller has been found not to be the
// metadata field.
func (p *Prov) userField(r *Run, f Facts, log []*Event, x *Term) bool {
	if p.notMeta(f, x) {
		return true
	}
	// an element of a list checked before
	x = strip(x)
	path := func(e *Term) *Term { return e }
	base := x
	if x.Op == "field" {
		base = strip(x.Args[0])
		name, typ := x.Aux, x.Type
		path = func(e *Term) *Term { return mk("field", name, typ, e) }
	}
	if base.Op != "elem" {
		return false
	}
	return r.every(f, log, base.Args[0], func(it *Iter, e *Term) bool { return p.notMeta(it.facts, path(e)) })
}

// fields checks the names among the arguments of a hash command: bad says what
// is wrong.
func (p *Prov) fields(r *Run, f Facts, log []*Event, args []*Term, n int) (bad string) {
	pos := 0
	name := func(x *Term, f Facts) string {
		if p.isMetaKey(x) || p.userField(r, f, log, x) {
			return ""
		}
		return x.String() + " may be the metadata field"
	}
	for _, a := range args {
		if t := typeStr(a.Type); a.Op != "spread" && a.Type != nil && (t == "[]string" || strings.HasPrefix(t, "[]interface") || t == "[]any") || a.Op == "W" {
			a = mk("spread", "", nil, a)
		}
		if a.Op != "spread" {
			if pos%n == 0 {
				if w := name(a, f); w != "" {
					return w
				}
			}
			pos++
			continue
		}
		l := a.Args[0]
		if pos%n != 0 {
			return "a list is given where a value is expected"
		}
		if emptyList(l) || tri(f, mkEq(mkLen(l), mkInt(0))) == yes {
			continue
		}
		if n == 1 && r.every(f, log, l, func(it *Iter, e *Term) bool { return p.notMeta(it.facts, e) }) {
			continue
		}
		c := r.chunksOf(log, l)
		if c == nil {
			return "the fields " + l.String() + " may contain the metadata field"
		}
		all := append([]chunk{{added: c.head}}, c.chunks...)
		for _, ch := range all {
			if len(ch.added)%n != 0 {
				return "names and values are not in pairs"
			}
			g := f
			if ch.it != nil {
				g = ch.it.facts
			}
			for i := 0; i < len(ch.added); i += n {
				x := ch.added[i]
				if x == nil {
					return "a field is not known"
				}
				if w := name(x, g); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

func c19(c *Ctx) {
	c.rule("field", "a field named by the caller is read, written or deleted only once it is known not to be the metadata field", 5)
	c.rule("listed", "each field listed to the caller is known not to be the metadata field", 1)
	c.rule("value", "what is given to the caller as a value is not what is stored in the metadata field", 1)
	for _, p := range c.providers() {
		if p.kind != "redis" {
			continue
		}
		c.allRuns(p, func(op string, r *Run, worker bool) {
			r.places(func(o *Outcome, f Facts, log, evs []*Event) {
				for _, e := range evs {
					n := hashFields[redisCmd(e)]
					if n == 0 || len(e.Args) < 2 {
						continue
					}
					bad := p.fields(r, f, log, e.Args[2:], n)
					c.obx("field", r, o, e.Pos, op, bad == "", "%s", bad)
				}
			})
		})
		c.ops([]string{"redis"}, []string{"Keys"}, func(p *Prov, op string, r *Run) {
			r.exits(func(o *Outcome) {
				if class, _ := c.errOf(o); class != "nil" {
					return
				}
				bad := p.listed(r, o, o.res[0])
				c.ob("listed", r, o, o.pos, bad == "", "%s", bad)
			})
		})
		c.ops([]string{"redis"}, []string{"Get"}, func(p *Prov, op string, r *Run) {
			r.exits(func(o *Outcome) {
				if class, _ := c.errOf(o); class != "nil" {
					return
				}
				bad := ""
				look := func(f Facts, t *Term) {
					t.any(func(x *Term) bool {
						if x.Op == "cmdval" && bad == "" {
							if cmd := x.Args[0]; cmd.Op != "cmd" || !strings.HasPrefix(cmd.Aux, "HMGet@") && !strings.HasPrefix(cmd.Aux, "HGet@") {
								bad = "the answer is that of another command: " + cmd.String()
							}
						}
						if x.Op == "elem" && x.Args[0].Op == "cmdval" && bad == "" {
							bad = p.ownReply(r, f, x)
						}
						return false
					})
				}
				look(o.st.facts.m, o.res[0])
				if ch := r.chunksOf(o.st.log, o.res[0]); ch != nil {
					for _, x := range ch.chunks {
						for _, t := range x.added {
							if t != nil {
								look(x.it.facts, t)
							}
						}
					}
				}
				c.ob("value", r, o, o.pos, bad == "", "%s", bad)
			})
		})
	}
}

// ownReply: an element of a reply to HMGet is not the one for the metadata field.
func (p *Prov) ownReply(r *Run, f Facts, x *Term) string {
	cmd := x.Args[0].Args[0]
	if cmd.Op != "cmd" || !strings.HasPrefix(cmd.Aux, "HMGet@") {
		return "the answer is that of another command: " + cmd.String()
	}
	i := x.Args[1]
	at := mkInt(0)
	for _, a := range cmd.Args[2:] {
		if p.isMetaKey(a) {
			differs := tri(f, mkEq(i, at)) == no || tri(f, mkLt(at, i)) == yes || tri(f, mkLt(i, at)) == yes
			if !differs {
				// counted from behind it
				l := toLin(i)
				l.c--
				n := l.term(nil)
				differs = at.isInt(0) && r.counts(n)
			}
			if !differs {
				return "the answer may be the metadata: " + x.String()
			}
		}
		if a.Op == "spread" {
			at = mkAdd(at, mkLen(a.Args[0]), 1, at.Type)
		} else {
			at = plus(at, 1)
		}
	}
	return ""
}

// listed: no element of list t is the metadata field; bad says what may be.
func (p *Prov) listed(r *Run, o *Outcome, t *Term) (bad string) {
	f := o.st.facts.m
	if emptyList(t) || tri(f, mkEq(mkLen(t), mkInt(0))) == yes {
		return ""
	}
	if r.every(f, o.st.log, t, func(it *Iter, e *Term) bool { return p.notMeta(it.facts, e) }) {
		return ""
	}
	if p.cutMeta(f, t) {
		return ""
	}
	c := r.chunksOf(o.st.log, t)
	if c == nil {
		return "the metadata field may be among " + t.String()
	}
	for _, x := range c.head {
		if !p.notMeta(f, x) {
			return x.String() + " may be the metadata field"
		}
	}
	for _, ch := range c.chunks {
		for _, x := range ch.added {
			if x == nil || !p.notMeta(ch.it.facts, unold(strip(x))) && !p.notMeta(ch.it.facts, x) {
				return "the metadata field may be listed"
			}
		}
	}
	return ""
}

// cutMeta: t is a list of field names without the one found to be the metadata
// field: redis names each field once.
func (p *Prov) cutMeta(f Facts, t *Term) bool {
	if t.Op != "seq" || len(t.Args) != 2 {
		return false
	}
	var l, i *Term
	for j, a := range t.Args {
		if a.Op != "spread" || a.Args[0].Op != "slice" {
			return false
		}
		s := a.Args[0]
		if j == 0 {
			if !s.Args[1].isInt(0) {
				return false
			}
			l, i = s.Args[0], s.Args[2]
		} else if s.Args[0] != l || s.Args[1] != plus(i, 1) {
			return false
		}
	}
	if l.Op != "cmdval" || l.Args[0].Op != "cmd" || !strings.HasPrefix(l.Args[0].Aux, "HKeys@") {
		return false
	}
	e := mk("elem", "", nil, l, i)
	for k, v := range f {
		if v && k.Op == "eq" {
			for j := 0; j < 2; j++ {
				x := strip(k.Args[1-j])
				if p.isMetaKey(k.Args[j]) && (x == e || x.Op == "elem" && x.Args[0] == l && x.Args[1] == i) {
					return true
				}
			}
		}
	}
	return false
}
