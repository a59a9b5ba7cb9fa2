package main

// C05 (destroying).

import (
	"strings"
)

func init() {
	props["C05"] = c05
}

func (p *Prov) parts() []string {
	parts := []string{"table", "age", "ids"}
	if p.kind == "bolt" {
		parts = append(parts, "data")
	}
	return parts
}

func c05(c *Ctx) {
	c.rule("by-id", "a successful Destroy has removed every session of the id given, or knows that there is none", 5)
	c.rule("by-token", "a successful DestroyByToken has removed the session of the token given, or knows that there is none", 5)
	c.rule("everywhere", "a destroyed session is removed from every record", 5)
	c.rule("only", "nothing but the sessions meant is removed", 6)
	c.rule("failed", "success is not reported when a step has failed", 6)
	c.rule("some", "redis is asked to delete keys only when there are some", 1)
	c.rule("refused", "only a closed provider, a malformed token or a failed step makes destroying fail", 6)
	c.ops(allKinds, []string{"Destroy", "DestroyByToken"}, func(p *Prov, op string, r *Run) {
		K := par(r.fn, 0)
		byID := op == "Destroy"
		rule := "by-token"
		if byID {
			rule = "by-id"
		}
		r.exits(func(o *Outcome) {
			class, t := c.errOf(o)
			switch class {
			case "nil":
				e := firstFailed(o)
				c.ob("failed", r, o, o.pos, e == nil, "success is reported although a step failed: %v", e)
			case "ErrProviderClosed", "ErrTokenInvalid":
				c.obx("refused", r, o, o.pos, class, true, "")
			default:
				c.obx("refused", r, o, o.pos, class, failedStep(o) && !unfounded(o, t), "%s fails with %v", op, t)
			}
		})
		if p.kind == "redis" {
			c.redisDestroy(p, r, K, byID, rule)
			return
		}
		done := map[*Outcome]string{}
		p.unitsUsed(op, r, func(u *unit, uses map[*Term]*loopUse) {
			for _, b := range u.bad {
				c.obx("only", r, u.o, b.e.Pos, b.what, false, "%s: %s", b.what, b.e)
			}
			for t, a := range u.adds {
				for _, e := range a.part {
					c.ob("only", r, u.o, e.Pos, false, "the session %s is added", t)
				}
			}
			for k, e := range u.wiped {
				c.ob("only", r, u.o, e.Pos, false, "%s is emptied", k)
			}
			for _, w := range u.whole {
				c.ob("only", r, u.o, w.e.Pos, byID && w.id == K || w.none, "the sessions of %s are removed", w.id)
			}
			for t, x := range u.rems {
				ok := t == K
				if byID {
					ok = t.Op == "elem" && p.listOfID(t.Args[0]) == K || p.idOf(u.f, K, t)
				}
				c.ob("only", r, u.o, u.pos(), ok, "the session %s is removed, which need not be meant", t)
				miss := u.left(t, x, p.parts())
				c.ob("everywhere", r, u.o, u.pos(), miss == "", "the session %s stays in %s", t, miss)
			}
			if u.o == nil {
				return
			}
			if byID {
				why := "not all sessions of the id are known to be removed"
				if u.noList(u.f, K) {
					why = ""
				}
				for _, w := range u.whole {
					if w.id == K && u.knownEmpty(w) {
						why = ""
					}
				}
				for _, e := range u.evs {
					if e.Op != "loop.done" && e.Op != "loop.break" {
						continue
					}
					l := uses[e.Args[0]]
					if l != nil && l.whole == K {
						why = u.walked(e, l)
					}
				}
				if w, ok := done[u.o]; !ok || w != "" {
					done[u.o] = why
				}
			} else {
				why := "the session is not known to be removed"
				if u.rems[K] != nil || u.absent(u.f, K) {
					why = ""
				}
				if w, ok := done[u.o]; !ok || w != "" {
					done[u.o] = why
				}
			}
		})
		r.exits(func(o *Outcome) {
			if class, _ := c.errOf(o); class != "nil" {
				return
			}
			why, ok := done[o]
			if !ok {
				why = "nothing is removed"
			}
			if why != "" && p.noStore(o.st.facts.m) {
				why = ""
			}
			c.ob(rule, r, o, o.pos, why == "", "%s", why)
		})
	})
}

// noStore: there is no bucket of the provider at all.
func (p *Prov) noStore(f Facts) bool {
	for k, v := range f {
		if v && k.Op == "eq" {
			for j := 0; j < 2; j++ {
				if b := k.Args[1-j]; k.Args[j] == tNil && b.Op == "bucket" {
					if role, _ := bktRole(b); role == "store" {
						return true
					}
				}
			}
		}
	}
	return false
}

// redisDestroy: Destroy and DestroyByToken of the redis provider.
func (c *Ctx) redisDestroy(p *Prov, r *Run, K *Term, byID bool, rule string) {
	// what a deletion deletes: the keys found for the id, or the key of the token
	meant := func(e *Event) bool {
		n := e.Op[strings.Index(e.Op, ".")+1:]
		if n != "Del" && n != "Unlink" || len(e.Args) < 2 {
			return false
		}
		for _, a := range e.Args[1:] {
			if byID {
				if p.foundKeys(a, K) == nil {
					return false
				}
			} else if p.tokenOfKey(a) != K {
				return false
			}
		}
		return true
	}
	for _, e := range r.en.events {
		if isRedis(e) && rwrite(e.Op[strings.Index(e.Op, ".")+1:]) {
			c.obx("only", r, nil, e.Pos, e.Op, meant(e), "%s", e)
			// redis refuses a deletion of nothing
			if byID && len(e.Args) > 1 {
				some := false
				for _, a := range e.Args[1:] {
					if p.foundKeys(a, K) == nil {
						some = true
						continue
					}
					l := a
					for l.Op == "spread" || l.Op == "seq" {
						l = l.Args[0]
					}
					if tri(e.Facts, mkEq(mkLen(l), mkInt(0))) == no || tri(e.Facts, mkEq(mkLen(a), mkInt(0))) == no {
						some = true
					}
				}
				c.ob("some", r, nil, e.Pos, some, "%s although nothing may have been found", e)
			}
		}
	}
	r.exits(func(o *Outcome) {
		if class, _ := c.errOf(o); class != "nil" {
			return
		}
		ok := false
		bs, direct := p.batches(o.st.log)
		for _, b := range bs {
			direct = append(direct, b.evs...)
		}
		for _, e := range direct {
			if e.Ok && meant(e) {
				ok = true
			}
		}
		for _, e := range o.st.log {
			if byID && e.Op == "redis.Keys" && e.Ok && e.Res != nil {
				v := mk("cmdval", "", nil, e.Res)
				if p.foundKeys(v, K) != nil && emptyIn(o.st.facts.m, v) {
					ok = true
				}
			}
		}
		c.ob(rule, r, o, o.pos, ok, "success without having deleted the sessions meant")
	})
}
func isRedis(e *Event) bool {
	return strings.HasPrefix(e.Op, "redis.") || strings.HasPrefix(e.Op, "redisq.")
}

// emptyIn: list v is known to be empty.
func emptyIn(f Facts, v *Term) bool {
	for k, x := range f {
		if k.Op == "eq" && x {
			for j := 0; j < 2; j++ {
				if k.Args[j].isInt(0) && k.Args[1-j].Op == "len" && sameTerm(k.Args[1-j].Args[0], v) {
					return true
				}
			}
		}
		if k.Op == "lt" && !x && k.Args[0].isInt(0) && k.Args[1].Op == "len" && sameTerm(k.Args[1].Args[0], v) {
			return true
		}
	}
	return false
}
func sameTerm(a, b *Term) bool {
	return a == b || a.Op == b.Op && a.Aux == b.Aux && len(a.Args) == len(b.Args) && len(a.Args) > 0 && a.Args[0] == b.Args[0]
}

// foundKeys: a is the list of all keys of user K: the answer to a search for
// the literal prefix and id followed by a dot.
func (p *Prov) foundKeys(a, K *Term) *Term {
	if a.Op == "spread" {
		a = a.Args[0]
	}
	if a.Op == "seq" && len(a.Args) == 1 && a.Args[0].Op == "spread" {
		a = a.Args[0].Args[0]
	}
	if a.Op != "cmdval" || a.Args[0].Op != "cmd" || !strings.HasPrefix(a.Args[0].Aux, "Keys@") {
		return nil
	}
	cmd := a.Args[0]
	lits, ok := globLiteral(cmd.Args[len(cmd.Args)-1])
	if !ok || len(lits) != 3 || !optLoad(lits[0], "keyPrefix") || lits[1] != K {
		return nil
	}
	if s, ok := lits[2].strVal(); !ok || s != "." {
		return nil
	}
	return cmd
}

// globLiteral takes a redis key pattern apart that is some literal text
// followed by a star.
func globLiteral(t *Term) (lits []*Term, ok bool) {
	parts := catParts(t)
	if len(parts) == 0 {
		return nil, false
	}
	last, isS := parts[len(parts)-1].strVal()
	if !isS || !strings.HasSuffix(last, "*") || strings.HasSuffix(last, `\\*`) {
		return nil, false
	}
	add := func(x *Term) {
		if s, ok := x.strVal(); ok {
			if s == "" {
				return
			}
			if n := len(lits); n > 0 {
				if s0, ok := lits[n-1].strVal(); ok {
					lits[n-1] = mkStr(s0 + s)
					return
				}
			}
		}
		lits = append(lits, x)
	}
	for i, x := range parts {
		s, isS := x.strVal()
		switch {
		case isS:
			if i == len(parts)-1 {
				s = strings.TrimSuffix(s, "*")
			}
			u, ok := unglob(s)
			if !ok {
				return nil, false
			}
			add(mkStr(u))
		case x.Op == "call" && len(x.Args) > 0:
			y := quotedGlob(x)
			if y == nil {
				return nil, false
			}
			for _, z := range catParts(y) {
				add(z)
			}
		default:
			return nil, false
		}
	}
	return lits, true
}

// unglob: the text a pattern without special characters matches.
func unglob(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '*', '?', '[':
			return "", false
		case '\\':
			i++
			if i == len(s) {
				return "", false
			}
		}
		b.WriteByte(s[i])
	}
	return b.String(), true
}
func catParts(t *Term) []*Term {
	if t.Op != "cat" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, catParts(a)...)
	}
	return out
}

// quotedGlob: x is y with every character that is special in a pattern quoted.
func quotedGlob(x *Term) (y *Term) {
	special := map[string]bool{}
	one := func(from, to *Term) bool {
		f, ok1 := from.strVal()
		t, ok2 := to.strVal()
		if !ok1 || !ok2 || len(f) != 1 || t != "\\"+f {
			return false
		}
		special[f] = true
		return true
	}
	complete := func() bool { return special["*"] && special["?"] && special["["] && special["\\"] }
	if x.Aux == "Replace" && len(x.Args) == 2 && x.Args[0].Op == "call" && x.Args[0].Aux == "strings.NewReplacer" {
		l := x.Args[0].Args[0]
		if l.Op != "seq" || len(l.Args)%2 != 0 {
			return nil
		}
		for i := 0; i < len(l.Args); i += 2 {
			if f, ok := l.Args[i].strVal(); ok && special[f] {
				return nil
			}
			if !one(l.Args[i], l.Args[i+1]) {
				return nil
			}
		}
		if complete() {
			return x.Args[1]
		}
		return nil
	}
	// one replacement after the other: the quote itself first
	for x.Op == "call" && x.Aux == "strings.ReplaceAll" && len(x.Args) == 3 {
		if special["\\"] || !one(x.Args[1], x.Args[2]) {
			return nil
		}
		x = x.Args[0]
	}
	if complete() {
		return x
	}
	return nil
}
