package main

// What the facts of a path say about one stored session.

import (
	"go/types"
	"strings"
)

const (
	no      = -1
	unknown = 0
	yes     = 1
)

func tri(f Facts, t *Term) int {
	if k, v := decideUnder(f, t); k {
		if v {
			return yes
		}
		return no
	}
	return unknown
}

// Sess is one reading of a session: root is the lookup, the fetched bytes or
// the command that found it.
type Sess struct {
	root                  *Term
	exists, dead, expired int
}

func (s *Sess) live() bool   { return s.exists == yes && s.dead == no && s.expired == no }
func (s *Sess) absent() bool { return s.exists == no || s.exists == yes && s.dead == yes }

func typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

// the containers of the memory provider, told by their types
func isTokens(t *Term) bool {
	return t != nil && typeStr(t.Type) == "map[string]*container/list.Element" && t.Op != "lookup"
}
func isIDs(t *Term) bool {
	return t != nil && typeStr(t.Type) == "map[string][]string"
}
func isLRU(t *Term) bool {
	return t != nil && typeStr(t.Type) == "*container/list.List"
}
func isDataMap(t *Term) bool {
	return t != nil && typeStr(t.Type) == "map[string][]byte"
}

// bktPath is the chain of names of a bolt bucket below its transaction, innermost last.
func bktPath(b *Term) (tx *Term, names []*Term) {
	for b.is("bucket") {
		names = append([]*Term{b.Args[1]}, names...)
		b = b.Args[0]
	}
	return b, names
}

// bktRole: "store", "metadata", "data", "ids", "lru", or "session" (the data of
// one session, whose token is given).
func bktRole(b *Term) (role string, tok *Term) {
	if !b.is("bucket") {
		return "", nil
	}
	_, n := bktPath(b)
	switch len(n) {
	case 1:
		return "store", nil
	case 2:
		if s, ok := n[1].strVal(); ok {
			return s, nil
		}
	case 3:
		if s, ok := n[1].strVal(); ok && s == "data" {
			return "session", strip(n[2])
		}
	}
	return "?", nil
}

// deadline tells which deadline a term is: "refresh" or "access".
func deadline(t *Term) string {
	if t == nil || typeStr(t.Type) != "time.Time" {
		return ""
	}
	n := ""
	switch t.Op {
	case "load":
		if t.Args[0].Op == "faddr" {
			n = t.Args[0].Aux
		}
	case "field":
		n = t.Aux
	}
	n = strings.ToLower(n)
	switch {
	case strings.Contains(n, "refresh"):
		return "refresh"
	case strings.Contains(n, "access"):
		return "access"
	}
	return ""
}

// holder is the record a field belongs to.
func holder(t *Term) *Term {
	switch t.Op {
	case "load":
		if t.Args[0].Op == "faddr" {
			return t.Args[0].Args[0]
		}
	case "field":
		return t.Args[0]
	}
	return nil
}
func fieldName(t *Term) string {
	switch t.Op {
	case "load":
		if t.Args[0].Op == "faddr" {
			return t.Args[0].Aux
		}
	case "field":
		return t.Aux
	}
	return ""
}

// rootsOf finds the readings of session K among terms.
func (p *Prov) isReading(t, K *Term) bool {
	switch p.kind {
	case "memory":
		return (t.Op == "lookup" || t.Op == "has") && isTokens(t.Args[0]) && (K == nil || strip(t.Args[1]) == K)
	case "bolt":
		if t.Op != "get" {
			return false
		}
		role, _ := bktRole(t.Args[0])
		return role == "metadata" && (K == nil || strip(t.Args[1]) == K)
	case "redis":
		if t.Op != "cmd" || len(t.Args) < 3 || !(strings.HasPrefix(t.Aux, "HGet@") || strings.HasPrefix(t.Aux, "HMGet@")) {
			return false
		}
		return p.isMetaKey(t.Args[2]) && (K == nil || p.tokenOfKey(t.Args[1]) == K)
	}
	return false
}

// tokenOfKey is the token a redis key is made of.
func (p *Prov) tokenOfKey(k *Term) *Term {
	k = strip(k)
	if k.is("cat") && len(k.Args) == 2 && optLoad(k.Args[0], "keyPrefix") {
		return strip(k.Args[1])
	}
	return nil
}
func (p *Prov) isMetaKey(t *Term) bool { return optLoad(strip(t), "metadataKey") }

// optLoad: the current value of an option of the provider.
func optLoad(t *Term, name string) bool {
	if t == nil {
		return false
	}
	if t.Op == "field" && t.Aux == name {
		return true
	}
	return t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Aux == name
}

// rootKey identifies a reading: the two terms of a map lookup are one.
func rootKey(t *Term) *Term {
	if t.Op == "has" {
		return mk("lookup", "", nil, t.Args...)
	}
	return t
}

// sessions lists the readings of session K (all sessions if K is nil) and what is known of each.
func (p *Prov) sessions(f Facts, K *Term) []*Sess {
	roots := map[*Term]bool{}
	var deadlines []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if p.isReading(t, K) {
			roots[rootKey(t)] = true
		}
		if deadline(t) != "" {
			deadlines = append(deadlines, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for k := range f {
		walk(k)
	}
	var out []*Sess
	for r := range roots {
		s := &Sess{root: r}
		switch p.kind {
		case "memory":
			s.exists = tri(f, mk("has", "", nil, r.Args...))
			if s.exists == unknown {
				s.exists = -tri(f, mkEq(r, tNil))
			}
		case "bolt":
			s.exists = -tri(f, mkEq(r, tNil))
		case "redis":
			err := mk("cmderr", "", nil, r)
			failed := tri(f, mkEq(err, tNil)) == no
			if strings.HasPrefix(r.Aux, "HGet@") {
				if !failed && tri(f, mkEq(err, tNil)) == yes {
					s.exists = yes
				} else if tri(f, mkEq(err, errGlobal(redisPkg+".Nil"))) == yes {
					s.exists = no
				}
			} else if !failed {
				e0 := mk("elem", "", nil, mk("cmdval", "", nil, r), mkInt(0))
				isS := tri(f, mk("isT", "string", nil, e0))
				isNil := tri(f, mkEq(e0, tNil))
				empty := tri(f, mkEq(mkLen(mk("assert", "string", nil, e0)), mkInt(0)))
				switch {
				case isS == yes && empty != yes:
					s.exists = yes
				case isS == no, isNil == yes, empty == yes:
					s.exists = no
				}
			}
		}
		for _, d := range deadlines {
			if !d.any(func(x *Term) bool { return rootKey(x) == r }) {
				continue
			}
			v := tri(f, mkLt(tNow, d))
			if v == unknown {
				continue
			}
			if deadline(d) == "refresh" {
				s.dead = -v
			} else {
				s.expired = -v
			}
		}
		if s.exists == unknown && p.kind == "redis" && s.dead != unknown && strings.HasPrefix(r.Aux, "HMGet@") {
			s.exists = yes
		}
		out = append(out, s)
	}
	return out
}
func some(ss []*Sess, f func(*Sess) bool) bool {
	for _, s := range ss {
		if f(s) {
			return true
		}
	}
	return false
}

// failedStep tells whether a storage, coding or randomness step failed on the path.
func failedStep(o *Outcome) bool {
	if firstFailed(o) != nil {
		return true
	}
	// in an earlier round of a loop
	for k, v := range o.st.facts.m {
		if v && k.Op == "eq" {
			for j := 0; j < 2; j++ {
				x, g := k.Args[j], k.Args[1-j]
				if x.Op == "W" && typeStr(x.Type) == "error" && g.Op == "load" && g.Args[0].Op == "global" && strings.HasPrefix(g.Args[0].Aux, redisPkg+".") && o.res[len(o.res)-1] == x {
					return true
				}
			}
		}
	}
	return false
}
func firstFailed(o *Outcome) *Event {
	for _, e := range o.st.log {
		if !e.Ok && e.Op != "split" {
			return e
		}
	}
	return nil
}

// okExits calls f for every exit that returns.
func (r *Run) exits(f func(o *Outcome)) {
	for i := range r.outs {
		if !r.outs[i].panic {
			f(&r.outs[i])
		}
	}
}
