package main

// C29: every setting asked for is the one that takes effect.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C29"] = c29
}

func c29(c *Ctx) {
	c.rule("sets", "an option gives its setting exactly the value it was given", 20)
	c.rule("only", "an option changes no other setting, a lifetime apart for the sake of the other lifetime", 20)
	c.rule("named", "the option that bears the name of a setting sets that setting", 8)
	c.rule("distinct", "no two options set the same setting", 20)
	c.rule("applied", "every option given is applied, in order, to a private copy of the defaults, and the component works with the outcome", 20)
	c.rule("own", "no construction changes anything other components see", 8)
	c.rule("kept", "construction replaces a setting only where none was given", 4)
	c.rule("opened", "the storage a provider opens is the one configured", 4)
	var all []*Prov
	all = append(all, c.providers()...)
	if f := c.funcOf("", "NewManager"); f != nil {
		all = append(all, &Prov{kind: "manager", pkg: c.a.pkg(""), ctor: f})
	}
	for _, p := range all {
		c.settings(p)
	}
}

// absent tells whether nothing (or nothing meaningful) is known to have been given.
func absent(f Facts, v *Term) bool {
	return v == tNil || tri(f, mkEq(v, tNil)) == yes || tri(f, mkLt(mkInt(0), v)) == no || tri(f, mkEq(v, mkStr(""))) == yes ||
		tri(f, mkEq(mkLen(v), mkInt(0))) == yes || tri(f, mkLt(mkInt(0), mkLen(v))) == no
}

// overtaken: the lifetime given is known to go beyond the other one, so that
// the other one has to follow: an access lifetime from below, a refresh
// lifetime from above.
func overtaken(f Facts, other string, was, arg *Term) bool {
	if strings.Contains(other, "refresh") {
		return tri(f, mkLt(was, arg)) == yes || tri(f, mkLt(arg, was)) == no
	}
	return tri(f, mkLt(arg, was)) == yes || tri(f, mkLt(was, arg)) == no
}

// given tells whether v is the value arg, or a copy of it.
func given(st *State, v, arg *Term) bool {
	if v != nil && v.Op != "bcopy" {
		if w, ok := st.heap.m[content(v)]; ok && w.Op == "bcopy" {
			v = w
		}
	}
	for v != nil && v.Op == "bcopy" && len(v.Args) == 1 {
		v = v.Args[0]
		if v.Op == "snap" || v.Op == "content" {
			v = v.Args[0]
		}
	}
	return v == arg
}

func (c *Ctx) settings(p *Prov) {
	x := c.options(p)
	if x == nil {
		return
	}
	st := x.strct.Underlying().(*types.Struct)
	var keys []string
	name := map[string]string{}
	typ := map[string]types.Type{}
	for i := 0; i < st.NumFields(); i++ {
		k := fieldKey(x.strct, i)
		keys = append(keys, k)
		name[k] = strings.ToLower(fname(st.Field(i)))
		typ[k] = st.Field(i).Type()
	}
	by := map[string][]*ssa.Function{}
	setBy := map[*ssa.Function]string{}
	for _, fn := range x.funcs {
		if len(fn.Params) != 1 {
			c.fail(fn.String() + " does not take exactly one value")
			continue
		}
		arg := par(fn, 0)
		as := c.apply(x, fn)
		value := func(a applied, key string) (now, was *Term) {
			ad := x.addr(a.po, key)
			was = a.r.en.load(a.pre.clone(), ad, typ[key])
			if v, ok := a.o.st.heap.m[ad]; ok {
				return v, was
			}
			return was, was
		}
		// the setting that gets the value on some path
		sets := map[string]int{}
		for _, a := range as {
			for _, k := range keys {
				if now, _ := value(a, k); given(a.o.st, now, arg) {
					sets[k]++
				}
			}
		}
		main := ""
		for k, n := range sets {
			if main == "" || n > sets[main] || n == sets[main] && strings.HasSuffix(strings.ToLower(fn.Name()), name[k]) {
				main = k
			}
		}
		if main == "" {
			c.ob("sets", c.run(fn), nil, fn.Pos(), false, "%s sets nothing to the value it was given", fn.Name())
			continue
		}
		setBy[fn] = main
		by[main] = append(by[main], fn)
		life := strings.HasSuffix(typeStr(typ[main]), "time.Duration")
		for _, a := range as {
			if a.o.panic {
				c.ob("sets", a.r, a.o, fn.Pos(), false, "%s panics", fn.Name())
				continue
			}
			f := a.o.st.facts.m
			now, was := value(a, main)
			ok := given(a.o.st, now, arg) || absent(f, arg) && (now == was || now.Op == "const" && absent(f, now) || now == tNil)
			c.ob("sets", a.r, a.o, fn.Pos(), ok, "%s makes %s %v", fn.Name(), name[main], now)
			for _, k := range keys {
				if k == main {
					continue
				}
				now, was := value(a, k)
				ok := now == was || life && typeStr(typ[k]) == typeStr(typ[main]) && given(a.o.st, now, arg) && (name[k] == "access" || name[k] == "refresh" || strings.Contains(name[k], "access") || strings.Contains(name[k], "refresh")) &&
					overtaken(f, name[k], was, arg)
				c.ob("only", a.r, a.o, fn.Pos(), ok, "%s also makes %s %v", fn.Name(), name[k], now)
			}
		}
		// by its name
		low := strings.ToLower(fn.Name())
		best := ""
		for _, k := range keys {
			if strings.HasSuffix(low, name[k]) && len(name[k]) > len(name[best]) && types.Identical(typ[k], fn.Params[0].Type()) {
				best = k
			}
		}
		if best != "" {
			c.ob("named", c.run(fn), nil, fn.Pos(), best == main, "%s sets %s", fn.Name(), name[main])
		}
	}
	for _, k := range keys {
		c.ob("distinct", c.run(p.ctor), nil, p.ctor.Pos(), len(by[k]) <= 1, "%d options of the %s set %s: %v", len(by[k]), p.kind, name[k], by[k])
	}
	r, target := c.construction(p, x, keys)
	if target == nil {
		return
	}
	r.exits(func(o *Outcome) {
		for _, k := range keys {
			was := c.asConfigured(r, o, target, x.addr(target, k), typ[k])
			now := c.asLeft(r, o, target, x.addr(target, k), typ[k])
			c.ob("kept", r, o, o.pos, was != nil && (now == was || absent(o.st.facts.m, was)), "construction makes %s %v though it was given", name[k], now)
		}
	})
	named := func(suffix string, t string) string {
		for fn, k := range setBy {
			if strings.HasSuffix(fn.Name(), suffix) && typeStr(typ[k]) == t {
				return k
			}
		}
		return ""
	}
	conf := func(o *Outcome, k string) *Term {
		if k == "" {
			return nil
		}
		return c.asConfigured(r, o, target, x.addr(target, k), typ[k])
	}
	n := 0
	r.exits(func(o *Outcome) {
		for _, e := range o.st.log {
			switch e.Op {
			case "bolt.Open":
				n++
				c.ob("opened", r, o, e.Pos, e.Args[0] == conf(o, named("Filename", "string")) && e.Args[1] == conf(o, named("Mode", "os.FileMode")), "%s opens another file", e)
				t := conf(o, named("Timeout", "time.Duration"))
				if t == nil {
					c.fail("no option sets the time to wait for the file")
					break
				}
				op := e.Args[2]
				ok := false
				if op == tNil || tri(o.st.facts.m, mkEq(op, tNil)) == yes {
					ok = absent(o.st.facts.m, t)
				} else if len(e.Args) > 3 {
					v := e.Args[3]
					// the library's own default is not to wait at all
					def := v.any(func(x *Term) bool { return x.Op == "global" && strings.HasSuffix(x.Aux, "DefaultOptions") })
					ok = v == t || absent(o.st.facts.m, t) && (absent(o.st.facts.m, v) || def)
				}
				c.ob("opened", r, o, e.Pos, ok, "%s does not wait as long as configured", e)
			case "redis.ParseURL":
				n++
				c.ob("opened", r, o, e.Pos, e.Args[0] == conf(o, named("URL", "string")), "%s is not the address configured", e)
			case "redis.NewClient":
				n++
				ok := e.Args[0].Op == "obj" && strings.HasPrefix(e.Args[0].Aux, "opt")
				c.ob("opened", r, o, e.Pos, ok, "%s connects to something else", e)
			}
		}
	})
	if p.kind == "bolt" || p.kind == "redis" {
		c.ob("opened", r, nil, p.ctor.Pos(), n > 0, "no storage is opened")
	}
}

// asConfigured: what a setting was when all options had been applied.
func (c *Ctx) asConfigured(r *Run, o *Outcome, target, addr *Term, t types.Type) *Term {
	var h *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || h != nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "hv" && len(t.Args) == 2 && t.Args[0].Op == "faddr" && t.Args[0].Args[0] == target {
			h = t.Args[1]
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for f := range o.st.facts.m {
		walk(f)
	}
	for _, e := range o.st.log {
		for _, a := range e.Args {
			walk(a)
		}
	}
	for _, v := range o.st.heap.m {
		walk(v)
	}
	if h == nil {
		h = o.st.heap.m[mk("havoc", "", nil, root(target))]
	}
	if h == nil {
		// no option was given
		if _, ok := o.st.heap.m[addr]; !ok {
			for k, v := range c.a.initHeap {
				if k.Op == "faddr" && k.Args[0].Op == "global" && fieldKeyOf(k) == fieldKeyOf(addr) {
					return v
				}
			}
		}
		return r.en.load(o.st.clone(), addr, t)
	}
	return mk("hv", "", t, addr, h)
}

// asLeft: what a setting is when construction ends.
func (c *Ctx) asLeft(r *Run, o *Outcome, target, addr *Term, t types.Type) *Term {
	if v, ok := o.st.heap.m[addr]; ok {
		return v
	}
	return c.asConfigured(r, o, target, addr, t)
}
