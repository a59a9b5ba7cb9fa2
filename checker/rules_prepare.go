package main

// What a constructor of the bolt provider has prepared when it succeeds, and
// what becomes of the tickers it makes (C24, C28).

import (
	"sort"
	"strings"
)

// tMaking: the run is that of a constructor, for which the storage is as it
// was found.
var tMaking = mk("making", "", nil)

// bucketsUsed: the parts of the store that operations and background tasks
// open, and the fields that name the bucket of the provider.
func (c *Ctx) bucketsUsed(p *Prov) (roles map[string]string, keys map[string]bool) {
	roles, keys = map[string]string{}, map[string]bool{}
	seen := map[*Term]bool{}
	var note func(name string, t *Term)
	note = func(name string, t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "bucket" {
			role, _ := bktRole(t)
			switch role {
			case "store":
				if k := strip(t.Args[1]); k.Op == "load" && k.Args[0].Op == "faddr" {
					keys[fieldKeyOf(k.Args[0])] = true
				}
				fallthrough
			case roleMD, roleData, roleIDS, roleLRU:
				if roles[role] == "" {
					roles[role] = name
				}
			}
		}
		for _, a := range t.Args {
			note(name, a)
		}
	}
	c.allRuns(p, func(name string, r *Run, worker bool) {
		for _, e := range r.en.events {
			if !strings.HasPrefix(e.Op, "bolt.") {
				continue
			}
			for _, a := range e.Args {
				note(name, a)
			}
		}
	})
	return
}

// prepared: when a construction succeeds, every bucket that is later opened
// without looking is there, and whatever was there still is.
func (c *Ctx) bucketsPrepared(rule string) {
	for _, p := range c.providers() {
		if p.kind == "redis" && p.ctor != nil {
			c.defaultNames(c.run(p.ctor), rule)
		}
		if p.kind != "bolt" || p.ctor == nil {
			continue
		}
		roles, keys := c.bucketsUsed(p)
		if len(roles) == 0 {
			c.fail("no operation of the bolt provider opens a bucket")
			continue
		}
		var names []string
		for n := range roles {
			names = append(names, n)
		}
		sort.Strings(names)
		r := c.run(p.ctor)
		c.defaultNames(r, rule)
		for _, e := range r.en.events {
			switch {
			case e.Op == "bolt.DeleteBucket" || e.Op == "bolt.Delete" || e.Op == "bolt.Put" || e.Op == "bolt.CursorDelete":
				c.obx(rule, r, nil, e.Pos, e.Op, false, "a construction changes what is stored: %s", e)
			case e.Op == "bolt.CreateBucket" && e.Ok:
				b := e.Res
				c.obx(rule, r, nil, e.Pos, e.Op, b != nil && tri(e.Facts, mkEq(b, tNil)) == yes, "a bucket is created that may be there already: %s", e)
			}
		}
		r.exits(func(o *Outcome) {
			if class, _ := c.errOf(o); class != "nil" {
				return
			}
			committed := map[*Term]bool{}
			for _, e := range o.st.log {
				if e.Op == "tx.commit" && e.Ok {
					committed[e.Args[0]] = true
				}
			}
			there := map[string]bool{}
			note := func(b *Term, made bool) {
				if b == nil || b.Op != "bucket" {
					return
				}
				tx, n := bktPath(b)
				if made && !committed[tx] {
					return
				}
				if role, _ := bktRole(b); role == "store" {
					there[role] = true
					for k := range keys {
						for _, v := range r.under(o, o.res[0], k) {
							c.obx(rule, r, o, o.pos, "name", strip(v) == strip(n[0]), "the bucket prepared is %v, the one used %v", n[0], v)
						}
					}
				} else {
					there[role] = true
				}
			}
			for _, e := range o.st.log {
				if strings.HasPrefix(e.Op, "bolt.CreateBucket") && e.Ok {
					note(e.Res, true)
				}
			}
			for k, v := range o.st.facts.m {
				if k.Op == "eq" && !v {
					for j := 0; j < 2; j++ {
						if k.Args[j] == tNil && k.Args[1-j].Op == "bucket" {
							made := false
							for _, e := range o.st.log {
								if strings.HasPrefix(e.Op, "bolt.CreateBucket") && e.Ok && e.Res == k.Args[1-j] {
									made = true
								}
							}
							note(k.Args[1-j], made)
						}
					}
				}
			}
			for _, n := range names {
				c.obx(rule, r, o, o.pos, n, there[n], "%s opens the bucket %q without looking, which a construction need not have prepared", roles[n], n)
			}
		})
	}
}

// defaultNames: where no option says what to open, what is opened has a name.
func (c *Ctx) defaultNames(r *Run, rule string) {
	checked := map[string]bool{}
	for _, e := range r.en.events {
		var name *Term
		switch {
		case e.Op == "bolt.Open":
			name = e.Args[0]
		case e.Op == "redis.ParseURL":
			name = e.Args[0]
		case strings.HasPrefix(e.Op, "bolt.CreateBucket") && e.Args[0].Op == "tx":
			name = e.Args[1]
		}
		if name == nil {
			continue
		}
		// what the name is when no option gives one
		k := settingOf(strip(name))
		if k == "" || checked[k] {
			continue
		}
		checked[k] = true
		v := c.defaultOf(k)
		empty := v == tNil || v != nil && v.Op == "seq" && len(v.Args) == 0
		if v != nil {
			if s, ok := strip(v).strVal(); ok && s == "" {
				empty = true
			}
		}
		c.obx(rule, r, nil, e.Pos, "default "+k, !empty, "without options, the name in %s is empty, which the storage refuses", e)
	}
}

// stopped: a ticker a constructor makes is stopped when the provider is
// closed, by Close or by the background task that has it.
func (c *Ctx) tickersStopped(p *Prov, rule string) {
	if p.ctor == nil || p.m["Close"] == nil {
		return
	}
	r := c.run(p.ctor)
	rc := c.run(p.m["Close"])
	recv := recvOf(p.m["Close"])
	var closing func(keys map[string]bool) string
	closing = func(keys map[string]bool) string {
		why := "Close does not stop the ticker"
		if len(keys) == 0 {
			return "the ticker is not kept for Close to stop it"
		}
		n := 0
		bad := false
		rc.exits(func(o *Outcome) {
			if class, _ := c.errOf(o); class != "nil" {
				return
			}
			n++
			is := func(t *Term) bool {
				t = strip(t)
				return t != nil && t.Op == "load" && t.Args[0].Op == "faddr" && keys[fieldKeyOf(t.Args[0])] && root(t.Args[0]) == recv
			}
			ok := false
			for _, e := range o.st.log {
				if e.Op == "tickerstop" && is(e.Args[0]) {
					ok = true
				}
			}
			for k, v := range o.st.facts.m {
				if k.Op == "eq" && v && (k.Args[0] == tNil && is(k.Args[1]) || k.Args[1] == tNil && is(k.Args[0])) {
					ok = true
				}
			}
			if !ok {
				bad = true
			}
		})
		if n > 0 && !bad {
			why = ""
		}
		return why
	}
	// the fields of type *time.Ticker, wherever they are below the provider
	fields := structFieldsT(p.typ, "*time.Ticker")
	r.exits(func(o *Outcome) {
		if class, _ := c.errOf(o); len(o.res) > 1 && class != "nil" || len(o.res) == 0 {
			return
		}
		gone := map[*Term]bool{}
		for _, e := range o.st.log {
			if e.Op == "tickerstop" {
				gone[e.Args[0]] = true
			}
		}
		for _, e := range o.st.log {
			if e.Op != "newticker" || !e.Ok || gone[e.Res] {
				continue
			}
			T := e.Res
			keys := map[string]bool{}
			for _, f := range fields {
				for _, v := range r.under(o, o.res[0], f) {
					if v == T {
						keys[f] = true
					}
				}
			}
			why := closing(keys)
			if why != "" {
				for _, g := range o.st.log {
					if g.Op == "go" && c.workerStops(p, o, g, T) {
						why = ""
					}
				}
			}
			c.ob(rule, r, o, e.Pos, why == "", "%s", why)
		}
	})
}

// workerStops: the background task started by g has ticker T and stops it
// whenever it ends.
func (c *Ctx) workerStops(p *Prov, o *Outcome, g *Event, T *Term) bool {
	for _, w := range c.workersOf(p) {
		if w.pos != g.Pos {
			continue
		}
		has := map[*Term]bool{}
		for i, a := range g.Args[1:] {
			if a == T && i < len(w.args) {
				has[w.args[i]] = true
			}
		}
		if f := g.Args[0]; f.Op == "closure" {
			for i, b := range f.Args {
				if i >= len(w.binds) {
					break
				}
				if b == T {
					has[w.binds[i]] = true
				} else if o.st.heap.m[b] == T {
					has[mk("cell", "", nil, w.binds[i])] = true
				}
			}
		}
		n, bad := 0, false
		w.run.exits(func(x *Outcome) {
			n++
			ok := false
			for _, e := range x.st.log {
				if e.Op != "tickerstop" {
					continue
				}
				t := strip(e.Args[0])
				if has[t] || t.Op == "load" && has[mk("cell", "", nil, t.Args[0])] {
					ok = true
				}
			}
			if !ok {
				bad = true
			}
		})
		if n > 0 && !bad && len(has) > 0 {
			return true
		}
	}
	return false
}

// settingOf: the field of the settings a value comes from.
func settingOf(t *Term) string {
	for t != nil {
		switch t.Op {
		case "hv", "load":
			t = t.Args[0]
		case "faddr":
			return fieldKeyOf(t)
		default:
			return ""
		}
	}
	return ""
}

// defaultOf: the value of a setting in the package's defaults, if known.
func (c *Ctx) defaultOf(key string) *Term {
	for k, v := range c.a.initHeap {
		if k.Op == "faddr" && k.Args[0].Op == "global" && fieldKeyOf(k) == key {
			return v
		}
	}
	return nil
}
