package main

// C22 (lifetime options), C23 (stored forms), C24 (owned resources).

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C22"] = c22
	props["C23"] = c23
	props["C24"] = c24
}

// options describes the configuration of a provider: the interface of its
// options, the struct they fill in, and what each exported option does to it.
type options struct {
	p      *Prov
	iface  *types.Named
	method *types.Func
	strct  *types.Named
	funcs  []*ssa.Function
}
type applied struct {
	r  *Run
	o  *Outcome
	po *Term

	pre *State
}

func (c *Ctx) options(p *Prov) *options {
	x := &options{p: p}
	sig := p.ctor.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		s, ok := sig.Params().At(i).Type().(*types.Slice)
		if !ok {
			continue
		}
		if n, ok := s.Elem().(*types.Named); ok {
			if it, ok := n.Underlying().(*types.Interface); ok && it.NumMethods() == 1 {
				x.iface, x.method = n, it.Method(0)
			} else if _, ok := n.Underlying().(*types.Signature); ok {
				x.iface = n
			}
		}
	}
	if x.iface == nil {
		c.fail(p.ctor.String() + " takes no options")
		return nil
	}
	var sg *types.Signature
	if x.method != nil {
		sg = x.method.Type().(*types.Signature)
	} else {
		sg = x.iface.Underlying().(*types.Signature)
	}
	if sg.Params().Len() == 1 {
		if pt, ok := sg.Params().At(0).Type().(*types.Pointer); ok {
			x.strct, _ = pt.Elem().(*types.Named)
		}
	}
	if x.strct == nil {
		c.fail("the options of " + p.ctor.String() + " fill in no struct")
		return nil
	}
	var names []string
	for n := range p.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := p.pkg.Members[n].(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 {
			continue
		}
		if types.Identical(f.Signature.Results().At(0).Type(), x.iface) {
			x.funcs = append(x.funcs, f)
		}
	}
	return x
}

// apply interprets what an option does to the options struct.
func (c *Ctx) apply(x *options, fn *ssa.Function) []applied {
	r := c.run(fn)
	po := mk("param", "po", types.NewPointer(x.strct))
	var out []applied
	for i := range r.outs {
		o := &r.outs[i]
		if o.panic || len(o.res) != 1 {
			continue
		}
		v := o.res[0]
		var f *ssa.Function
		var args, binds []*Term
		switch {
		case v.Op == "iface" && x.method != nil && v.Type != nil:
			f = lookupMethod(c.a.prog, v.Type, x.method)
			args = []*Term{v.Args[0], po}
		case v.Op == "fn" || v.Op == "closure":
			f, _ = v.Obj.(*ssa.Function)
			args, binds = []*Term{po}, v.Args
		}
		if f == nil || len(f.Blocks) == 0 {
			c.fail("what " + fn.String() + " returns is not understood")
			continue
		}
		en := newEngine(c.a)
		pre := o.st.clone()
		outs := en.exec(en.frame(nil, f, nil, ""), args, binds, o.st.clone())
		for u := range en.und {
			c.fail("undecided in " + fn.String() + ": " + u)
		}
		rr := &Run{fn: fn, en: en, outs: outs}
		for j := range outs {
			out = append(out, applied{rr, &outs[j], po, pre})
		}
	}
	return out
}

func (x *options) field(key string) *types.Var {
	st := x.strct.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if fieldKey(x.strct, i) == key {
			return st.Field(i)
		}
	}
	return nil
}
func (x *options) addr(base *Term, key string) *Term {
	st := x.strct.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if k := fieldKey(x.strct, i); k == key {
			return mkObj("faddr", fname(st.Field(i)), k, types.NewPointer(st.Field(i).Type()), base)
		}
	}
	return nil
}

// lifetime finds the option that sets a lifetime, and the field it sets.
func (c *Ctx) lifetime(x *options, suffix string) (*ssa.Function, string) {
	for _, f := range x.funcs {
		if !strings.HasSuffix(f.Name(), suffix) || len(f.Params) != 1 || typeStr(f.Params[0].Type()) != "time.Duration" {
			continue
		}
		var keys map[string]bool
		for _, a := range c.apply(x, f) {
			got := map[string]bool{}
			for k, v := range a.o.st.heap.m {
				if k.Op == "faddr" && k.Args[0] == a.po && v == par(f, 0) {
					got[fieldKeyOf(k)] = true
				}
			}
			if keys == nil {
				keys = got
			} else {
				for k := range keys {
					if !got[k] {
						delete(keys, k)
					}
				}
			}
		}
		if len(keys) == 1 {
			for k := range keys {
				return f, k
			}
		}
		return f, ""
	}
	return nil, ""
}

// lifetimes finds the fields of the access and the refresh lifetime.
func (c *Ctx) lifetimes(x *options) (access, refresh string, fa, fr *ssa.Function) {
	fa, access = c.lifetime(x, "Access")
	fr, refresh = c.lifetime(x, "Refresh")
	// the option names one field, by its name if it sets several
	pick := func(word string) string {
		st := x.strct.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if strings.Contains(strings.ToLower(fname(st.Field(i))), word) && typeStr(st.Field(i).Type()) == "time.Duration" {
				return fieldKey(x.strct, i)
			}
		}
		return ""
	}
	if access == "" {
		access = pick("access")
	}
	if refresh == "" {
		refresh = pick("refresh")
	}
	return
}

func c22(c *Ctx) {
	c.rule("requested", "a lifetime option gives its lifetime exactly the value asked for", 6)
	c.rule("ordered", "after a lifetime option the access lifetime is at most the refresh lifetime, if it was so before", 6)
	c.rule("other", "no other option touches a lifetime", 9)
	c.rule("defaults", "the default access lifetime is at most the default refresh lifetime", 3)
	c.rule("applied", "a new provider applies every option given, in order, to its own copy of the defaults", 3)
	c.rule("own", "no option and no construction changes anything other providers see", 6)
	for _, p := range c.providers() {
		x := c.options(p)
		if x == nil {
			continue
		}
		access, refresh, fa, fr := c.lifetimes(x)
		if fa == nil || fr == nil || access == "" || refresh == "" || access == refresh {
			c.fail("the lifetime options of " + p.kind + " set no distinct lifetimes")
			continue
		}
		value := func(a applied, key string) *Term {
			ad := x.addr(a.po, key)
			if v, ok := a.o.st.heap.m[ad]; ok {
				return v
			}
			return a.r.en.load(a.pre.clone(), ad, x.field(key).Type())
		}
		for _, fn := range x.funcs {
			for _, a := range c.apply(x, fn) {
				f := Facts{}
				for k, v := range a.o.st.facts.m {
					f[k] = v
				}
				la := a.r.en.load(a.pre.clone(), x.addr(a.po, access), x.field(access).Type())
				lr := a.r.en.load(a.pre.clone(), x.addr(a.po, refresh), x.field(refresh).Type())
				va, vr := value(a, access), value(a, refresh)
				if a.o.panic {
					continue
				}
				if fn == fa || fn == fr {
					got := va
					if fn == fr {
						got = vr
					}
					c.ob("requested", a.r, a.o, fn.Pos(), got == par(fn, 0), "%s sets %v", fn.Name(), got)
					ok := tri(f, mkLt(vr, va)) == no || va == vr
					if !ok {
						f[mkLt(lr, la)] = false
						ok = tri(f, mkLt(vr, va)) == no
					}
					c.ob("ordered", a.r, a.o, fn.Pos(), ok, "after %s access is %v and refresh is %v", fn.Name(), va, vr)
				} else {
					c.ob("other", a.r, a.o, fn.Pos(), va == la && vr == lr, "%s changes a lifetime", fn.Name())
				}
				for _, e := range a.o.st.log {
					if e.Op == "store" {
						r := root(e.Args[0])
						c.ob("own", a.r, a.o, e.Pos, r == a.po || isFresh(r), "%s", e)
					}
				}
			}
			r := c.run(fn)
			for _, e := range r.en.events {
				if e.Op == "store" {
					c.ob("own", r, nil, e.Pos, isFresh(root(e.Args[0])), "%s", e)
				}
			}
		}
		r, _ := c.construction(p, x, []string{access, refresh})
		// defaults
		da, dr := map[*Term]*Term{}, map[*Term]*Term{}
		for k, v := range c.a.initHeap {
			if k.Op == "faddr" && k.Args[0].Op == "global" {
				switch fieldKeyOf(k) {
				case access:
					da[k.Args[0]] = v
				case refresh:
					dr[k.Args[0]] = v
				}
			}
		}
		n := 0
		for g, a := range da {
			n++
			av, ok1 := a.intVal()
			rv, ok2 := int64(0), false
			if dr[g] != nil {
				rv, ok2 = dr[g].intVal()
			}
			c.ob("defaults", r, nil, p.ctor.Pos(), ok1 && ok2 && av <= rv && av > 0, "by default access is %v and refresh is %v", a, dr[g])
		}
		c.ob("defaults", r, nil, p.ctor.Pos(), n > 0, "no defaults")
	}
}

// construction checks that a constructor applies every option given, in order,
// to its own copy of the defaults, and works with the settings keys names.
func (c *Ctx) construction(p *Prov, x *options, keys []string) (*Run, *Term) {
	setting := map[string]bool{}
	for _, k := range keys {
		setting[k] = true
	}
	r := c.run(p.ctor)
	var list *Term
	for i := range p.ctor.Params {
		if s, ok := p.ctor.Params[i].Type().(*types.Slice); ok && types.Identical(s.Elem(), x.iface) {
			list = par(p.ctor, i)
			if p.ctor.Signature.Recv() != nil {
				list = nil
			}
		}
	}
	isApply := func(e *Event) bool {
		return x.method != nil && e.Op == "ext:"+shortName(x.method.FullName()) || e.Op == "ext:dyncall" && x.method == nil
	}
	var target *Term
	nIter := 0
	for _, li := range r.en.loops {
		for _, it := range li.iters {
			n := 0
			for _, e := range it.events {
				if !isApply(e) {
					continue
				}
				n++
				l, i := element(e.Args[0], list)
				ok := l != nil && r.counts(i) && len(e.Raw) == 2 && isFresh(root(e.Raw[1])) && (target == nil || target == e.Raw[1])
				if ok {
					target = e.Raw[1]
				}
				c.ob("applied", r, nil, e.Pos, ok, "%s is not the next option applied to a copy of the defaults", e)
			}
			has := false
			for _, e := range r.en.events {
				if isApply(e) {
					for _, l := range e.Loop {
						has = has || l == li.id
					}
				}
			}
			if has && it.exit == "next" {
				nIter++
				c.ob("applied", r, nil, p.ctor.Pos(), n == 1, "an option is passed over or applied twice")
			}
			if has && it.exit != "next" {
				c.ob("applied", r, nil, p.ctor.Pos(), false, "not every option is applied")
			}
		}
	}
	c.ob("applied", r, nil, p.ctor.Pos(), target != nil && nIter > 0, "no option is applied")
	for _, e := range r.en.events {
		if e.Op == "store" && target != nil {
			a := e.Args[0]
			if a.Op == "faddr" && root(a) == target && setting[fieldKeyOf(a)] && len(e.Loop) == 0 {
				// the defaults
				ok := false
				for k, v := range c.a.initHeap {
					if k.Op == "faddr" && k.Args[0].Op == "global" && fieldKeyOf(k) == fieldKeyOf(a) {
						ok = ok || e.Args[1] == v || e.Args[1].Op == "load" && e.Args[1].Args[0] == k
					}
				}
				c.ob("applied", r, nil, e.Pos, ok, "%s: the options do not start from the defaults", e)
			}
		}
		if e.Op == "store" {
			c.ob("own", r, nil, e.Pos, isFresh(root(e.Args[0])), "%s", e)
		}
		if isApply(e) {
			c.ob("own", r, nil, e.Pos, len(e.Raw) == 2 && isFresh(root(e.Raw[1])), "%s: an option is applied to what other providers see", e)
		}
	}
	// what the provider works with
	r.exits(func(o *Outcome) {
		if target == nil || o.res[0] == tNil {
			return
		}
		for _, key := range keys {
			have := r.under(o, o.res[0], key)
			if len(have) == 0 {
				c.ob("applied", r, o, o.pos, false, "the new provider has no %s", key)
			}
			for _, v := range have {
				want := c.asLeft(r, o, target, x.addr(target, key), x.field(key).Type())
				ok := v == want || len(keys) > 2 && absent(o.st.facts.m, want)
				c.ob("applied", r, o, o.pos, ok, "the new provider has %v instead of the configured %v", v, want)
			}
		}
	})
	return r, target
}

// under: the values of a field wherever it is below an object.
func (r *Run) under(o *Outcome, obj *Term, key string) []*Term {
	var out []*Term
	var walk func(base *Term, t types.Type, d int)
	walk = func(base *Term, t types.Type, d int) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || d > 3 {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			k := fieldKey(t, i)
			a := mkObj("faddr", fname(st.Field(i)), k, types.NewPointer(st.Field(i).Type()), base)
			if k == key {
				out = append(out, r.en.load(o.st.clone(), a, st.Field(i).Type()))
				continue
			}
			if n, ok := st.Field(i).Type().(*types.Named); ok && r.en.a.repoStruct(n) != nil {
				walk(a, n, d+1)
			}
		}
	}
	if pt, ok := obj.Type.(*types.Pointer); ok {
		walk(obj, pt.Elem(), 0)
	}
	return out
}

// ---- C23 ----

func c23(c *Ctx) {
	c.rule("coder", "each coder decodes with the format it encodes with", 3)
	c.rule("reported", "a coder fails exactly when its format does", 3)
	c.rule("pair", "what one kind of stored thing is encoded with, and as, is what it is decoded with, and as", 3)
	c.rule("fields", "every metadata field is part of the stored form", 8)
	c.rule("fresh", "metadata is decoded into a fresh value", 2)
	c.rule("number", "bolt's numbers are written and read as fixed-width big-endian", 4)
	rp := c.a.pkg("")
	coder, _ := rp.Type("Coder").Type().Underlying().(*types.Interface)
	if coder == nil {
		c.fail("no Coder interface")
		return
	}
	var names []string
	for n := range rp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t, ok := rp.Members[n].(*ssa.Type)
		if !ok || types.IsInterface(t.Type()) || !t.Object().Exported() || !types.Implements(types.NewPointer(t.Type()), coder) {
			continue
		}
		enc, dec := lookupMethodName(c.a.prog, types.NewPointer(t.Type()), "Encode"), lookupMethodName(c.a.prog, types.NewPointer(t.Type()), "Decode")
		if enc == nil || dec == nil {
			continue
		}
		with := map[*Term]bool{}
		r := c.run(enc)
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			if class != "nil" {
				c.ob("reported", r, o, o.pos, failedStep(o), "a value is refused although encoding did not fail")
				return
			}
			v := o.res[0]
			ok := v.Op == "encoded" && strip(v.Args[1]) == par(enc, 0)
			if ok {
				with[v.Args[0]] = true
			}
			c.ob("coder", r, o, o.pos, ok, "a value is encoded as %v", v)
		})
		r = c.run(dec)
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			var n, ok int
			for _, e := range o.st.log {
				if e.Op != "decode" {
					continue
				}
				n++
				good := with[e.Args[0]] && bytesOf(e.Args[1]) == par(dec, 0) && strip(e.Args[2]) == par(dec, 1)
				c.ob("coder", r, o, e.Pos, good, "%s is not the counterpart of what %s.Encode does", e, n)
				if e.Ok {
					ok++
				}
			}
			if class == "nil" {
				c.ob("coder", r, o, o.pos, n == 1 && ok == 1, "decoding succeeds without decoding")
			} else {
				c.ob("reported", r, o, o.pos, failedStep(o), "bytes are refused although decoding did not fail")
			}
		})
		c.ob("coder", r, nil, enc.Pos(), len(with) == 1, "%s encodes in %d ways", n, len(with))
	}
	// metadata and indexes of the providers
	for _, p := range c.providers() {
		if p.kind == "memory" {
			continue
		}
		type use struct {
			codec *Term
			typ   string
		}
		enc, dec := map[string]map[use]*Event{}, map[string]map[use]*Event{}
		add := func(m map[string]map[use]*Event, role string, u use, e *Event) {
			if m[role] == nil {
				m[role] = map[use]*Event{}
			}
			if m[role][u] == nil {
				m[role][u] = e
			}
		}
		runs := map[*Event]*Run{}
		read := map[string]bool{}
		var mdTypes = map[string]types.Type{}
		canon := func(k, recv *Term) *Term {
			return newSubst(map[*Term]*Term{recv: mk("hole", "", nil)}).do(k)
		}
		c.allRuns(p, func(name string, r *Run, worker bool) {
			recv := mk("param", "recv p", types.NewPointer(p.typ))
			if r.fn.Signature.Recv() != nil && len(r.fn.Params) > 0 {
				recv = recvOf(r.fn)
			}
			for _, e := range r.en.events {
				runs[e] = r
				switch e.Op {
				case "bolt.Put":
					role, _ := bktRole(e.Args[0])
					v := e.Args[2]
					if v.Op == "encoded" {
						add(enc, role, use{canon(v.Args[0], recv), encType(v.Args[1])}, e)
					} else if role == "metadata" || role == "ids" {
						c.ob("pair", r, nil, e.Pos, false, "%s writes something not encoded", e)
					}
					switch role {
					case "lru":
						k := unold(e.Args[1])
						c.ob("number", r, nil, e.Pos, k.Op == "be64" || k.Op == "ckey", "an age is written as %v", k)
					case "store":
						c.ob("number", r, nil, e.Pos, v.Op == "be64", "a number is written as %v", v)
					}
				case "bolt.Delete":
					if role, _ := bktRole(e.Args[0]); role == "lru" {
						k := unold(e.Args[1])
						c.ob("number", r, nil, e.Pos, k.Op == "be64" || k.Op == "ckey" || k.Op == "bcopy", "an age is looked for as %v", k)
					}
				case "redisq.HSet", "redis.HSet":
					for _, a := range e.Args {
						a.any(func(x *Term) bool {
							if x.Op == "encoded" {
								add(enc, "metadata", use{canon(x.Args[0], recv), encType(x.Args[1])}, e)
							}
							return false
						})
					}
				case "decode":
					role := ""
					e.Args[1].any(func(x *Term) bool {
						if x.Op == "get" && role == "" {
							role, _ = bktRole(x.Args[0])
						}
						if x.Op == "cval" && role == "" {
							for _, y := range x.Args {
								y.any(func(z *Term) bool {
									if z.Op == "bucket" && role == "" {
										role, _ = bktRole(z)
									}
									return role != ""
								})
							}
						}
						if (x.Op == "cmdval" || x.Op == "redis") && role == "" {
							role = "metadata"
						}
						return role != ""
					})
					if role == "" && p.kind == "redis" {
						role = "metadata"
					}
					if role == "" { // what the operation has put there itself
						for _, x := range r.en.events {
							if x.Op == "bolt.Put" && strip(x.Args[2]) == strip(e.Args[1]) {
								role, _ = bktRole(x.Args[0])
							}
						}
					}
					typ := ""
					if t := e.Args[2]; t != nil {
						if t.Op == "iface" && t.Type != nil {
							typ = typeStr(derefType(t.Type))
							mdTypes[typ] = derefType(t.Type)
						} else if t.Type != nil {
							typ = typeStr(derefType(t.Type))
							mdTypes[typ] = derefType(t.Type)
						}
					}
					add(dec, role, use{canon(e.Args[0], recv), typ}, e)
					// into something fresh
					tgt := unwrapIface(e.Args[2])
					c.ob("fresh", r, nil, e.Pos, isFresh(root(tgt)), "%s decodes over something older", e)
				}
				// numbers are only read as such
				for _, a := range append([]*Term{e.Res}, e.Args...) {
					if a != nil && p.kind == "bolt" {
						badNumber(a, func(x *Term) { c.ob("number", r, nil, e.Pos, false, "a number is read as %v", x) })
					}
				}
				for f := range e.Facts {
					f.any(func(x *Term) bool {
						if x.Op == "field" && x.Args[0].Op == "decoded" {
							read[x.Args[0].Aux+"."+x.Aux] = true
						}
						return false
					})
				}
			}
			r.exits(func(o *Outcome) {
				for f := range o.st.facts.m {
					if p.kind == "bolt" {
						badNumber(f, func(x *Term) { c.ob("number", r, o, o.pos, false, "a number is read as %v", x) })
					}
				}
			})
		})
		roles := map[string]bool{}
		for k := range enc {
			roles[k] = true
		}
		for k := range dec {
			roles[k] = true
		}
		var rs []string
		for k := range roles {
			rs = append(rs, k)
		}
		sort.Strings(rs)
		for _, role := range rs {
			all := map[use]*Event{}
			for u, e := range enc[role] {
				all[u] = e
			}
			for u, e := range dec[role] {
				all[u] = e
			}
			var us []string
			var at *Event
			for u, e := range all {
				us = append(us, fmt.Sprintf("%v as %s", u.codec, u.typ))
				at = e
			}
			sort.Strings(us)
			ok := len(all) == 1 && len(enc[role]) == 1 && len(dec[role]) == 1
			c.obx("pair", runs[at], nil, at.Pos, p.kind+role, ok, "%s of %s is coded in different ways or only one way: %s", role, p.kind, strings.Join(us, "; "))
		}
		// the form of the metadata
		var ts []string
		for t := range mdTypes {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		for _, tn := range ts {
			t := mdTypes[tn]
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for _, m := range []string{"GobEncode", "GobDecode", "MarshalJSON", "UnmarshalJSON", "MarshalXML", "UnmarshalXML", "MarshalText", "UnmarshalText", "MarshalBinary", "UnmarshalBinary"} {
				if fn := lookupMethodName(c.a.prog, types.NewPointer(t), m); fn != nil {
					c.ob("fields", nil, nil, fn.Pos(), false, "%s codes itself in a way not analysed", tn)
				}
			}
			seen := map[string]string{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag := reflect.StructTag(st.Tag(i))
				skip := strings.HasPrefix(tag.Get("json"), "-") || strings.HasPrefix(tag.Get("xml"), "-")
				c.obx("fields", nil, nil, f.Pos(), p.kind+f.Name(), f.Exported() && !skip, "field %s of %s is not stored", f.Name(), tn)
				for _, k := range []string{"json", "xml"} {
					n := strings.Split(tag.Get(k), ",")[0]
					if n == "" {
						n = f.Name()
					}
					if o := seen[k+strings.ToLower(n)]; o != "" {
						c.obx("fields", nil, nil, f.Pos(), p.kind+f.Name(), false, "fields %s and %s of %s share a stored name", o, f.Name(), tn)
					}
					seen[k+strings.ToLower(n)] = f.Name()
				}
			}
		}
		if len(ts) == 0 {
			c.fail("no metadata of " + p.kind + " is decoded")
		}
	}
}
func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// encType: the type a value is encoded as.
func encType(t *Term) string {
	if t.Op == "ptrto" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	t = unwrapIface(t)
	if t.Op == "ptrto" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	switch t.Op {
	case "struct", "zero":
		return t.Aux
	case "seq", "mkslice", "W":
		if t.Type != nil {
			return typeStr(t.Type)
		}
		return "[]string"
	}
	if t.Type != nil {
		return typeStr(derefType(t.Type))
	}
	return t.Op
}

// badNumber finds the stored count or the age read otherwise than as big-endian.
func badNumber(t *Term, bad func(x *Term)) {
	seen := map[*Term]bool{}
	isNum := func(x *Term) bool {
		if x.Op != "get" {
			return false
		}
		role, _ := bktRole(x.Args[0])
		return role == "store"
	}
	var w func(x *Term)
	w = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		switch x.Op {
		case "unbe64", "be64", "eq", "len", "not":
			for _, a := range x.Args {
				if !isNum(a) {
					w(a)
				}
			}
			return
		}
		for _, a := range x.Args {
			if isNum(a) && x.Op == "call" {
				bad(x)
			}
			w(a)
		}
	}
	w(t)
}

// ---- C24 ----

func c24(c *Ctx) {
	c.rule("failed", "a failed construction closes what it opened, once, nothing else, and leaves no provider and no background task", 2)
	c.rule("made", "a successful construction leaves the storage open and everything it did had succeeded", 2)
	c.rule("uses", "a provider uses the storage supplied, and opens one only if none was", 2)
	c.rule("close", "closing a provider closes the storage exactly if the provider had opened it", 3)
	c.rule("steady", "what tells the storage apart never changes after construction", 2)
	c.rule("prepared", "a successful construction has prepared every bucket that operations use, and removed nothing", 5)
	c.bucketsPrepared("prepared")
	c.rule("stopped", "a ticker that a construction starts is stopped when the provider is closed", 2)
	for _, p := range c.providers() {
		c.tickersStopped(p, "stopped")
	}
	isOpen := func(e *Event) bool { return e.Op == "bolt.Open" || e.Op == "redis.NewClient" }
	isClose := func(e *Event) bool { return e.Op == "bolt.Close" || e.Op == "redis.Close" }
	for _, p := range c.providers() {
		if p.kind == "memory" {
			continue
		}
		storage := "*github.com/boltdb/bolt.DB"
		if p.kind == "redis" {
			storage = "*github.com/go-redis/redis/v8.Client"
		}
		r := c.run(p.ctor)
		x := c.options(p)
		if x == nil {
			continue
		}
		// the option that supplies the storage
		supply := ""
		for _, f := range structFieldsT(x.strct, storage) {
			supply = f
		}
		if supply == "" {
			c.fail("no option of " + p.kind + " supplies the storage")
			continue
		}
		// without options, none is
		byDefault := false
		for k, v := range c.a.initHeap {
			if k.Op == "faddr" && k.Args[0].Op == "global" && fieldKeyOf(k) == supply {
				byDefault = v == tNil
			}
		}
		var made []*Outcome
		given := func(o *Outcome) int {
			res := unknown
			for k, v := range o.st.facts.m {
				if k.Op == "eq" && (k.Args[0] == tNil || k.Args[1] == tNil) {
					t := k.Args[0]
					if t == tNil {
						t = k.Args[1]
					}
					if t.Type != nil && typeStr(t.Type) == storage && t.Op != "obj" {
						if v {
							res = no
						} else {
							res = yes
						}
					}
				}
			}
			if res == unknown && byDefault {
				for i := range p.ctor.Params {
					if s, ok := p.ctor.Params[i].Type().(*types.Slice); ok && types.Identical(s.Elem(), x.iface) {
						if tri(o.st.facts.m, mkEq(mkInt(0), mkLen(par(p.ctor, i)))) == yes {
							res = no
						}
					}
				}
			}
			return res
		}
		r.exits(func(o *Outcome) {
			class, t := c.errOf(o)
			open, closed := map[*Term]int{}, map[*Term]int{}
			failed := false
			tickers := map[*Term]bool{}
			goes := 0
			for _, e := range o.st.log {
				switch {
				case isOpen(e) && e.Ok:
					open[e.Res]++
				case isClose(e):
					closed[e.Args[0]]++
				case e.Op == "go":
					goes++
				case e.Op == "newticker":
					tickers[e.Res] = true
				case e.Op == "tickerstop":
					delete(tickers, e.Args[0])
				}
				if !e.Ok && !isClose(e) {
					failed = true
				}
			}
			if class == "nil" {
				made = append(made, o)
				c.ob("made", r, o, o.pos, len(closed) == 0 && !failed && o.res[0] != tNil && len(open) <= 1, "a construction succeeds although something failed or was closed")
				g := given(o)
				c.ob("uses", r, o, o.pos, len(open) == 1 && g == no || len(open) == 0 && g == yes, "the storage is opened although one was supplied, or not opened although none was")
				// what the provider has
				ok := false
				for _, k := range storageFields(p.typ, storage) {
					for _, v := range r.under(o, o.res[0], k) {
						if open[v] > 0 || g == yes && v.Op != "nil" {
							ok = true
						}
					}
				}
				c.ob("uses", r, o, o.pos, ok, "the new provider does not have the storage")
				return
			}
			ok := o.res[0] == tNil && goes == 0 && len(tickers) == 0
			c.ob("failed", r, o, o.pos, ok, "a construction that answers %v leaves a provider or a task behind", t)
			for x := range open {
				c.ob("failed", r, o, o.pos, closed[x] == 1, "a construction that answers %v does not close what it opened once", t)
			}
			for x := range closed {
				c.ob("failed", r, o, o.pos, open[x] > 0, "a construction that answers %v closes %v, which it did not open", t, x)
			}
			c.ob("failed", r, o, o.pos, failed, "a construction fails with %v although nothing failed", t)
		})
		fn := c.method(p, "Close")
		if fn == nil {
			continue
		}
		rc := c.run(fn)
		recv := recvOf(fn)
		used := map[string]bool{}
		rc.exits(func(oc *Outcome) {
			class, t := c.errOf(oc)
			if class != "nil" {
				for _, e := range oc.st.log {
					if isClose(e) {
						c.ob("close", rc, oc, e.Pos, false, "the storage is closed although %v is answered", t)
					}
				}
				return
			}
			for _, om := range made {
				// the provider as it was made
				tr := func(x *Term) *Term { return r.translate(om, x, recv, om.res[0], used) }
				compatible := true
				for k, v := range oc.st.facts.m {
					if !k.any(func(x *Term) bool { return x == recv }) {
						continue
					}
					skip := false
					k.any(func(x *Term) bool {
						if x.Op == "faddr" && p.done[fieldKeyOf(x)] {
							skip = true
						}
						return false
					})
					if skip {
						continue
					}
					kt := tr(k)
					if d := tri(om.st.facts.m, kt); d == yes && !v || d == no && v {
						compatible = false
					}
				}
				if !compatible {
					continue
				}
				open := map[*Term]bool{}
				for _, e := range om.st.log {
					if isOpen(e) && e.Ok {
						open[e.Res] = true
					}
				}
				closed := map[*Term]int{}
				for _, e := range oc.st.log {
					if isClose(e) {
						closed[tr(e.Args[0])]++
					}
				}
				for x := range open {
					c.ob("close", rc, oc, oc.pos, closed[x] == 1, "the storage the provider opened is not closed once")
				}
				for x := range closed {
					c.ob("close", rc, oc, oc.pos, open[x], "%v is closed, which the provider did not open", x)
				}
				c.ob("close", rc, oc, oc.pos, true, "")
			}
		})
		c.ob("steady", rc, nil, fn.Pos(), true, "")
		c.allRuns(p, func(name string, r *Run, worker bool) {
			for _, e := range r.en.events {
				if e.Op == "store" && e.Args[0].Op == "faddr" && used[fieldKeyOf(e.Args[0])] && !isFresh(root(e.Args[0])) && !p.done[fieldKeyOf(e.Args[0])] {
					c.ob("steady", r, nil, e.Pos, false, "%s", e)
				}
				if isClose(e) && name != "Close" {
					c.ob("steady", r, nil, e.Pos, false, "%s closes the storage", name)
				}
			}
		})
	}
}

func structFieldsT(n types.Type, typ string) []string {
	var out []string
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeStr(st.Field(i).Type()) == typ {
			out = append(out, fieldKey(n, i))
		}
	}
	return out
}

// storageFields: the fields of that type of a struct and of the structs in it.
func storageFields(n types.Type, typ string) []string {
	out := structFieldsT(n, typ)
	if st, ok := n.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				out = append(out, structFieldsT(st.Field(i).Type(), typ)...)
			}
		}
	}
	return out
}

// translate reads a term about an object as one about what a constructor made.
func (r *Run) translate(o *Outcome, t, recv, obj *Term, used map[string]bool) *Term {
	memo := map[*Term]*Term{}
	var do func(t *Term) *Term
	do = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if t == recv {
			return obj
		}
		if x, ok := memo[t]; ok {
			return x
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = do(a)
			ch = ch || args[i] != a
		}
		x := t
		if ch {
			x = rebuild(t, args)
			if x.Op == "load" && x.Args[0].Op == "faddr" {
				used[fieldKeyOf(x.Args[0])] = true
				x = r.en.load(o.st.clone(), x.Args[0], t.Type)
			}
		}
		memo[t] = x
		return x
	}
	return do(t)
}

func unold(t *Term) *Term {
	for t.Op == "old" {
		t = t.Args[0]
	}
	return t
}
