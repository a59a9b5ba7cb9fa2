package main

// C15 (signatures) and C17 (signing methods).

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C15"] = c15
	props["C17"] = c17
}

// keyedSum: t is the keyed hash, by the method's own hash and the key given, of content.
func keyedSum(t, recv, key *Term, hash string, content *Term) bool {
	if t == nil || t.Op != "hmacsum" || len(t.Args) != 3 {
		return false
	}
	h := t.Args[0]
	okHash := false
	switch h.Op {
	case "closure":
		f, _ := h.Obj.(*ssa.Function)
		okHash = f != nil && strings.HasPrefix(f.String(), "(crypto.Hash).New$bound") && len(h.Args) == 1 && isField(h.Args[0], recv, hash)
		if f != nil && !okHash {
			okHash = returnsNew(f, h, recv, hash)
		}
	}
	k := t.Args[1]
	okKey := k.Op == "assert" && k.Aux == "[]byte" && k.Args[0] == key
	return okHash && okKey && t.Args[2] == mkSeq(nil, mkSpread(content))
}

// returnsNew: a function literal that gives a new hash of the method.
func returnsNew(f *ssa.Function, h, recv *Term, hash string) bool {
	if len(f.Blocks) != 1 || len(f.FreeVars) != len(h.Args) {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	call, ok := ret.Results[0].(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "(crypto.Hash).New" {
		return false
	}
	// the hash is that of the captured method
	u, ok := call.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldKey(fa.X.Type(), fa.Field) != hash {
		return false
	}
	x := fa.X
	if l, ok := x.(*ssa.UnOp); ok {
		x = l.X
	}
	for i, v := range f.FreeVars {
		if x == ssa.Value(v) {
			b := h.Args[i]
			return b == recv || b.Op == "alloc" || b.Op == "initalloc"
		}
	}
	return false
}

// hashField is the field of the method's hash.
func (c *Ctx) hashField(t types.Type) string {
	f := structFields(t, "crypto.Hash")
	if len(f) != 1 {
		c.fail(typeStr(t) + " has no single hash")
		return ""
	}
	return f[0]
}

func c15(c *Ctx) {
	c.rule("sign", "signing gives the encoded keyed hash of exactly the content, under the key given and the method's own hash", 1)
	c.rule("verify", "a signature is accepted only if, decoded as signing encodes it, it equals in constant time that same hash", 1)
	c.rule("refuse", "a signature is refused only for a key of another type, an unavailable hash, an undecodable or a different signature", 4)
	c.rule("available", "a hash is used only once it is known to be available", 2)
	c.rule("token", "a token is taken apart only after everything before its signature was verified, and is signed over exactly that", 3)
	p := c.a.pkg("cryptoer")
	if p == nil {
		c.fail("package cryptoer is gone")
		return
	}
	var encs []*Term
	hole := mk("hole", "", nil)
	typ := "SigningMethodHMAC"
	hash := ""
	if t := p.Type(typ); t != nil {
		hash = c.hashField(t.Type())
	}
	kind := func(f Facts, key *Term) int { return tri(f, mk("isT", "[]byte", nil, key)) }
	if fn := c.methodOf("cryptoer", typ, "Sign"); fn != nil {
		r := c.run(fn)
		recv, content, key := recvOf(fn), par(fn, 0), par(fn, 1)
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			class, t := c.errOf(o)
			if class == "nil" {
				in := injective(o.res[0])
				ok := in != nil && keyedSum(in, recv, key, hash, content) && kindFact(f, key) == yes
				c.ob("sign", r, o, o.pos, ok, "signs %v", o.res[0])
				c.ob("available", r, o, o.pos, availFact(f, recv, hash) == yes, "the hash may not be available")
				if in != nil {
					encs = append(encs, newSubst(map[*Term]*Term{in: hole}).do(o.res[0]))
				}
				return
			}
			ok := kindFact(f, key) == no || availFact(f, recv, hash) == no || failedStep(o)
			c.ob("refuse", r, o, o.pos, ok, "signing fails with %v although the key and the hash may be good", t)
		})
		_ = kind
	}
	if fn := c.methodOf("cryptoer", typ, "Verify"); fn != nil {
		r := c.run(fn)
		recv, content, sig, key := recvOf(fn), par(fn, 0), par(fn, 1), par(fn, 2)
		// compared: both sides of a constant-time comparison
		compared := func(k *Term) (a, b *Term) {
			if k.Op == "call" && k.Aux == "hmac.Equal" {
				return k.Args[0], k.Args[1]
			}
			if k.Op == "eq" {
				for i := range k.Args {
					if k.Args[i].isInt(1) && k.Args[1-i].Op == "call" && strings.HasSuffix(k.Args[1-i].Aux, "subtle.ConstantTimeCompare") {
						return k.Args[1-i].Args[0], k.Args[1-i].Args[1]
					}
				}
			}
			return
		}
		matches := func(f Facts, a, b *Term) bool {
			for i := 0; i < 2; i++ {
				if keyedSum(b, recv, key, hash, content) && a.Op == "ext" && a.Aux == "0" {
					d := a.Args[0]
					if decodes(d, sig, encs) && tri(f, mkEq(mk("ext", "1", nil, d), tNil)) == yes {
						return true
					}
				}
				// both in encoded form
				for _, e := range encs {
					x, y := bytesOf(a), bytesOf(b)
					in := injective(y)
					if x == sig && in != nil && keyedSum(in, recv, key, hash, content) && newSubst(map[*Term]*Term{in: hole}).do(y) == e {
						return true
					}
				}
				a, b = b, a
			}
			return false
		}
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			class, t := c.errOf(o)
			eq := unknown
			for k, v := range f {
				if a, b := compared(k); a != nil && matches(f, a, b) {
					if v {
						eq = yes
					} else {
						eq = no
					}
				}
			}
			if class == "nil" {
				c.ob("verify", r, o, o.pos, eq == yes && kindFact(f, key) == yes, "a signature is accepted without being the keyed hash of the content")
				c.ob("available", r, o, o.pos, availFact(f, recv, hash) == yes, "the hash may not be available")
				return
			}
			ok := false
			switch {
			case kindFact(f, key) == no:
				ok = true
			case availFact(f, recv, hash) == no:
				ok = true
			case eq == no:
				ok = true
			case failedStep(o):
				ok = true
			}
			c.ob("refuse", r, o, o.pos, ok, "a signature is refused with %v although it may be right", t)
		})
	}
	// whole tokens
	sep := c.separator()
	if fn := c.funcOf("cryptoer", "Encode"); fn != nil {
		r := c.run(fn)
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			if class != "nil" {
				return
			}
			ok := false
			for _, e := range o.st.log {
				if strings.HasSuffix(e.Op, "SigningMethod).Sign") && e.Ok {
					v := mkCat(par(fn, 2), mkStr(sep), par(fn, 3))
					ok = e.Args[0] == par(fn, 0) && e.Args[1] == v && unwrapIface(e.Args[2]) == par(fn, 1) && o.res[0] == mkCat(v, mkStr(sep), e.Res)
				}
			}
			c.ob("token", r, o, o.pos, ok, "the token is %v", o.res[0])
		})
	}
	if fn := c.funcOf("cryptoer", "Decode"); fn != nil {
		r := c.run(fn)
		tok := par(fn, 2)
		last := mk("call", "strings.LastIndex", types.Typ[types.Int], tok, mkStr(sep))
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			class, t := c.errOf(o)
			if class != "nil" {
				ok := failedStep(o)
				for k, v := range f {
					// some separator is missing
					k.any(func(x *Term) bool {
						if x.Op == "call" && strings.Contains(x.Aux, "Index") {
							_, hi, _, has := bounds(f, x)
							if has && (hi < 0 || x == last && hi == 0) {
								ok = true
							}
						}
						return ok
					})
					if k.Op == "eq" && v && (k.Args[0].isInt(-1) || k.Args[1].isInt(-1)) {
						ok = true
					}
				}
				c.ob("token", r, o, o.pos, ok, "a token is refused with %v although it may be right", t)
				return
			}
			ok := false
			for _, e := range o.st.log {
				if !strings.HasSuffix(e.Op, "SigningMethod).Verify") || !e.Ok {
					continue
				}
				l1 := mkAdd(last, mkInt(1), 1, types.Typ[types.Int])
				s1, s2 := mkSlice(tok, l1, tNil, tok.Type), mkSlice(tok, l1, mkLen(tok), tok.Type)
				v := mkSlice(tok, mkInt(0), last, tok.Type)
				if e.Args[0] != par(fn, 0) || e.Args[1] != v || e.Args[2] != s1 && e.Args[2] != s2 || unwrapIface(e.Args[3]) != par(fn, 1) {
					continue
				}
				for _, fnn := range []string{"strings.LastIndex", "strings.Index"} {
					for _, in := range []*Term{v, tok} {
						i := mk("call", fnn, types.Typ[types.Int], in, mkStr(sep))
						if o.res[0] == mkSlice(tok, mkInt(0), i, tok.Type) && o.res[1] == mkSlice(tok, mkAdd(i, mkInt(1), 1, types.Typ[types.Int]), last, tok.Type) {
							ok = true
						}
					}
				}
			}
			c.ob("token", r, o, o.pos, ok, "a token is taken apart as %v without the signature over all of it being verified", o.res)
		})
	}
}
func bytesOf(t *Term) *Term {
	for t.Op == "s2b" || t.Op == "bcopy" {
		t = t.Args[0]
	}
	if t.Op == "seq" && len(t.Args) == 1 && t.Args[0].Op == "spread" {
		return t.Args[0].Args[0]
	}
	return t
}
func kindFact(f Facts, key *Term) int {
	for k, v := range f {
		if k.Op == "isT" && k.Aux == "[]byte" && k.Args[0] == key {
			if v {
				return yes
			}
			return no
		}
	}
	return unknown
}
func availFact(f Facts, recv *Term, hash string) int {
	for k, v := range f {
		if k.Op == "call" && k.Aux == "(crypto.Hash).Available" && isField(k.Args[0], recv, hash) {
			if v {
				return yes
			}
			return no
		}
	}
	return unknown
}

// decodes: d decodes sig in one of the given encodings.
func decodes(d, sig *Term, encs []*Term) bool {
	if d.Op != "call" || len(d.Args) == 0 || d.Args[len(d.Args)-1] != sig {
		return false
	}
	for _, e := range encs {
		if e.Op != "call" || len(e.Args) != len(d.Args) {
			continue
		}
		if strings.Replace(e.Aux, "EncodeToString", "DecodeString", 1) != d.Aux {
			continue
		}
		if len(e.Args) == 2 && e.Args[0] != d.Args[0] {
			continue
		}
		return true
	}
	return false
}

// the hashes by the names of the methods
var hashByName = map[string]int64{"HMD5": 2, "HS1": 3, "HS224": 4, "HS256": 5, "HS384": 6, "HS512": 7}
var hashPkg = map[int64]string{2: "crypto/md5", 3: "crypto/sha1", 4: "crypto/sha256", 5: "crypto/sha256", 6: "crypto/sha512", 7: "crypto/sha512"}

func c17(c *Ctx) {
	c.rule("name", "each exported signing method is named by its variable", 3)
	c.rule("hash", "each exported signing method uses the hash its name states", 3)
	c.rule("registered", "each is registered under its own name by a factory that gives it", 3)
	c.rule("alg", "a method reports the name it has", 1)
	c.rule("lookup", "looking a name up gives what its factory makes, and nothing for an unknown name", 2)
	c.rule("register", "registering keeps each factory under its name", 1)
	c.rule("linked", "the package imports the hash of each method", 3)
	c.rule("kept", "nothing replaces an exported method or takes a factory away", 1)
	p := c.a.pkg("cryptoer")
	if p == nil {
		c.fail("package cryptoer is gone")
		return
	}
	// packages any importer links
	linked := map[string]bool{}
	var walk func(t *types.Package)
	walk = func(t *types.Package) {
		if linked[t.Path()] {
			return
		}
		linked[t.Path()] = true
		for _, i := range t.Imports() {
			walk(i)
		}
	}
	walk(p.Pkg)
	imports := map[string]bool{}
	for k := range linked {
		imports[k] = true
	}
	// the registry: what GetSigningMethod looks into
	var registry *Term
	if fn := c.funcOf("cryptoer", "GetSigningMethod"); fn != nil {
		r := c.run(fn)
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			var m *Term
			has := unknown
			for k, v := range f {
				if k.Op == "has" && k.Args[1] == par(fn, 0) {
					m = k.Args[0]
					if v {
						has = yes
					} else {
						has = no
					}
				}
				if k.Op == "eq" && (k.Args[0].Op == "lookup" || k.Args[1].Op == "lookup") {
					for i := range k.Args {
						if k.Args[i].Op == "lookup" && k.Args[i].Args[1] == par(fn, 0) && k.Args[1-i] == tNil {
							m = k.Args[i].Args[0]
							if v {
								has = no
							} else {
								has = yes
							}
						}
					}
				}
			}
			if m != nil {
				registry = m
			}
			ok := false
			switch {
			case has == no:
				ok = o.res[0] == tNil
			case has == yes:
				for _, e := range o.st.log {
					if e.Op == "ext:dyncall" && e.Args[0].Op == "lookup" && e.Args[0].Args[0] == m && e.Args[0].Args[1] == par(fn, 0) && e.Res == o.res[0] {
						ok = true
					}
				}
			}
			c.ob("lookup", r, o, o.pos, ok, "a lookup gives %v", o.res[0])
		})
	}
	if fn := c.funcOf("cryptoer", "RegisterSigningMethod"); fn != nil {
		r := c.run(fn)
		r.exits(func(o *Outcome) {
			n, bad := 0, false
			for _, e := range o.st.log {
				if e.Op == "mapset" && e.Args[0] == registry {
					if e.Args[1] == par(fn, 0) && e.Args[2] == par(fn, 1) {
						n++
					} else {
						bad = true
					}
				}
				if e.Op == "mapdel" || e.Op == "store" && root(e.Args[0]).Op == "global" {
					bad = true
				}
			}
			c.ob("register", r, o, o.pos, n > 0 && !bad, "a factory is not kept under its name")
		})
	}
	regMap := registry
	if registry != nil && registry.Op == "load" {
		regMap = c.a.initHeap[registry.Args[0]]
	}
	if regMap == nil || c.a.initMaps[regMap] == nil {
		c.fail("no registry of signing methods that initialisation fills")
		return
	}
	// methods
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	iface, _ := p.Type("SigningMethod").Type().Underlying().(*types.Interface)
	seen := map[string]string{}
	for _, n := range names {
		g, ok := p.Members[n].(*ssa.Global)
		if !ok || g.Object() == nil || !g.Object().Exported() {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		if iface == nil || !types.Implements(t, iface) {
			continue
		}
		var addr *Term
		for k := range c.a.initHeap {
			if k.Op == "global" && k.Obj == interface{}(g) {
				addr = k
			}
		}
		if addr == nil {
			c.ob("name", nil, nil, g.Pos(), false, "%s is not set by initialisation", n)
			continue
		}
		obj := unwrapIface(c.a.initHeap[addr])
		want := strings.TrimPrefix(n, "SigningMethod")
		id, known := hashByName[want]
		if !known {
			c.ob("hash", nil, nil, g.Pos(), false, "%s states no hash known here", n)
			continue
		}
		var nt types.Type
		if pt, ok := obj.Type.(*types.Pointer); ok {
			nt = pt.Elem()
		} else {
			nt = t.Underlying().(*types.Pointer).Elem()
		}
		hf := c.hashField(nt)
		field := func(key string) *Term {
			for k, v := range c.a.initHeap {
				if k.Op == "faddr" && k.Args[0] == obj && fieldKeyOf(k) == key {
					return v
				}
			}
			return nil
		}
		// the name a method reports
		name := ""
		if fn := lookupMethodName(c.a.prog, types.NewPointer(nt), "Alg"); fn != nil {
			r := c.run(fn)
			r.exits(func(o *Outcome) {
				v := o.res[0]
				if v.Op == "load" && v.Args[0].Op == "faddr" && v.Args[0].Args[0] == recvOf(fn) {
					c.ob("alg", r, o, o.pos, true, "")
					v = field(fieldKeyOf(v.Args[0]))
				}
				if v != nil {
					if s, ok := v.strVal(); ok {
						name = s
					}
				}
				c.ob("alg", r, o, o.pos, name != "", "%s has no constant name", n)
			})
		}
		c.obx("name", nil, nil, g.Pos(), n, name == want, "%s is named %q", n, name)
		h, ok := int64(0), false
		if v := field(hf); v != nil {
			h, ok = v.intVal()
		}
		c.obx("hash", nil, nil, g.Pos(), n, ok && h == id, "%s uses hash %d, its name states %d", n, h, id)
		if o := seen[name]; o != "" {
			c.obx("registered", nil, nil, g.Pos(), n, false, "%s has the name of %s", n, o)
		}
		seen[name] = n
		// registered
		var fac *Term
		for _, w := range c.a.initMaps[regMap].writes {
			if s, ok := w.key.strVal(); ok && s == name {
				fac = w.val
			} else if !ok {
				c.ob("registered", nil, nil, g.Pos(), false, "something is registered under %v", w.key)
			}
		}
		gives := false
		if fac != nil {
			gives = c.givesGlobal(fac, addr, obj)
		}
		c.obx("registered", nil, nil, g.Pos(), n, gives, "what is registered as %q does not give %s", name, n)
		c.obx("linked", nil, nil, g.Pos(), n, imports[hashPkg[h]], "nothing imports %s, which %s needs", hashPkg[h], n)
	}
	// later changes
	for _, fn := range c.a.funcs {
		if fn.Pkg == nil || len(fn.Blocks) == 0 {
			continue
		}
		init := c.a.onlyInit(fn, 0)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok && g.Pkg == p && iface != nil && types.Implements(g.Type().(*types.Pointer).Elem(), iface) {
					c.ob("kept", nil, nil, ins.Pos(), init && fn.Pkg == p, "%s replaces %s", fn, g.Name())
				}
			}
		}
	}
}

// givesGlobal: a factory returns the method kept in a variable.
func (c *Ctx) givesGlobal(fac, addr, obj *Term) bool {
	fac = unwrapIface(fac)
	f, _ := fac.Obj.(*ssa.Function)
	if f == nil || len(f.Params) > 0 {
		return false
	}
	en := newEngine(c.a)
	st := newState()
	for k, v := range c.a.initHeap {
		st.heap.m[k] = v
	}
	for k, v := range c.a.initMaps {
		st.maps.m[k] = v
	}
	outs := en.exec(en.frame(nil, f, nil, ""), nil, fac.Args, st)
	if len(en.und) > 0 || len(outs) == 0 {
		return false
	}
	for _, o := range outs {
		if o.panic || len(o.res) != 1 {
			return false
		}
		v := unwrapIface(o.res[0])
		if v != obj && !(v.Op == "load" && v.Args[0] == addr) {
			return false
		}
	}
	return true
}
func lookupMethodName(prog *ssa.Program, t types.Type, name string) *ssa.Function {
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
