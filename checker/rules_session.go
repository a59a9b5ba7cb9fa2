package main

// C12, C13 (session handles), C14 (manager), C16 (tokens), C26 (pass-through).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {

	props["C12"] = c12
	props["C13"] = c13
	props["C14"] = c14
	props["C16"] = c16
	props["C26"] = c26
}

// methodOf finds a method of an exported type of the root package.
func (c *Ctx) methodOf(pkg, typ, name string) *ssa.Function {
	p := c.a.pkg(pkg)
	if p == nil || p.Type(typ) == nil {
		c.fail("type " + typ + " is gone")
		return nil
	}
	sel := c.a.prog.MethodSets.MethodSet(types.NewPointer(p.Type(typ).Type())).Lookup(p.Pkg, name)
	if sel == nil {
		c.fail(typ + " has no method " + name)
		return nil
	}
	fn := c.a.prog.MethodValue(sel)
	if fn == nil || len(fn.Blocks) == 0 {
		c.fail(typ + "." + name + " has no body")
		return nil
	}
	return fn
}
func (c *Ctx) funcOf(pkg, name string) *ssa.Function {
	p := c.a.pkg(pkg)
	if p == nil || p.Func(name) == nil {
		c.fail("function " + name + " is gone")
		return nil
	}
	return p.Func(name)
}

// fieldsOf finds the fields of a struct type by the type they have.
func structFields(n types.Type, typ string) []string {
	var out []string
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if shortName(typeStr(st.Field(i).Type())) == typ {
			out = append(out, fieldKey(n, i))
		}
	}
	return out
}

// accessorField: the field a method without arguments returns.
func (c *Ctx) accessorField(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	r := c.run(fn)
	if len(r.outs) == 1 && len(r.outs[0].res) == 1 {
		t := r.outs[0].res[0]
		if t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Args[0] == recvOf(fn) {
			return fieldKeyOf(t.Args[0])
		}
	}
	c.fail(shortName(fn.String()) + " does not return a field")
	return ""
}

// fieldLoad: t is the value of the given field of recv.
func isField(t *Term, obj *Term, key string) bool {
	return t != nil && t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Args[0] == obj && fieldKeyOf(t.Args[0]) == key
}

// optField: t is a field below obj (m.opts.x) of the given type.
func below(t *Term, obj *Term, typ string) bool {
	if t == nil || t.Op != "load" || t.Args[0].Op != "faddr" {
		return false
	}
	return root(t.Args[0]) == obj && shortName(typeStr(t.Type)) == typ
}

// objField: what an object made by the function holds in a field at an exit.
func objField(o *Outcome, obj *Term, key string) *Term {
	for k, v := range o.st.heap.m {
		if k.Op == "faddr" && k.Args[0] == obj && fieldKeyOf(k) == key {
			return v
		}
	}
	return nil
}

// provCalls: the calls of the storage interface on a path.
func provCalls(log []*Event) []*Event {
	var out []*Event
	for _, e := range log {
		if strings.HasPrefix(e.Op, "ext:(sid.Provider).") {
			out = append(out, e)
		}
	}
	return out
}
func provOp(e *Event) string { return strings.TrimPrefix(e.Op, "ext:(sid.Provider).") }

// args without receiver and context
func callArgs(e *Event) []*Term {
	var out []*Term
	for i, a := range e.Args {
		if i == 0 || typeStr(a.Type) == "context.Context" {
			continue
		}
		out = append(out, a)
	}
	return out
}

type sessInfo struct{ token, id, provider, coder, cache string }

func (c *Ctx) session() *sessInfo {
	s := &sessInfo{}
	s.token = c.accessorField(c.methodOf("", "Session", "Token"))
	s.id = c.accessorField(c.methodOf("", "Session", "ID"))
	t := c.a.pkg("").Type("Session")
	if t == nil {
		return nil
	}
	one := func(typ string) string {
		f := structFields(t.Type(), typ)
		if len(f) != 1 {
			c.fail("Session has no single field of type " + typ)
			return ""
		}
		return f[0]
	}
	s.provider, s.coder = one("sid.Provider"), one("sid.Coder")
	if st, ok := t.Type().Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok && typeStr(m.Key()) == "string" {
				s.cache = fieldKey(t.Type(), i)
			}
		}
	}
	return s
}

// encoder recognises an injective encoding without separators and gives what it encodes.
func injective(t *Term) *Term {
	if t == nil || t.Op != "call" {
		return nil
	}
	switch {
	case strings.HasSuffix(t.Aux, "base64.Encoding).EncodeToString") && len(t.Args) == 2:
		if l := t.Args[0]; l.Op == "load" && l.Args[0].Op == "global" && strings.HasPrefix(l.Args[0].Aux, "encoding/base64.") {
			return t.Args[1]
		}
	case strings.HasSuffix(t.Aux, "base32.Encoding).EncodeToString") && len(t.Args) == 2:
		if l := t.Args[0]; l.Op == "load" && l.Args[0].Op == "global" && strings.HasPrefix(l.Args[0].Aux, "encoding/base32.") {
			return t.Args[1]
		}
	case t.Aux == "encoding/hex.EncodeToString" && len(t.Args) == 1:
		return t.Args[0]
	}
	return nil
}

// tokenParts: a token as user part, session part and signature.
func tokenParts(t *Term, sep string) (id, sess, sig *Term) {
	if t.Op == "cat" && len(t.Args) == 5 {
		if s, ok := t.Args[1].strVal(); !ok || s != sep {
			return
		}
		if s, ok := t.Args[3].strVal(); !ok || s != sep {
			return
		}
		return t.Args[0], t.Args[2], t.Args[4]
	}
	return
}

// signedBy: the token was signed on the path by the manager's method and key.
func signedBy(log []*Event, recv, tok *Term, sep string) (ok bool, id *Term) {
	i, s, sig := tokenParts(tok, sep)
	if i == nil {
		return false, nil
	}
	for _, e := range log {
		if strings.HasSuffix(e.Op, "SigningMethod).Sign") && e.Ok && e.Res == sig && len(e.Args) == 3 {
			if below(e.Args[0], recv, "sid/cryptoer.SigningMethod") && e.Args[1] == mkCat(i, mkStr(sep), s) && below(unwrapIface(e.Args[2]), recv, "[]byte") {
				return true, i
			}
		}
	}
	return false, i
}

// verified: on the path, the whole of a token was verified with the manager's method and key.
func verified(log []*Event, recv, tok *Term, sep string) bool {
	for _, e := range log {
		if !strings.HasSuffix(e.Op, "SigningMethod).Verify") || !e.Ok || len(e.Args) != 4 {
			continue
		}
		if !below(e.Args[0], recv, "sid/cryptoer.SigningMethod") || !below(unwrapIface(e.Args[3]), recv, "[]byte") {
			continue
		}
		sig := mk("toksig", "", nil, tok)
		if e.Args[2] == sig && isSigned(e.Args[1], tok, sep) {
			return true
		}
	}
	return false
}

// isSigned: everything of a token that precedes its signature.
func isSigned(t, tok *Term, sep string) bool {
	sig := mk("toksig", "", nil, tok)
	n := int64(len(sep))
	switch t.Op {
	case "slice":
		if t.Args[0] != tok || !t.Args[1].isInt(0) {
			return false
		}
		hi := t.Args[2]
		l := toLin(mkLen(tok))
		l.addTerm(mkLen(sig), -1)
		l.c -= n
		d := toLin(hi)
		d.addTerm(l.term(nil), -1)
		if x := d.term(nil); x.isInt(0) {
			return true
		}
		return hi.Op == "call" && hi.Aux == "strings.LastIndex" && hi.Args[0] == tok && hi.Args[1] == mkStr(sep)
	case "cat":
		return t == mkCat(mk("tokid", "", nil, tok), mkStr(sep), mk("tokses", "", nil, tok))
	case "call":
		return t.Aux == "strings.TrimSuffix" && t.Args[0] == tok && t.Args[1] == mkCat(mkStr(sep), sig)
	}
	return false
}

func (c *Ctx) separator() string {
	p := c.a.pkg("")
	if k := p.Const("Separator"); k != nil {
		if v := k.Value; v != nil {
			if s, ok := mkConst(v.Value, v.Type()).intVal(); ok {
				return string(rune(s))
			}
			if s, ok := mkConst(v.Value, v.Type()).strVal(); ok {
				return s
			}
		}
	}
	c.fail("no constant Separator")
	return "."
}

func c14(c *Ctx) {
	c.rule("get", "a session is handed out only for a token whose signature over everything before it was verified with the manager's method and key", 1)
	c.rule("get-token", "the session handed out is that of the verified token", 1)
	c.rule("refresh", "the storage is asked to refresh only after both tokens were verified and found to name one user", 2)
	c.rule("refresh-args", "the storage gets exactly the tokens presented and the tokens created, and the caller the tokens created", 2)
	c.rule("signed", "new tokens are signed by the manager's method and key for the same user", 4)
	sep := c.separator()
	si := c.session()
	if si == nil {
		return
	}
	if fn := c.methodOf("", "LocalManager", "Get"); fn != nil {
		r := c.run(fn)
		recv, tok := recvOf(fn), par(fn, 0)
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			if class != "nil" {
				c.ob("get", r, o, o.pos, o.res[0] == tNil, "an error with a session")
				return
			}
			c.ob("get", r, o, o.pos, verified(o.st.log, recv, tok, sep), "a session without a verified signature over everything that precedes it")
			c.ob("get-token", r, o, o.pos, objField(o, o.res[0], si.token) == tok && objField(o, o.res[0], si.id) == mk("tokid", "", nil, tok), "the session is not that of the token presented")
		})
		for _, e := range r.en.events {
			if strings.HasPrefix(e.Op, "ext:(sid.Provider).") {
				c.ob("get", r, nil, e.Pos, false, "the storage is asked")
			}
		}
	}
	if fn := c.methodOf("", "LocalManager", "Refresh"); fn != nil {
		r := c.run(fn)
		recv, a, b := recvOf(fn), par(fn, 0), par(fn, 1)
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			var call *Event
			for i, e := range o.st.log {
				if !strings.HasPrefix(e.Op, "ext:(sid.Provider).") {
					continue
				}
				before := o.st.log[:i]
				ok := verified(before, recv, a, sep) && verified(before, recv, b, sep) && sameID(e.Facts, a, b)
				c.ob("refresh", r, o, e.Pos, ok, "the storage is asked before both tokens were verified and found to name one user")
				args := callArgs(e)
				if provOp(e) != "Refresh" || call != nil || len(args) != 4 {
					c.ob("refresh-args", r, o, e.Pos, false, "%s of the storage in a refresh", provOp(e))
					continue
				}
				call = e
				c.ob("refresh-args", r, o, e.Pos, args[0] == a && args[1] == b && below(e.Args[0], recv, "sid.Provider"), "the storage does not get the tokens presented")
				for i, t := range args[2:] {
					ok, id := signedBy(before, recv, t, sep)
					uid := id != nil && (id == mk("tokid", "", nil, a) || id == mk("tokid", "", nil, b))
					c.obx("signed", r, o, e.Pos, string(rune('0'+i)), ok && uid, "%s is not signed by the manager for the user of the tokens", t)
				}
			}
			if class == "nil" || class == "?" && call != nil {
				ok := call != nil && len(o.res) == 3
				if ok {
					args := callArgs(call)
					ok = o.res[0] == args[2] && o.res[1] == args[3]
				}
				c.ob("refresh-args", r, o, o.pos, ok, "a refresh is reported without or with other tokens than the storage got")
				if class == "nil" {
					c.ob("refresh", r, o, o.pos, call != nil && call.Ok, "a refresh is reported although the storage did not refresh")
				}
			}
		})
	}
	if fn := c.methodOf("", "LocalManager", "Create"); fn != nil {
		r := c.run(fn)
		recv := recvOf(fn)
		r.exits(func(o *Outcome) {
			for i, e := range o.st.log {
				if !strings.HasPrefix(e.Op, "ext:(sid.Provider).") || provOp(e) != "Create" {
					continue
				}
				args := callArgs(e)
				for k, t := range args[:2] {
					ok, id := signedBy(o.st.log[:i], recv, t, sep)
					in := injective(id)
					c.obx("signed", r, o, e.Pos, string(rune('0'+k)), ok && in != nil && strip(in) == par(fn, 0), "%s is not signed by the manager for the user", t)
				}
			}
		})
	}
}

// splitForm: the results of Split in terms of the first and the last separator.
func c16(c *Ctx) {
	c.rule("split", "the user part ends at the first separator, the signature begins after the last one, the session part is between", 1)
	c.rule("split-refuse", "a string is refused as invalid exactly if it has fewer than two separators", 2)
	c.rule("join", "parts are joined by the separator", 1)
	c.rule("istoken", "a list of tokens is accepted only if each can be taken apart", 1)
	c.rule("made", "created tokens are a user part, a session part without separators and a signature, joined by the separator", 4)
	c.rule("before", "no operation touches any state before it has taken its tokens apart", 60)
	c.rule("invalid", "ErrTokenInvalid is reported exactly for a malformed token", 26)
	c.rule("user", "the user part is one injective encoding of the whole id without separators, the same for creating and destroying", 3)
	c.rule("signature", "signatures made by the signing methods have no separator", 1)
	sep := c.separator()
	// Split itself
	if fn := c.funcOf("", "Split"); fn != nil {
		r := c.run(fn)
		tok := par(fn, 0)
		last := mk("call", "strings.LastIndex", types.Typ[types.Int], tok, mkStr(sep))
		pre := mkSlice(tok, mkInt(0), last, tok.Type)
		firsts := []*Term{
			mk("call", "strings.Index", types.Typ[types.Int], pre, mkStr(sep)),
			mk("call", "strings.Index", types.Typ[types.Int], tok, mkStr(sep)),
		}
		absent := func(f Facts, t *Term) int {
			if v := tri(f, mkEq(t, mkInt(-1))); v != unknown {
				return v
			}
			return tri(f, mkLt(t, mkInt(0)))
		}
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			class, t := c.errOf(o)
			few, many := absent(f, last) == yes || absent(f, firsts[0]) == yes || absent(f, firsts[1]) == yes, false
			two := tri(f, mkEq(firsts[1], last))
			if two == yes {
				few = true
			}
			if absent(f, last) == no && absent(f, firsts[0]) == no || two == no ||
				tri(f, mkLt(firsts[1], last)) == yes {
				many = true
			}
			if tri(f, mkLt(firsts[1], last)) == no {
				few = true
			}
			switch class {
			case "nil":
				ok := false
				for _, fi := range firsts {
					if len(o.res) != 4 {
						break
					}
					l1 := mkAdd(fi, mkInt(1), 1, types.Typ[types.Int])
					l2 := mkAdd(last, mkInt(1), 1, types.Typ[types.Int])
					id := o.res[0] == mkSlice(tok, mkInt(0), fi, tok.Type)
					se := o.res[1] == mkSlice(tok, l1, last, tok.Type)
					si := o.res[2] == mkSlice(tok, l2, tNil, tok.Type) || o.res[2] == mkSlice(tok, l2, mkLen(tok), tok.Type)
					ok = ok || id && se && si
				}
				c.ob("split", r, o, o.pos, ok, "the parts are %v", o.res)
				c.ob("split-refuse", r, o, o.pos, many, "a string that may have fewer than two separators is accepted")
			case "ErrTokenInvalid":
				c.ob("split-refuse", r, o, o.pos, few, "a string that may have two separators is refused")
			default:
				c.ob("split-refuse", r, o, o.pos, false, "a string is refused with %v", t)
			}
		})
	}
	if fn := c.funcOf("", "Join"); fn != nil {
		r := c.run(fn)
		r.exits(func(o *Outcome) {
			c.ob("join", r, o, o.pos, len(o.res) == 1 && o.res[0].Op == "call" && o.res[0].Aux == "strings.Join" && o.res[0].Args[0] == par(fn, 0) && o.res[0].Args[1] == mkStr(sep), "joins to %v", o.res)
		})
	}
	if fn := c.funcOf("", "IsToken"); fn != nil {
		r := c.run(fn)
		toks := par(fn, 0)
		for _, li := range r.en.loops {
			for _, it := range li.iters {
				if it.exit != "next" {
					continue
				}
				ok := false
				for _, e := range it.events {
					if e.Op == "split" && e.Ok && e.Args[0].Op == "elem" && e.Args[0].Args[0] == toks {
						ok = true
					}
				}
				c.ob("istoken", r, nil, fn.Pos(), ok, "a token is passed over without being taken apart")
			}
		}
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			if class == "nil" {
				ok := false
				for _, e := range o.st.log {
					if e.Op == "loop.done" && e.Args[1] == toks {
						ok = true
					}
				}
				c.ob("istoken", r, o, o.pos, ok, "accepted before every token was looked at")
			}
		})
	}
	for _, n := range []string{"CreateToken"} {
		fn := c.funcOf("", n)
		if fn == nil {
			continue
		}
		r := c.run(fn)
		r.exits(func(o *Outcome) {
			if class, _ := c.errOf(o); class != "nil" {
				return
			}
			var sess []*Term
			for i := 0; i < 2; i++ {
				id, s, sig := tokenParts(o.res[i], sep)
				ok := id == par(fn, 2) && injective(s) != nil && sig != nil
				c.obx("made", r, o, o.pos, string(rune('0'+i)), ok, "the token is %v", o.res[i])
				sess = append(sess, s)
			}
		})
	}
	// the provider operations
	c.ops(allKinds, []string{"Create", "DestroyByToken", "Check", "Put", "Get", "Keys", "Delete", "Refresh"}, func(p *Prov, op string, r *Run) {
		var toks []*Term
		n := 1
		switch op {
		case "Create":
			n = 2
		case "Refresh":
			n = 4
		}
		for i := 0; i < n; i++ {
			toks = append(toks, par(r.fn, i))
		}
		wellFormed := func(f Facts) bool {
			for _, t := range toks {
				if tri(f, mk("badtoken", "", nil, t)) != no {
					return false
				}
			}
			return true
		}
		recv := recvOf(r.fn)
		for _, e := range r.en.events {
			if p.stateEvent(e, recv) {
				c.obx("before", r, nil, e.Pos, e.Op, wellFormed(e.Facts), "%s before every token was taken apart", e)
			}
		}
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			class, t := c.errOf(o)
			bad := false
			for _, t := range toks {
				if tri(f, mk("badtoken", "", nil, t)) == yes {
					bad = true
				}
			}
			switch {
			case bad:
				c.ob("invalid", r, o, o.pos, class == "ErrTokenInvalid", "a malformed token is answered with %v", t)
			case class == "ErrTokenInvalid":
				c.ob("invalid", r, o, o.pos, false, "ErrTokenInvalid although no token is known to be malformed")
			case class == "ErrTokenIDNotMatched":
				c.ob("invalid", r, o, o.pos, true, "")
			default:
				c.ob("invalid", r, o, o.pos, wellFormed(f), "%v although a token may be malformed", t)
			}
		})
	})
	// the manager's user part
	var encs []*Term
	hole := mk("hole", "", nil)
	if fn := c.methodOf("", "LocalManager", "Create"); fn != nil {
		r := c.run(fn)
		for _, e := range r.en.events {
			if strings.HasPrefix(e.Op, "ext:(sid.Provider).") && provOp(e) == "Create" {
				args := callArgs(e)
				for _, t := range args[:2] {
					id, s, _ := tokenParts(t, sep)
					ok := id != nil && injective(id) != nil && strip(injective(id)) == par(fn, 0)
					c.ob("user", r, nil, e.Pos, ok, "the user part of %v is no injective encoding of the id", t)
					c.ob("made", r, nil, e.Pos, s != nil && injective(s) != nil, "the token is %v", t)
					if ok {
						encs = append(encs, newSubst(map[*Term]*Term{strip(injective(id)): hole}).do(id))
					}
				}
			}
		}
	}
	if fn := c.methodOf("", "LocalManager", "Destroy"); fn != nil {
		r := c.run(fn)
		for _, e := range r.en.events {
			if strings.HasPrefix(e.Op, "ext:(sid.Provider).") && provOp(e) == "Destroy" {
				t := callArgs(e)[0]
				ok := injective(t) != nil && strip(injective(t)) == par(fn, 0)
				c.ob("user", r, nil, e.Pos, ok, "%v is no injective encoding of the id", t)
				if ok {
					x := newSubst(map[*Term]*Term{strip(injective(t)): hole}).do(t)
					for _, y := range encs {
						c.ob("user", r, nil, e.Pos, x == y, "sessions are created under %v but destroyed under %v", y, x)
					}
				}
			}
		}
	}
	// signatures of the library's own methods
	if fn := c.methodOf("cryptoer", "SigningMethodHMAC", "Sign"); fn != nil {
		r := c.run(fn)
		r.exits(func(o *Outcome) {
			if class, _ := c.errOf(o); class == "nil" {
				c.ob("signature", r, o, o.pos, injective(o.res[0]) != nil, "the signature is %v", o.res[0])
			}
		})
	}
}

func c26(c *Ctx) {
	c.rule("create-args", "the storage gets, once, each given key with its value encoded by the configured coder, in order", 2)
	c.rule("create-result", "a session is returned only if storing succeeded, and is that of the stored access token with its refresh token", 3)
	c.rule("destroy", "destroying asks the storage once for exactly that id or token and reports its answer", 4)
	c.rule("session-of", "a session handle is made of the token, its user part, and the configured storage and coder", 1)
	c.rule("own-token", "a session operation asks the storage once, with the session's own token (Delete: the token given)", 6)
	c.rule("args", "every key and value is passed on exactly once and in order", 5)
	c.rule("answer", "the answer of the storage is reported as it is", 14)
	c.rule("fixed", "a session handle keeps its token, storage and coder", 10)
	sep := c.separator()
	si := c.session()
	if si == nil {
		return
	}
	// pass: the values list given to the storage is the encoded one of the pairs
	pairs := func(r *Run, log []*Event, f Facts, t, src *Term, codec func(*Term) bool) bool {
		if tri(f, mkEq(mkLen(src), mkInt(0))) == yes && (emptyList(t) || t == tNil) {
			return true
		}
		b := r.builtList(log, t)
		if b == nil {
			// nothing was added because there was nothing to add
			if emptyList(t) {
				for _, e := range log {
					if e.Op == "loop.done" && e.Args[1] == src && e.Args[2].isInt(0) {
						return true
					}
				}
			}
			return false
		}
		if b.over != src || !b.exact || b.whole || len(b.elems) == 0 {
			return false
		}
		for _, x := range b.elems {
			k, v := structField(x, "Key"), structField(x, "Value")
			if k == nil || v == nil || v.Op != "encoded" || len(v.Args) < 2 || !codec(v.Args[0]) {
				return false
			}
			if k.Op != "field" || k.Aux != "Key" || v.Args[1] != mk("field", "Value", nil, k.Args[0]) || elemIndex(k.Args[0], src) == nil {
				return false
			}
		}
		return true
	}
	codecOf := func(recv *Term) func(*Term) bool {
		return func(k *Term) bool {
			return k.Op == "codec" && len(k.Args) == 1 && below(k.Args[0], recv, "sid.Coder")
		}
	}
	noLoop := func(rule string, r *Run) {
		for _, e := range r.en.events {
			if strings.HasPrefix(e.Op, "ext:(sid.Provider).") && len(e.Loop) > 0 {
				c.ob(rule, r, nil, e.Pos, false, "the storage is asked in a loop")
			}
		}
	}
	if fn := c.methodOf("", "LocalManager", "Create"); fn != nil {
		r := c.run(fn)
		recv := recvOf(fn)
		noLoop("create-args", r)
		r.exits(func(o *Outcome) {
			class, _ := c.errOf(o)
			calls := provCalls(o.st.log)
			for _, e := range calls {
				args := callArgs(e)
				ok := provOp(e) == "Create" && len(calls) == 1 && len(args) == 3 && below(e.Args[0], recv, "sid.Provider")
				c.ob("create-args", r, o, e.Pos, ok && pairs(r, o.st.log, e.Facts, args[2], par(fn, 1), codecOf(recv)), "the storage does not get exactly the pairs given: %v", args)
			}
			if class != "nil" {
				c.ob("create-result", r, o, o.pos, o.res[0] == tNil || len(calls) == 0 && false, "an error with a session")
				return
			}
			ok := len(calls) == 1 && calls[0].Ok && len(o.res) == 3
			if ok {
				args := callArgs(calls[0])
				id, _, _ := tokenParts(args[0], sep)
				ok = objField(o, o.res[0], si.token) == args[0] && objField(o, o.res[0], si.id) == id && o.res[1] == args[1] &&
					below(objField(o, o.res[0], si.provider), recv, "sid.Provider") && below(objField(o, o.res[0], si.coder), recv, "sid.Coder")
			}
			c.ob("create-result", r, o, o.pos, ok, "a session is returned that is not the one stored")
		})
	}
	answer := func(r *Run, o *Outcome, e *Event) {
		res := o.res[len(o.res)-1]
		if e.Ok {
			c.ob("answer", r, o, o.pos, c.errClass(o.st.facts.m, res) == "nil", "the storage succeeded but %v is reported", res)
		} else {
			c.ob("answer", r, o, o.pos, wraps(res, e.Res), "the storage answered %v but %v is reported", e.Res, res)
		}
	}
	for _, n := range []string{"Destroy", "DestroyByToken"} {
		fn := c.methodOf("", "LocalManager", n)
		if fn == nil {
			continue
		}
		r := c.run(fn)
		recv := recvOf(fn)
		noLoop("destroy", r)
		r.exits(func(o *Outcome) {
			calls := provCalls(o.st.log)
			ok := len(calls) == 1 && provOp(calls[0]) == n && below(calls[0].Args[0], recv, "sid.Provider")
			if ok {
				a := callArgs(calls[0])
				if n == "Destroy" {
					ok = injective(a[0]) != nil && strip(injective(a[0])) == par(fn, 0)
				} else {
					ok = a[0] == par(fn, 0)
				}
			}
			c.ob("destroy", r, o, o.pos, ok, "the storage is not asked once to %s exactly what was given", n)
			if len(calls) == 1 {
				answer(r, o, calls[0])
			}
		})
	}
	// making handles
	for _, x := range []struct{ typ, name string }{{"", "NewSession"}, {"LocalManager", "Get"}} {
		var fn *ssa.Function
		if x.typ == "" {
			fn = c.funcOf("", x.name)
		} else {
			fn = c.methodOf("", x.typ, x.name)
		}
		if fn == nil {
			continue
		}
		r := c.run(fn)
		r.exits(func(o *Outcome) {
			if class, _ := c.errOf(o); class != "nil" {
				return
			}
			s := o.res[0]
			pr, co := objField(o, s, si.provider), objField(o, s, si.coder)
			ok := objField(o, s, si.token) == par(fn, 0) && objField(o, s, si.id) == mk("tokid", "", nil, par(fn, 0))
			if x.typ == "" {
				ok = ok && pr == par(fn, 1) && co == par(fn, 2)
			} else {
				ok = ok && below(pr, recvOf(fn), "sid.Provider") && below(co, recvOf(fn), "sid.Coder")
			}
			c.ob("session-of", r, o, o.pos, ok, "the session is not made of the token, storage and coder")
		})
	}
	// session operations
	for _, x := range []struct{ name, op string }{{"Destroy", "DestroyByToken"}, {"Check", "Check"}, {"Keys", "Keys"}, {"Put", "Put"}, {"Get", "Get"}, {"Prepare", "Get"}, {"Delete", "Delete"}} {
		fn := c.methodOf("", "Session", x.name)
		if fn == nil {
			continue
		}
		r := c.run(fn)
		recv := recvOf(fn)
		noLoop("own-token", r)
		for _, e := range r.en.events {
			if e.Op == "store" && e.Args[0].Op == "faddr" && root(e.Args[0]) == recv {
				k := fieldKeyOf(e.Args[0])
				c.ob("fixed", r, nil, e.Pos, k != si.token && k != si.id && k != si.provider && k != si.coder, "%s", e)
			}
		}
		c.ob("fixed", r, nil, fn.Pos(), true, "")
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			calls := provCalls(o.st.log)
			class, t := c.errOf(o)
			if len(calls) == 0 {
				// allowed without asking: nothing to do, a bad argument, a failed
				// encoding, or an answer the handle already has
				ok := false
				switch x.name {
				case "Put":
					ok = tri(f, mkEq(mkLen(par(fn, 0)), mkInt(0))) == yes || failedStep(o) || loopZero(o.st.log, par(fn, 0))
				case "Prepare":
					ok = true // what is prepared is checked by C12
				case "Get":
					ok = true // what is answered is checked by C12 and C13
				}
				c.ob("own-token", r, o, o.pos, ok, "%s answers %v without asking the storage", x.name, t)
				return
			}
			e := calls[0]
			args := callArgs(e)
			tok := isField(args[0], recv, si.token)
			if x.name == "Delete" {
				tok = args[0] == par(fn, 0)
			}
			c.ob("own-token", r, o, e.Pos, len(calls) == 1 && provOp(e) == x.op && tok && isField(e.Args[0], recv, si.provider), "the storage is asked %v", e)
			ok := true
			switch x.name {
			case "Put":
				ok = pairs(r, o.st.log, e.Facts, args[1], par(fn, 0), codecOf(recv))
			case "Get":
				ok = args[1] == mkSeq(nil, par(fn, 0))
			case "Delete":
				ok = args[1] == par(fn, 1)
			case "Prepare":
				ok = args[1] == par(fn, 0) || subset(r, o.st.log, args[1], par(fn, 0))
			}
			c.ob("args", r, o, e.Pos, ok, "the storage is asked %v", e)
			switch x.name {
			case "Get", "Prepare":
				if !e.Ok {
					answer(r, o, e)
				}
			case "Keys":
				answer(r, o, e)
				if e.Ok {
					c.ob("answer", r, o, o.pos, o.res[0] == e.Res, "the keys reported are not those of the storage")
				}
			default:
				if !(class == "fail" && e.Ok) {
					answer(r, o, e)
				}
			}
		})
	}
}
func loopZero(log []*Event, over *Term) bool {
	for _, e := range log {
		if e.Op == "loop.done" && e.Args[1] == over && e.Args[2].isInt(0) {
			return true
		}
	}
	return false
}

// subset: a list of elements of another, each at most once, in order.
func subset(r *Run, log []*Event, t, src *Term) bool {
	b := r.builtList(log, t)
	if b == nil {
		return emptyList(t)
	}
	if b.over != src {
		return false
	}
	for _, x := range b.elems {
		if elemIndex(x, src) == nil {
			return false
		}
	}
	return true
}

// deep gives a field of a struct value or of a struct embedded in it.
func deep(s *Term, name string) *Term {
	if s == nil || s.Type == nil {
		return nil
	}
	st, ok := s.Type.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if fname(st.Field(i)) == name {
			return fieldOf(s, s.Type, i)
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
			f := fieldOf(s, s.Type, i)
			if f.Type == nil {
				continue
			}
			if x := deep(f, name); x != nil {
				return x
			}
		}
	}
	return nil
}

// logs calls f with everything that happened on the way to each exit and to the
// end of each loop iteration.
func (r *Run) logs(f func(log []*Event)) {
	r.exits(func(o *Outcome) { f(o.st.log) })
	for _, li := range r.en.loops {
		for _, it := range li.iters {
			if it.exit == "next" {
				f(it.st.log)
			}
		}
	}
}

// element: t is the element of list l at a position that counts upwards.
func element(t *Term, ls ...*Term) (l, i *Term) {
	if t == nil || t.Op != "elem" {
		return
	}
	for _, x := range ls {
		if x != nil && t.Args[0] == x {
			return x, t.Args[1]
		}
		if x != nil && x.Op == "seq" && len(x.Args) == 1 && x.Args[0] == t {
			return x, mkInt(0)
		}
	}
	return
}
func c12(c *Ctx) {
	c.rule("put", "a successful Put leaves each pair's value, or nothing, in the handle under its own key", 1)
	c.rule("delete", "a successful Delete of the handle's token leaves nothing in the handle under the keys", 1)
	c.rule("after", "a write or deletion touches what the handle has only after the storage succeeded", 2)
	c.rule("fill", "what a read leaves in the handle under a key is the storage's answer for that key", 2)
	c.rule("read", "a read answers a key as missing, or its bytes, from the handle's entry or the storage's answer for that key", 3)
	c.rule("fresh", "a new handle has no entries", 2)
	c.rule("asked", "a read asks the storage only for keys the handle has no entry for", 2)
	c.rule("prepared", "after a successful Prepare the handle has an entry for every key named", 2)
	si := c.session()
	if si == nil || si.cache == "" {
		c.fail("a session handle has no cache")
		return
	}
	cacheOf := func(r *Run, recv *Term) func(*Term) bool {
		set := map[*Term]bool{}
		add := func(e *Event) {
			if e.Op == "store" && e.Args[0].Op == "faddr" && e.Args[0].Args[0] == recv && fieldKeyOf(e.Args[0]) == si.cache {
				set[e.Args[1]] = true
			}
		}
		for _, e := range r.en.events {
			add(e)
		}
		var is func(t *Term, seen map[*Term]bool) bool
		is = func(t *Term, seen map[*Term]bool) bool {
			for t.Op == "old" {
				t = t.Args[0]
			}
			if seen[t] || t == tNil || isField(t, recv, si.cache) || set[t] {
				return true
			}
			if t.Op != "W" {
				return false
			}
			seen[t] = true
			n := 0
			for _, li := range r.en.loops {
				for _, m := range []map[*Term]bool{li.init[t], li.contrib[t]} {
					for x := range m {
						n++
						if !is(x, seen) {
							return false
						}
					}
				}
			}
			return n > 0
		}
		return func(t *Term) bool { return t != tNil && is(t, map[*Term]bool{}) }
	}
	entry := func(e *Event) (key, bytes, exists *Term) {
		return e.Args[1], deep(e.Args[2], "Bytes"), deep(e.Args[2], "Exists")
	}
	okCall := func(log []*Event, op string) *Event {
		for _, e := range log {
			if strings.HasPrefix(e.Op, "ext:(sid.Provider).") && provOp(e) == op && e.Ok {
				return e
			}
		}
		return nil
	}
	for _, fn := range c.exportedMethods("", "Session") {
		r := c.run(fn)
		recv := recvOf(fn)
		isCache := cacheOf(r, recv)
		name := fn.Name()
		// what is put under which key
		written := func(e, call *Event) bool {
			k, b, x := entry(e)
			if x != tTrue {
				return false
			}
			list := callArgs(call)[1]
			if k == nil || b == nil || k.Op != "field" || b.Op != "field" {
				return false
			}
			_, i := element(k.Args[0], list, par(fn, 0))
			_, j := element(b.Args[0], list)
			return r.counts(i) && i == j && b.Aux == "Value" && k.Aux == "Key"
		}
		filled := func(e, call *Event) bool {
			k, b, x := entry(e)
			list, res := callArgs(call)[1], call.Res
			i := (*Term)(nil)
			if list.Op == "seq" && len(list.Args) == 1 && list.Args[0] == k {
				i = mkInt(0)
			} else {
				_, i = element(k, list)
			}
			if i == nil || x == nil {
				return false
			}
			val := mk("elem", "", nil, res, i)
			f := e.Facts
			inside := tri(f, mkLt(i, mkLen(res))) == yes || tri(f, mkEq(mkLen(list), mkLen(res))) == yes
			if !inside {
				return false
			}
			has := mk("field", "Exists", nil, val)
			switch {
			case x == tFalse:
				return tri(f, has) == no
			case x == tTrue:
				return tri(f, has) == yes && b == mk("field", "Bytes", nil, val)
			}
			return x == has && b == mk("field", "Bytes", nil, val)
		}
		r.logs(func(log []*Event) {
			for i, e := range log {
				change := false
				switch {
				case (e.Op == "mapset" || e.Op == "mapdel") && isCache(e.Args[0]):
					change = true
				case e.Op == "store" && e.Args[0].Op == "faddr" && e.Args[0].Args[0] == recv && fieldKeyOf(e.Args[0]) == si.cache:
					change = e.Args[1].Op != "makemap" || tri(e.Facts, mkEq(mk("load", "", nil, e.Args[0]), tNil)) != yes
					if e.Args[1].Op != "makemap" && e.Args[1] != tNil {
						c.ob("after", r, nil, e.Pos, false, "%s", e)
					}
				case e.Op == "appendinto" || e.Op == "copy":
					continue
				}
				if !change {
					continue
				}
				before := log[:i]
				switch name {
				case "Put", "Delete":
					call := okCall(before, name)
					c.ob("after", r, nil, e.Pos, call != nil, "%s although the storage may not have done it", e)
					if e.Op == "mapset" && call != nil {
						c.ob("put", r, nil, e.Pos, name == "Put" && written(e, call), "%s is not the pair put", e)
					}
				default:
					if e.Op == "mapset" {
						call := okCall(before, "Get")
						// or what is there already
						same := len(e.Args) > 2 && e.Args[2].Op == "lookup" && e.Args[2].Args[0] == e.Args[0] && e.Args[2].Args[1] == e.Args[1] && tri(e.Facts, mk("has", "", nil, e.Args[2].Args...)) == yes
						for _, b := range before {
							same = same && !((b.Op == "mapset" || b.Op == "mapdel") && isCache(b.Args[0]))
						}
						c.ob("fill", r, nil, e.Pos, same || call != nil && filled(e, call), "%s is not the storage's answer for the key", e)
					}
				}
			}
		})
		// loops that treat each element of a list
		covers := func(log []*Event, call *Event, f Facts, lists []*Term, each func(it *Iter, l, i *Term) bool) bool {
			after := false
			for _, e := range log {
				if e == call {
					after = true
				}
				if !after {
					continue
				}
				if e.Op == "store" && e.Args[0].Op == "faddr" && e.Args[0].Args[0] == recv && fieldKeyOf(e.Args[0]) == si.cache && e.Args[1] == tNil {
					return true
				}
				if e.Op != "loop.done" {
					continue
				}
				over := false
				for _, l := range lists {
					over = over || e.Args[1] == l
				}
				li := r.en.loops[e.Args[0]]
				if !over || li == nil {
					continue
				}
				ok := true
				for _, it := range li.iters {
					if it.exit == "next" && !each(it, nil, nil) {
						ok = false
					}
				}
				if ok {
					return true
				}
			}
			for _, l := range lists {
				if tri(f, mkEq(mkLen(l), mkInt(0))) == yes {
					return true
				}
			}
			return false
		}
		switch name {
		case "Put":
			r.exits(func(o *Outcome) {
				call := okCall(o.st.log, "Put")
				if call == nil {
					return
				}
				lists := []*Term{par(fn, 0), callArgs(call)[1]}
				ok := covers(o.st.log, call, o.st.facts.m, lists, func(it *Iter, _, _ *Term) bool {
					for _, e := range it.events {
						if (e.Op == "mapset" || e.Op == "mapdel") && isCache(e.Args[0]) {
							k := e.Args[1]
							if k.Op == "field" && k.Aux == "Key" {
								if l, i := element(k.Args[0], lists...); l != nil && r.counts(i) {
									return true
								}
							}
						}
					}
					return false
				})
				c.ob("put", r, o, o.pos, ok, "a Put succeeds but the handle may keep an older value of a key")
			})
		case "Delete":
			r.exits(func(o *Outcome) {
				call := okCall(o.st.log, "Delete")
				f := o.st.facts.m
				if call == nil {
					return
				}
				own := mk("load", "", nil)
				for k := range f {
					if k.Op == "eq" {
						for i := range k.Args {
							if isField(k.Args[i], recv, si.token) && k.Args[1-i] == par(fn, 0) {
								own = k
							}
						}
					}
				}
				if own.Op == "eq" && tri(f, own) == no {
					return
				}
				lists := []*Term{par(fn, 1)}
				ok := covers(o.st.log, call, f, lists, func(it *Iter, _, _ *Term) bool {
					for _, e := range it.events {
						if e.Op == "mapdel" && isCache(e.Args[0]) {
							if l, i := element(e.Args[1], lists...); l != nil && r.counts(i) {
								return true
							}
						}
					}
					return false
				})
				// a nil cache has nothing to forget
				if !ok {
					for k, v := range f {
						if v && k.Op == "eq" && (isField(k.Args[0], recv, si.cache) && k.Args[1] == tNil || isField(k.Args[1], recv, si.cache) && k.Args[0] == tNil) {
							ok = true
						}
					}
				}
				c.ob("delete", r, o, o.pos, ok, "a Delete succeeds but the handle may still have a key")
			})
		case "Prepare":
			c.asked(r, recv, si.cache, isCache)
			r.exits(func(o *Outcome) {
				if class, _ := c.errOf(o); class == "nil" {
					c.ob("prepared", r, o, o.pos, c.prepared(r, o, fn, recv, si.cache, isCache), "a Prepare succeeds but may leave out a key")
				}
			})
		case "Get":
			c.asked(r, recv, si.cache, isCache)
			r.exits(func(o *Outcome) {
				f := o.st.facts.m
				class, t := c.errOf(o)
				switch class {
				case "nil":
					ok := false
					for _, e := range o.st.log {
						if e.Op == "decode" && e.Ok {
							ok = c.answerFor(o.st.log, f, e.Args[1], par(fn, 0), isCache) == yes
						}
					}
					c.ob("read", r, o, o.pos, ok, "a value is returned that is not the key's")
				case "ErrKeyNotExists":
					c.ob("read", r, o, o.pos, c.missing(o.st.log, f, par(fn, 0), isCache), "a key is reported missing that may be there")
				case "ErrNeedsPointer", "ErrPointerToPointer":
				default:
					c.ob("read", r, o, o.pos, failedStep(o) || badReply(o), "a read answers %v although nothing failed", t)
				}
			})
		}
	}
	for _, x := range []*ssa.Function{c.funcOf("", "NewSession"), c.methodOf("", "LocalManager", "Get"), c.methodOf("", "LocalManager", "Create")} {
		if x == nil {
			continue
		}
		r := c.run(x)
		r.exits(func(o *Outcome) {
			if class, _ := c.errOf(o); class != "nil" {
				return
			}
			v := objField(o, o.res[0], si.cache)
			c.ob("fresh", r, o, o.pos, v == nil || v == tNil || v.Op == "makemap" && o.st.maps.m[v] == nil, "a new handle has %v", v)
		})
	}
}

// answerFor: bytes are those of a key, from the handle or from the storage, and it exists.
func (c *Ctx) answerFor(log []*Event, f Facts, b, key *Term, isCache func(*Term) bool) int {
	if b.Op != "field" || b.Aux != "Bytes" {
		return no
	}
	x := b.Args[0]
	if tri(f, mk("field", "Exists", nil, x)) != yes {
		return no
	}
	if c.ofCache(f, x, key, isCache) || ofAnswer(log, f, x, key) {
		return yes
	}
	return no
}

// ofCache: x is (part of) what the handle has for the key.
func (c *Ctx) ofCache(f Facts, x, key *Term, isCache func(*Term) bool) bool {
	for x.Op == "field" {
		x = x.Args[0]
	}
	if x.Op != "lookup" || !isCache(x.Args[0]) || x.Args[1] != key {
		return false
	}
	return tri(f, mk("has", "", nil, x.Args...)) == yes
}
func ofAnswer(log []*Event, f Facts, x, key *Term) bool {
	if x.Op != "elem" {
		return false
	}
	for _, e := range log {
		if strings.HasPrefix(e.Op, "ext:(sid.Provider).") && provOp(e) == "Get" && e.Ok && x.Args[0] == e.Res {
			l := callArgs(e)[1]
			return l.Op == "seq" && len(l.Args) == 1 && l.Args[0] == key && x.Args[1].isInt(0) && tri(f, mkLt(mkInt(0), mkLen(e.Res))) == yes
		}
	}
	return false
}

// missing: what the handle or the storage answers for a key says it is not there.
// noEntry: the handle has no entry for the key (for any key if it is nil).
func noEntry(f Facts, key, recv *Term, cache string, isCache func(*Term) bool) bool {
	for k, v := range f {
		switch {
		case k.Op == "eq" && v:
			if isField(k.Args[0], recv, cache) && k.Args[1] == tNil || isField(k.Args[1], recv, cache) && k.Args[0] == tNil {
				return true
			}
		case k.Op == "has" && !v:
			if key != nil && k.Args[1] == key && isCache(k.Args[0]) {
				return true
			}
		}
		// nothing is in it
		if k.Op == "eq" && v && key == nil {
			for i := range k.Args {
				if n, ok := k.Args[i].intVal(); ok && n == 0 && k.Args[1-i].Op == "len" && isCache(k.Args[1-i].Args[0]) {
					return true
				}
			}
		}
	}
	return false
}

// asked checks what a read asks the storage for.
func (c *Ctx) asked(r *Run, recv *Term, cache string, isCache func(*Term) bool) {
	r.logs(func(log []*Event) {
		for _, e := range log {
			if !strings.HasPrefix(e.Op, "ext:(sid.Provider).") || provOp(e) != "Get" {
				continue
			}
			list := callArgs(e)[1]
			ok := noEntry(e.Facts, nil, recv, cache, isCache)
			if !ok && list.Op == "seq" && !seqHasSpread(list) {
				ok = true
				for _, k := range list.Args {
					ok = ok && noEntry(e.Facts, k, recv, cache, isCache)
				}
			} else if ch := r.chunksOf(log, list); !ok && ch != nil {
				ok = len(ch.head) == 0
				for _, x := range ch.chunks {
					for _, k := range x.added {
						ok = ok && noEntry(x.it.facts, k, recv, cache, isCache)
					}
				}
			}
			c.ob("asked", r, nil, e.Pos, ok, "%s asks for what the handle may have", e)
		}
	})
}

// prepared: whatever a Prepare was given is in the handle when it succeeds.
func (c *Ctx) prepared(r *Run, o *Outcome, fn *ssa.Function, recv *Term, cache string, isCache func(*Term) bool) bool {
	f, log := o.st.facts.m, o.st.log
	keys := par(fn, 0)
	none := func(l *Term) bool {
		return tri(f, mkEq(mkLen(l), mkInt(0))) == yes
	}
	if keys == nil || none(keys) {
		return keys != nil
	}
	// every element of l is in the handle after log's loops
	var in func(l *Term, d int) bool
	in = func(l *Term, d int) bool {
		if none(l) || l == tNil {
			return true
		}
		if d > 3 {
			return false
		}
		if l.Op == "seq" && !seqHasSpread(l) {
			for _, k := range l.Args {
				ok := false
				for _, e := range log {
					ok = ok || e.Op == "mapset" && isCache(e.Args[0]) && e.Args[1] == k
				}
				if !ok {
					return false
				}
			}
			return true
		}
		for _, e := range log {
			if e.Op != "loop.done" || e.Args[1] != l && tri(f, mkEq(mkLen(e.Args[1]), mkLen(l))) != yes || r.en.loops[e.Args[0]] == nil {
				continue
			}
			li := r.en.loops[e.Args[0]]
			// the lists it adds to
			later := map[*Term]*chunked{}
			for t := range li.contrib {
				if ch := r.chunksOf(log, t); ch != nil && ch.li == li && len(ch.head) == 0 {
					later[t] = ch
				}
			}
			each := func(except *Term) bool {
				n := 0
				for _, it := range li.iters {
					if it.exit != "next" || it.over != nil && it.over != e.Args[1] || contradicts(it.facts, f) {
						continue
					}
					n++
					ok := false
					for k, v := range it.facts {
						if k.Op == "has" && v && isCache(k.Args[0]) {
							if x, i := element(k.Args[1], l); x != nil && r.counts(i) {
								ok = true
							}
						}
					}
					for _, e := range it.events {
						if e.Op == "mapset" && isCache(e.Args[0]) {
							if x, i := element(e.Args[1], l); x != nil && r.counts(i) {
								ok = true
							}
						}
					}
					if !ok && except != nil {
						for _, ch := range later[except].chunks {
							if ch.it != it {
								continue
							}
							ok = false
							for _, k := range ch.added {
								if x, i := element(k, l); x != nil && r.counts(i) {
									ok = true
								}
							}
							if !ok {
								break
							}
						}
					}
					if !ok {
						return false
					}
				}
				return n > 0
			}
			if each(nil) {
				return true
			}
			for t := range later {
				if each(t) && in(t, d+1) {
					return true
				}
			}
		}
		return false
	}
	return in(keys, 0)
}

// contradicts: the round is not of the path (what is known at entry stays so).
func contradicts(round, path map[*Term]bool) bool {
	for k, v := range round {
		if w, ok := path[k]; ok && w != v && !varies(k) {
			return true
		}
	}
	return false
}

// varies: the term differs from round to round.
func varies(t *Term) bool {
	if t.Op == "W" {
		return true
	}
	for _, a := range t.Args {
		if varies(a) {
			return true
		}
	}
	return false
}

func (c *Ctx) missing(log []*Event, f Facts, key *Term, isCache func(*Term) bool) bool {
	for k, v := range f {
		if v || k.Op != "field" || k.Aux != "Exists" {
			continue
		}
		if c.ofCache(f, k.Args[0], key, isCache) || ofAnswer(log, f, k.Args[0], key) {
			return true
		}
	}
	return false
}

// badReply: the storage gave another number of values than asked for.
func badReply(o *Outcome) bool {
	for _, e := range o.st.log {
		if strings.HasPrefix(e.Op, "ext:(sid.Provider).") && provOp(e) == "Get" && e.Ok {
			l := callArgs(e)[1]
			if tri(o.st.facts.m, mkEq(mkLen(l), mkLen(e.Res))) == no || tri(o.st.facts.m, mkEq(mkInt(0), mkLen(e.Res))) == yes {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) exportedMethods(pkg, typ string) []*ssa.Function {
	p := c.a.pkg(pkg)
	var out []*ssa.Function
	if p == nil || p.Type(typ) == nil {
		c.fail("type " + typ + " is gone")
		return nil
	}
	ms := c.a.prog.MethodSets.MethodSet(types.NewPointer(p.Type(typ).Type()))
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		if fn := c.a.prog.MethodValue(ms.At(i)); fn != nil && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	return out
}

// reflected: how often t, the reflection of ptr or of its type, has been
// dereferenced; -1 if it is none.
func reflected(t, ptr *Term) (depth int, typ bool) {
	for t.Op == "call" && len(t.Args) == 1 {
		switch {
		case strings.HasSuffix(t.Aux, "reflect.Elem"), strings.HasSuffix(t.Aux, "reflect.Indirect"):
			depth++
		case strings.HasSuffix(t.Aux, "reflect.Type"):
			typ = true
		case strings.HasSuffix(t.Aux, "reflect.ValueOf"), strings.HasSuffix(t.Aux, "reflect.TypeOf"):
			if strip(t.Args[0]) != ptr && t.Args[0] != ptr {
				return -1, false
			}
			return depth, typ || strings.HasSuffix(t.Aux, "reflect.TypeOf")
		default:
			return -1, false
		}
		t = t.Args[0]
	}
	return -1, false
}

// isNone: ptr is known to be no value at all.
func isNone(f Facts, ptr *Term) bool {
	if tri(f, mkEq(ptr, tNil)) == yes {
		return true
	}
	for y, v := range f {
		switch {
		case v && y.Op == "eq" && (y.Args[0] == tNil || y.Args[1] == tNil):
			x := y.Args[0]
			if x == tNil {
				x = y.Args[1]
			}
			if d, t := reflected(x, ptr); d == 0 && t {
				return true
			}
		case !v && y.Op == "call" && len(y.Args) == 1 && strings.HasSuffix(y.Aux, "reflect.IsValid"):
			if d, t := reflected(y.Args[0], ptr); d == 0 && !t {
				return true
			}
		}
	}
	return false
}

func c13(c *Ctx) {
	c.rule("afresh", "a read succeeds only by decoding the bytes with the handle's coder into the destination given", 1)
	c.rule("refuse", "each unfit destination has its own error, given exactly for it", 2)
	c.rule("first", "nothing is read before the destination is known to be a pointer to something other than a pointer", 4)
	c.rule("panic", "no destination and no answer of the storage makes the read panic", 4)
	c.rule("bytes", "what the handle keeps for later reads are stored bytes, nothing decoded", 2)
	si := c.session()
	if si == nil {
		return
	}
	fn := c.methodOf("", "Session", "Get")
	if fn == nil {
		return
	}
	r := c.run(fn)
	recv, ptr := recvOf(fn), par(fn, 1)
	kindOf := func(f Facts, k int64, elem bool) int {
		res := unknown
		for x, val := range f {
			if x.Op != "eq" {
				continue
			}
			for i := range x.Args {
				if !x.Args[i].isInt(k) {
					continue
				}
				t := x.Args[1-i]
				if t.Op != "call" || !strings.HasSuffix(t.Aux, "Kind") {
					continue
				}
				depth, typ := reflected(t.Args[0], ptr)
				if depth == 1 && !typ && !val {
					// nothing is said of what a nil pointer points to
					nn := false
					for y, v := range f {
						if y.Op == "call" && len(y.Args) == 1 && (strings.HasSuffix(y.Aux, "reflect.IsNil") && !v || strings.HasSuffix(y.Aux, "reflect.IsValid") && v && y.Args[0] == t.Args[0]) {
							d, tt := reflected(y.Args[0], ptr)
							nn = nn || !tt && (d == 0 || strings.HasSuffix(y.Aux, "IsValid"))
						}
					}
					if !nn {
						continue
					}
				}
				if depth == 0 && !elem || depth == 1 && elem {
					if val {
						res = yes
					} else {
						res = no
					}
				}
			}
		}
		return res
	}
	const ptrKind = 22
	fit := func(f Facts) bool { return kindOf(f, ptrKind, false) == yes && kindOf(f, ptrKind, true) == no }
	r.logs(func(log []*Event) {
		for _, e := range log {
			switch {
			case strings.HasPrefix(e.Op, "ext:(sid.Provider)."), e.Op == "decode", e.Op == "mapget", e.Op == "encode":
				c.ob("first", r, nil, e.Pos, fit(e.Facts), "%s before the destination was looked at", e)
			}
			switch {
			case strings.HasPrefix(e.Op, "reflect."):
				ok := false
				x, f := e.Args[0], e.Facts
				isPtr := kindOf(f, ptrKind, false) == yes
				depth, typ := reflected(x, ptr)
				valid := depth == 0 && (isPtr || tri(f, mkEq(ptr, tNil)) == no || typ && tri(f, mkEq(x, tNil)) == no)
				for y, v := range f {
					// the value a pointer points to is there unless it is nil
					if y.Op == "call" && len(y.Args) == 1 {
						switch d, t := reflected(y.Args[0], ptr); {
						case strings.HasSuffix(y.Aux, "reflect.IsValid") && v && y.Args[0] == x,
							strings.HasSuffix(y.Aux, "reflect.IsNil") && !v && d == 0 && !t && depth == 1:
							valid = true
						}
					}
				}
				switch m := strings.TrimPrefix(e.Op, "reflect."); m {
				case "ValueOf", "TypeOf", "IsValid", "Indirect":
					ok = true
				case "Kind":
					ok = !typ || depth > 0 || valid
				case "Elem", "IsNil":
					ok = depth == 0 && isPtr
				case "Type":
					ok = depth >= 0 && !typ && valid
				}
				c.ob("panic", r, nil, e.Pos, ok, "%s may panic", e)
			case e.Op == "badassert" || e.Op == "panic":
				c.ob("panic", r, nil, e.Pos, false, "%s", e)
			}
			for _, t := range append(append([]*Term{}, e.Args...), e.Res) {
				if t == nil || e.Op == "loop.done" {
					continue
				}
				t.any(func(x *Term) bool {
					if x.Op == "elem" && x.Args[0].Op == "res" {
						c.ob("panic", r, nil, e.Pos, tri(e.Facts, mkLt(x.Args[1], mkLen(x.Args[0]))) == yes, "%s although the storage may not have answered as much", e)
					}
					return false
				})
			}
		}
	})
	r.exits(func(o *Outcome) {
		f := o.st.facts.m
		class, t := c.errOf(o)
		for x := range f {
			x.any(func(y *Term) bool {
				if y.Op == "elem" && y.Args[0].Op == "res" {
					c.ob("panic", r, o, o.pos, tri(f, mkLt(y.Args[1], mkLen(y.Args[0]))) == yes, "%v is looked at although the storage may not have answered as much", y)
				}
				return false
			})
		}
		switch class {
		case "ErrNeedsPointer":
			c.ob("refuse", r, o, o.pos, kindOf(f, ptrKind, false) == no || isNone(f, ptr), "a pointer is refused as none")
		case "ErrPointerToPointer":
			c.ob("refuse", r, o, o.pos, kindOf(f, ptrKind, false) == yes && kindOf(f, ptrKind, true) == yes, "a pointer is refused as pointer to a pointer")
		default:
			c.ob("refuse", r, o, o.pos, fit(f), "an unfit destination is answered with %v", t)
		}
		n := 0
		var dec *Event
		for _, e := range o.st.log {
			if e.Op == "decode" {
				n++
				dec = e
				c.ob("afresh", r, o, e.Pos, e.Args[2] == ptr && isCoder(e.Args[0], recv, si.coder), "%s does not decode with the handle's coder into the destination", e)
			}
		}
		switch {
		case class == "nil":
			c.ob("afresh", r, o, o.pos, n == 1 && dec.Ok, "a read succeeds without decoding")
		case n > 0 && dec.Ok:
			c.ob("afresh", r, o, o.pos, failedStep(o), "a read that decoded answers %v", t)
		case n > 0:
			c.ob("afresh", r, o, o.pos, wraps(t, dec.Res), "a failed decoding is answered with %v", t)
		}
	})
	// what is kept
	tp := c.a.pkg("").Type("Session").Type().Underlying().(*types.Struct)
	for i := 0; i < tp.NumFields(); i++ {
		if m, ok := tp.Field(i).Type().Underlying().(*types.Map); ok {
			bad := ""
			var walk func(t types.Type)
			walk = func(t types.Type) {
				switch u := t.Underlying().(type) {
				case *types.Struct:
					for j := 0; j < u.NumFields(); j++ {
						walk(u.Field(j).Type())
					}
				case *types.Slice:
					walk(u.Elem())
				case *types.Basic:
				default:
					bad = typeStr(t)
				}
			}
			walk(m.Elem())
			c.ob("bytes", r, nil, tp.Field(i).Pos(), bad == "", "the handle keeps a %s", bad)
		}
	}
	for _, n := range []string{"Get", "Prepare", "Put"} {
		if m := c.methodOf("", "Session", n); m != nil {
			rr := c.run(m)
			isPtr := func(t *Term) bool { return t == par(m, 1) || strip(t) == par(m, 1) }
			for _, e := range rr.en.events {
				if e.Op == "mapset" && len(e.Args) > 2 {
					bad := e.Args[2].any(func(x *Term) bool { return n == "Get" && isPtr(x) })
					c.ob("bytes", rr, nil, e.Pos, !bad, "%s keeps what belongs to the caller", e)
				}
			}
		}
	}
}
func isCoder(k, recv *Term, field string) bool {
	return k.Op == "codec" && len(k.Args) == 1 && isField(k.Args[0], recv, field)
}
