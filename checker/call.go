package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee resolves the function and the argument values of a call.
func (en *Engine) callee(it *item, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, en.val(it, c.Value))
		for _, a := range c.Args {
			args = append(args, en.val(it, a))
		}
		return mkObj("invoke", c.Method.FullName(), c.Method, nil), args
	}
	for _, a := range c.Args {
		args = append(args, en.val(it, a))
	}
	return en.val(it, c.Value), args
}

type callCtx struct {
	en    *Engine
	st    *State
	fr    *Frame
	instr ssa.Instruction
	name  string // full name of the callee
	args  []*Term
	sig   *types.Signature
}

func (en *Engine) call(st *State, fr *Frame, instr ssa.Instruction, cc *ssa.CallCommon, f *Term, args []*Term) []Outcome {
	sig := cc.Signature()
	c := &callCtx{en: en, st: st, fr: fr, instr: instr, args: args, sig: sig}
	switch f.Op {
	case "builtin":
		return c.builtin(f.Aux)
	case "invoke":
		m := f.Obj.(*types.Func)
		recv := args[0]
		if recv.Op == "iface" && recv.Type != nil {
			if fn := lookupMethod(en.a.prog, recv.Type, m); fn != nil {
				a := append([]*Term{recv.Args[0]}, args[1:]...)
				return en.callFn(c, fn, a, nil)
			}
		}
		c.name = m.FullName()
		en.fieldRisk(st, fr, instr, recv)
		return c.external()
	case "fn":
		return en.callFn(c, f.Obj.(*ssa.Function), args, nil)
	case "closure":
		return en.callFn(c, f.Obj.(*ssa.Function), args, f.Args)
	case "cancelfn":
		en.emit(st, fr, instr.Pos(), "cancel", true, nil, f)
		return c.ret()
	}
	if types.TypeString(cc.Value.Type(), nil) == "context.CancelFunc" {
		en.emit(st, fr, instr.Pos(), "cancel", true, nil, f)
		return c.ret()
	}
	c.name = "dyncall"
	c.args = append([]*Term{f}, args...)
	return c.generic()
}

// reduce merges the outcomes of a call that the caller cannot tell apart.
func (en *Engine) reduce(fr *Frame, outs []Outcome) []Outcome {
	p1, p2 := "@"+fr.id+".", "@"+fr.id+">"
	dead := func(k *Term) bool {
		return k.any(func(x *Term) bool {
			i := strings.IndexByte(x.Aux, '@')
			return i >= 0 && (strings.HasPrefix(x.Aux[i:], p1) || strings.HasPrefix(x.Aux[i:], p2))
		})
	}
	seen := map[string]bool{}
	var r []Outcome
	for _, o := range outs {
		k := ""
		if o.panic {
			k = fmt.Sprintf("panic%d", o.pos)
		} else {
			o.st.collapse(o.res, dead)
			o.st.gc(o.res, dead)
			for _, x := range o.res {
				k += fmt.Sprintf("%d,", x.id)
			}
			k += o.st.key()
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		r = append(r, o)
	}
	return r
}

func lookupMethod(prog *ssa.Program, t types.Type, m *types.Func) *ssa.Function {
	ms := prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return prog.MethodValue(sel)
}

func (en *Engine) callFn(c *callCtx, fn *ssa.Function, args, bindings []*Term) []Outcome {
	c.name = fn.String()
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" {
		return c.ret() // initialiser of an imported package
	}
	if en.opaque[c.name] {
		c.args = args
		return c.external()
	}
	if len(fn.Blocks) > 0 && (en.a.inRepo(fn) || fn.Synthetic != "") {
		if strings.HasPrefix(fn.Synthetic, "instance of") {
			c.args = args
			return c.external()
		}
		fr := en.frame(c.fr, fn, c.instr, "")
		return en.reduce(fr, en.exec(fr, args, bindings, c.st))
	}
	c.args = args
	c.sig = fn.Signature
	if fn.Signature.Recv() != nil && len(args) > 0 {
		en.fieldRisk(c.st, c.fr, c.instr, args[0])
	}
	if len(bindings) > 0 {
		c.args = append(append([]*Term{}, bindings...), args...)
		c.name = strings.TrimSuffix(c.name, "$bound")
	}
	return c.external()
}

// inline runs a function value (a callback) with the given arguments.
func (c *callCtx) inline(st *State, f *Term, tag string, args ...*Term) []Outcome {
	f = unwrapIface(f)
	n := *c
	n.st = st
	switch f.Op {
	case "fn", "closure":
		fn := f.Obj.(*ssa.Function)
		if len(fn.Blocks) > 0 {
			fr := c.en.frame(c.fr, fn, c.instr, tag)
			return c.en.exec(fr, args, f.Args, st)
		}
		return c.en.callFn(&n, fn, args, f.Args)
	}
	c.en.undecided(st, "unresolved callback in "+c.fr.fn.String())
	return []Outcome{{st: st, res: []*Term{c.genr("cberr", "")}}}
}

func (c *callCtx) ret(vals ...*Term) []Outcome { return []Outcome{{st: c.st, res: vals}} }
func (c *callCtx) gen(op, tag string, typ types.Type, args ...*Term) *Term {
	return c.en.gen(c.st, c.fr, c.instr, op, tag, typ, args...)
}
func (c *callCtx) genr(op, tag string, args ...*Term) *Term {
	var t types.Type
	if c.sig.Results().Len() > 0 {
		t = c.sig.Results().At(0).Type()
	}
	return c.gen(op, tag, t, args...)
}
func (c *callCtx) emit(st *State, op string, ok bool, res *Term, args ...*Term) *Event {
	return c.en.emit(st, c.fr, c.instr.Pos(), op, ok, res, args...)
}
func (c *callCtx) snaps(ts []*Term) []*Term {
	var r []*Term
	for _, t := range ts {
		r = append(r, c.en.snap(c.st, t))
	}
	return r
}

// fork splits into success and failure of a step.
func (c *callCtx) fallible(op string, args []*Term, okf func(st *State) []*Term, nres int) []Outcome {
	fst := c.st.clone()
	err := c.en.gen(fst, c.fr, c.instr, "errv", shortName(c.name), types.Universe.Lookup("error").Type())
	c.emit(fst, op, false, err, args...)
	var fr []*Term
	for i := 0; i < nres-1; i++ {
		fr = append(fr, zero(c.en.a, c.sig.Results().At(i).Type()))
	}
	fr = append(fr, err)
	e := c.emit(c.st, op, true, nil, args...)
	res := okf(c.st)
	if len(res) > 0 {
		e.Res = res[0]
	}
	res = append(res, tNil)
	return []Outcome{{st: c.st, res: res}, {st: fst, res: fr}}
}

func (c *callCtx) builtin(name string) []Outcome {
	en, st := c.en, c.st
	switch name {
	case "len":
		n := en.lenOf(st, c.args[0])
		if isTokens(c.args[0]) {
			c.emit(st, "maplen", true, n, c.args[0])
		}
		return c.ret(n)
	case "cap":
		return c.ret(mk("cap", "", types.Typ[types.Int], c.args[0]))
	case "delete":
		m, k := c.args[0], c.args[1]
		c.emit(st, "mapdel", true, nil, m, k)
		en.mapWrite(st, m, k, nil, c.gen("wr", "", nil))
		return c.ret()
	case "close":
		en.chanRisk(st, c.fr, c.instr, c.args[0])
		c.emit(st, "close", true, nil, c.args[0])
		return c.ret()
	case "append":
		base := en.snap(st, c.args[0])
		typ := c.sig.Results().At(0).Type()
		if len(c.args) < 2 {
			return c.ret(base)
		}
		x := en.snap(st, c.args[1])
		var es []*Term
		if base.Op == "seq" {
			es = append(es, base.Args...)
		} else if base != tNil {
			es = append(es, mkSpread(base))
		}
		var reuse *Event
		if base.Op == "slice" && base.Args[2].isInt(0) {
			es = nil // s[:0]
			if base.Aux != "full" {
				reuse = c.emit(st, "reuse", true, nil, base)
			}
		}
		en.touch(st, c.fr, c.instr.Pos(), x)
		if x.Op == "seq" {
			es = append(es, x.Args...)
		} else if x != tNil {
			es = append(es, mkSpread(x))
		}
		if len(es) == 1 && es[0].Op == "spread" && isByteSlice(typ) {
			if es[0].Args[0].Type != nil {
				if b, ok := es[0].Args[0].Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					r := mk("s2b", "", typ, es[0].Args[0])
					if reuse != nil {
						reuse.Res = r
					}
					return c.ret(r)
				}
			}
			r := mk("bcopy", "", typ, es[0].Args[0])
			if base.Op == "slice" && base.Args[0] == es[0].Args[0] {
				r = mk("bcopy", "same", typ, es[0].Args[0])
			} else if base != tNil {
				r = mk("bcopy", "nn", typ, es[0].Args[0])
				if base == es[0].Args[0] {
					// nothing is added to it: the memory is the same
					r = mk("bcopy", "self", typ, es[0].Args[0])
				}
			}
			if reuse != nil {
				reuse.Res = r
			}
			return c.ret(r)
		}
		if base.Op == "slice" && base.Aux != "full" && !base.Args[2].isInt(0) && !isByteSlice(typ) {
			// append(s[:i], ...) writes into s
			c.emit(st, "appendinto", true, nil, c.args[0], x)
		}
		if len(es) == 0 {
			return c.ret(base)
		}
		r := mk("seq", "", typ, es...)
		if reuse != nil {
			reuse.Res = r
		}
		return c.ret(r)
	case "copy":
		dst, src := c.args[0], c.args[1]
		en.touch(st, c.fr, c.instr.Pos(), src)
		s := en.snap(st, src)
		for s.Op == "bcopy" {
			s = s.Args[0]
		}
		dbase, lo := dst, mkInt(0)
		if dst.Op == "slice" {
			dbase, lo = dst.Args[0], dst.Args[1]
		}
		if dbase.Op == "asl" {
			dbase = dbase.Args[0]
		}
		c.emit(st, "copy", true, nil, dst, s)
		whole := false
		if lo.isInt(0) && dst.Op != "slice" {
			if k, v := st.decide(mkEq(en.lenOf(st, dst), en.lenOf(st, src))); k && v {
				whole = true
			}
		}
		for k := range st.heap.m {
			if k.Op == "idx" && k.Args[0] == dbase {
				if i, ok := k.Args[1].intVal(); ok && !whole {
					if l, ok2 := lo.intVal(); ok2 && i < l {
						continue
					}
				}
				st.heap.del(k)
			}
		}
		if whole {
			st.heap.set(content(dbase), mk("bcopy", "nn", dst.Type, s))
		} else {
			prev := dbase
			if v, ok := st.heap.m[content(dbase)]; ok {
				prev = v
			}
			// the head is known element by element and the rest is copied
			if n, ok := lo.intVal(); ok && n > 0 && n <= 8 && prev == dbase && dst.Op == "slice" && dst.Args[2].is("nil") && dbase.Op == "mkslice" {
				if k, v := st.decide(mkEq(en.lenOf(st, dst), en.lenOf(st, src))); k && v {
					var es []*Term
					et := elemType(dbase.Type)
					for i := int64(0); i < n; i++ {
						es = append(es, en.snap(st, en.load(st, mk("idx", "", nil, dbase, mkInt(i)), et)))
					}
					st.heap.set(content(dbase), mkSeq(dst.Type, append(es, mkSpread(s))...))
					st.heap.set(dirty(dbase), tTrue)
					return c.ret(mk("copied", "", types.Typ[types.Int], dst, s))
				}
			}
			st.heap.set(content(dbase), mk("copyinto", "", dst.Type, prev, lo, s))
		}
		st.heap.set(dirty(dbase), tTrue)
		return c.ret(mk("copied", "", types.Typ[types.Int], dst, s))
	case "print", "println":
		return c.ret()
	case "recover":
		return c.ret(tNil)
	case "ssa:wrapnilchk":
		return c.ret(c.args[0])
	case "min", "max":
		return c.ret(mk("call", name, c.sig.Results().At(0).Type(), c.args...))
	}
	en.undecided(st, "builtin "+name)
	return c.ret(c.genr("unsup", name))
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// generic: a function of which nothing is known.
func (c *callCtx) generic() []Outcome {
	en, st := c.en, c.st
	args := c.snaps(c.args)
	if !strings.HasPrefix(shortName(c.name), "(sid.Provider).") {
		// a storage leaves its arguments alone (C11)
		for _, a := range c.args {
			c.havoc(a)
		}
	}
	n := c.sig.Results().Len()
	op := "ext:" + shortName(c.name)
	mkRes := func(n int) func(*State) []*Term {
		return func(s *State) []*Term {
			var r []*Term
			for i := 0; i < n; i++ {
				r = append(r, en.gen(s, c.fr, c.instr, "res", fmt.Sprint(i), c.sig.Results().At(i).Type()))
			}
			return r
		}
	}
	if n > 0 && isErrType(c.sig.Results().At(n-1).Type()) {
		return c.fallible(op, args, mkRes(n-1), n)
	}
	res := mkRes(n)(st)
	var r *Term
	if n > 0 {
		r = res[0]
	}
	c.emit(st, op, true, r, args...).Raw = c.args
	return c.ret(res...)
}

// havoc forgets local memory handed out.
func (c *callCtx) havoc(a *Term) {
	st := c.st
	seen := map[*Term]bool{}
	var do func(t *Term)
	do = func(t *Term) {
		t = unwrapIface(t)
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "closure" || t.Op == "asl" || t.Op == "slice" {
			for _, x := range t.Args {
				do(x)
			}
			if t.Op == "closure" {
				return
			}
		}
		r := root(t)
		if (r.Op == "alloc" || r.Op == "mkslice") && c.en.isLocal(st, r) {
			for k, v := range st.heap.m {
				if root(k) == r && k.Op != "havoc" {
					if v.Op == "alloc" || v.Op == "mkslice" || v.Op == "asl" {
						do(v)
					}
					st.heap.del(k)
				}
			}
			st.heap.del(content(r))
			st.heap.set(mk("havoc", "", nil, r), c.gen("hvs", "", nil))
		}
	}
	do(a)
}
func pureCall(name string, typ types.Type, args ...*Term) *Term {
	return mk("call", name, typ, args...)
}

// pure: a function of its arguments without effects.
func (c *callCtx) pure() []Outcome {
	args := c.snaps(c.args)
	for i := range args {
		args[i] = unwrapIface(args[i])
	}
	// strings and their bytes are the same content
	n := c.sig.Results().Len()
	if n == 1 {
		return c.ret(pureCall(c.name, c.sig.Results().At(0).Type(), args...))
	}
	t := pureCall(c.name, nil, args...)
	var res []*Term
	for i := 0; i < n; i++ {
		res = append(res, mk("ext", fmt.Sprint(i), c.sig.Results().At(i).Type(), t))
	}
	if n > 0 && isErrType(c.sig.Results().At(n-1).Type()) {
		err := res[n-1]
		isNil := mkEq(err, tNil)
		if known, v := c.st.decide(isNil); known {
			if v {
				res[n-1] = tNil
			}
			return c.ret(res...)
		}
		fst := c.st.clone()
		fst.assume(isNil, false)
		c.emit(fst, "pure:"+c.name, false, err, args...)
		c.st.assume(isNil, true)
		c.emit(c.st, "pure:"+c.name, true, nil, args...)
		ok := append(append([]*Term{}, res[:n-1]...), tNil)
		return []Outcome{{st: c.st, res: ok}, {st: fst, res: res}}
	}
	return c.ret(res...)
}
