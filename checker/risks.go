package main

// What can panic: every use of a pointer, an index, a slice bound, an
// assertion, a map write and a make that the operations come to.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Risk is a use that panics unless what it needs is known.
type Risk struct {
	Kind  string // nil, index, slice, assert, nilmap, make, short, divide
	A     []*Term
	Pos   token.Pos
	Site  string
	Facts map[*Term]bool
	Loops []*Term // the loops it is in
}

func (en *Engine) risk(st *State, fr *Frame, instr ssa.Instruction, kind string, a ...*Term) {
	pos := token.NoPos
	if instr != nil {
		pos = instr.Pos()
		if !pos.IsValid() {
			// addresses of fields carry no position of their own
			for _, i := range instr.Block().Instrs {
				if i.Pos().IsValid() {
					pos = i.Pos()
				}
				if i == instr && pos.IsValid() {
					break
				}
			}
		}
	}
	site := kind + siteStr(fr, instr)
	if en.riskSites == nil {
		en.riskSites = map[string]token.Pos{}
	}
	en.riskSites[site] = pos
	r := &Risk{Kind: kind, A: a, Pos: pos, Site: site, Facts: st.facts.m}
	for _, l := range st.loops {
		r.Loops = append(r.Loops, l.id)
	}
	if r.safe(en) {
		return
	}
	st.facts.shared2()
	en.risks = append(en.risks, r)
}

// mayBeNil: values that are nil when something is not there. All others are
// taken to be what the caller or the constructor gave.
func mayBeNil(t *Term) bool {
	switch t.Op {
	case "nil", "listfront", "listback", "listnext", "lookup", "bucket", "W":
		return true
	case "old":
		return mayBeNil(t.Args[0])
	}
	return false
}

func (en *Engine) deref(st *State, fr *Frame, instr ssa.Instruction, b *Term) {
	if mayBeNil(b) {
		en.risk(st, fr, instr, "nil", b)
	}
}

// fieldRisk: a method of what a field holds is called.
func (en *Engine) fieldRisk(st *State, fr *Frame, instr ssa.Instruction, recv *Term) {
	if recv.Op == "load" && recv.Args[0].Op == "faddr" {
		if recv.Type != nil {
			switch recv.Type.Underlying().(type) {
			case *types.Pointer, *types.Interface:
				en.risk(st, fr, instr, "field", recv)
			}
		}
	} else {
		en.deref(st, fr, instr, recv)
	}
}

func (r *Risk) safe(en *Engine) bool {
	f := r.Facts
	en.riskIn = r.Loops
	switch r.Kind {
	case "field":
		return tri(f, mkEq(r.A[0], tNil)) == no
	case "nil", "nilmap":
		return en.isThere(f, r.A[0], map[*Term]bool{})
	case "short":
		// a stored number is eight bytes long
		b := r.A[0]
		return b.Op == "ckey" || b.Op == "cval" || b.Op == "be64" || tri(f, mkEq(b, tNil)) == no ||
			en.atMost(f, mkInt(8), mkLen(b))
	case "index":
		n := lengthOf(r.A[0])
		return en.atMost(f, mkInt(0), r.A[1]) && en.atMost(f, mkAdd(r.A[1], mkInt(1), 1, types.Typ[types.Int]), n)
	case "slice":
		lo, hi, n := r.A[1], r.A[2], r.A[3]
		return en.atMost(f, mkInt(0), lo) && en.atMost(f, lo, hi) && en.atMost(f, hi, n)
	case "assert":
		return tri(f, r.A[0]) == yes
	case "make":
		return en.atMost(f, mkInt(0), r.A[0]) && en.atMost(f, r.A[0], r.A[1])
	case "period":
		return en.atMost(f, mkInt(1), r.A[0])
	case "divide":
		return tri(f, mkEq(r.A[0], mkInt(0))) == no
	}
	return false
}

// lengthOf: the length of a slice, a string or an array.
func lengthOf(b *Term) *Term {
	t := b.Type
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	return mkLen(b)
}

// isThere: the pointer or map is known not to be nil.
func (en *Engine) isThere(f Facts, t *Term, seen map[*Term]bool) bool {
	if tri(f, mkEq(t, tNil)) == no {
		return true
	}
	switch t.Op {
	case "listfront", "listback":
		return len(t.Args) > 1 && en.atMost(f, mkInt(1), mk("listlen", "", types.Typ[types.Int], t.Args...))
	case "lookup":
		return tri(f, mk("has", "", nil, t.Args...)) == yes
	case "bucket":
		return false
	case "load":
		return t.Args[0].Op != "global" || en.a.initHeap[t.Args[0]] != nil && tri(f, mkEq(en.a.initHeap[t.Args[0]], tNil)) == no
	case "W":
		if seen[t] {
			return true
		}
		seen[t] = true
		n := 0
		for _, li := range en.loops {
			for _, m := range []map[*Term]bool{li.init[t], li.contrib[t]} {
				for x := range m {
					n++
					if mayBeNil(x) && !en.isThere(f, x, seen) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return !mayBeNil(t)
}

// atMost: a <= b follows from the facts.
func (en *Engine) atMost(f Facts, a, b *Term) bool {
	l := toLin(b)
	l.addTerm(a, -1)
	return en.nonNeg(f, l, 4, map[string]bool{})
}

func (l *lin) clone() *lin {
	r := &lin{m: map[*Term]int64{}, c: l.c}
	for k, v := range l.m {
		r.m[k] = v
	}
	return r
}

// nonNeg: the sum is at least zero.
func (en *Engine) nonNeg(f Facts, l *lin, depth int, seen map[string]bool) bool {
	ok := l.c >= 0
	var bad []*Term
	for t, k := range l.m {
		if k == 0 {
			continue
		}
		if k < 0 || !countable(t) {
			ok = false
			bad = append(bad, t)
		}
	}
	if ok {
		return true
	}
	if depth == 0 {
		return false
	}
	// take away something known to be at least zero
	less := func(h *lin) bool {
		x := l.clone()
		x.c -= h.c
		for t, k := range h.m {
			x.m[t] -= k
		}
		key := x.term(nil).String()
		if seen[key] {
			return false
		}
		seen[key] = true
		return en.nonNeg(f, x, depth-1, seen)
	}
	of := func(p, q *Term, c int64) *lin { // q - p + c
		h := toLin(q)
		h.addTerm(p, -1)
		h.c += c
		return h
	}
	useful := func(h *lin) bool {
		if len(bad) == 0 {
			for t, k := range h.m {
				if k > 0 && l.m[t] > 0 || k < 0 && l.m[t] < 0 {
					return true
				}
			}
			return false
		}
		for _, t := range bad {
			if h.m[t]*l.m[t] > 0 {
				return true
			}
		}
		return false
	}
	try := func(h *lin) bool { return useful(h) && less(h) }
	for k, v := range f {
		switch k.Op {
		case "lt":
			if v && try(of(k.Args[0], k.Args[1], -1)) || !v && try(of(k.Args[1], k.Args[0], 0)) {
				return true
			}
		case "eq":
			if v && intTerm(k.Args[0]) && intTerm(k.Args[1]) && (try(of(k.Args[0], k.Args[1], 0)) || try(of(k.Args[1], k.Args[0], 0))) {
				return true
			}
			if v && k.Args[0].Op != "nil" && k.Args[1].Op != "nil" && !intTerm(k.Args[0]) && k.Args[0].Type != nil && k.Args[1].Type != nil {
				if b, ok := k.Args[0].Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					if p, q := mkLen(k.Args[0]), mkLen(k.Args[1]); try(of(p, q, 0)) || try(of(q, p, 0)) {
						return true
					}
				}
			}
		}
	}
	var all []*Term
	for t, k := range l.m {
		if k != 0 {
			all = append(all, t)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, t := range all {
		if lo, hi, hasLo, hasHi := bounds(f, t); l.m[t] > 0 && hasLo {
			if try(of(mkInt(lo), t, 0)) {
				return true
			}
		} else if l.m[t] < 0 && hasHi {
			if try(of(t, mkInt(hi), 0)) {
				return true
			}
		}
		switch {
		case t.Op == "call" && (t.Aux == "strings.LastIndex" || t.Aux == "strings.Index" || t.Aux == "bytes.IndexByte"):
			// -1, or a place where the separator fits
			n := int64(0)
			if s, ok := t.Args[1].strVal(); ok {
				n = int64(len(s))
			}
			found := foundIn(f, t)
			if t.Aux == "strings.Index" && l.m[t] < 0 {
				// not after the last
				if try(of(t, mk("call", "strings.LastIndex", t.Type, t.Args...), 0)) {
					return true
				}
			}
			if t.Aux == "strings.LastIndex" && l.m[t] > 0 {
				// not before the first
				x := mk("call", "strings.Index", t.Type, t.Args...)
				c := int64(0)
				if tri(f, mkEq(x, t)) == no {
					c = -1
				}
				if try(of(x, t, c)) {
					return true
				}
			}
			if l.m[t] > 0 {
				c := int64(1)
				if found {
					c = 0
				}
				if try(of(mkInt(0), t, c)) {
					return true
				}
			} else if n <= 1 || found {
				if try(of(t, mkLen(t.Args[0]), -n)) {
					return true
				}
			}
		case t.Op == "W":
			for _, h := range en.sinceStart(t) {
				if try(h) {
					return true
				}
			}
			for _, h := range en.counted(t, en.riskIn) {
				if try(h) {
					return true
				}
			}
		case t.Op == "copied" && l.m[t] < 0:
			for _, a := range t.Args {
				if try(of(t, mkLen(a), 0)) {
					return true
				}
			}
		case t.Op == "len" && t.Args[0].Op == "toksig" && l.m[t] < 0:
			// the signature is what follows the last separator
			if try(of(t, mkLen(t.Args[0].Args[0]), -1)) {
				return true
			}
		case t.Op == "len" && t.Args[0].Op == "W" && l.m[t] > 0:
			// as many as there were rounds
			for _, h := range en.grownWith(t.Args[0]) {
				if less(h) {
					return true
				}
			}
		}
	}
	return false
}

// foundIn: the separator looked for is known to be there, by the first place,
// by the last, or by the two being different.
func foundIn(f Facts, t *Term) bool {
	same := []*Term{t}
	if tok := mk("badtoken", "", types.Typ[types.Bool], t.Args[0]); t.Args[1] == mkStr(".") && tri(f, tok) == no {
		return true // it has been taken apart
	}
	if strings.HasPrefix(t.Aux, "strings.") {
		a, b := mk("call", "strings.Index", t.Type, t.Args...), mk("call", "strings.LastIndex", t.Type, t.Args...)
		same = []*Term{a, b}
		if tri(f, mkEq(a, b)) == no {
			return true
		}
	}
	for _, x := range same {
		if lo, _, hasLo, _ := bounds(f, x); hasLo && lo >= 0 {
			return true
		}
		if tri(f, mkEq(x, mkInt(-1))) == no {
			return true
		}
	}
	return false
}
func intTerm(t *Term) bool {
	return t.isConst() && t.Val.Kind().String() == "Int" || t.Op == "lin" || t.Op == "len" || isIntType(t.Type)
}

// sinceStart: what is at least zero because a loop variable is only raised,
// or only lowered.
func (en *Engine) sinceStart(w *Term) (out []*lin) {
	by := func(t, base *Term) (int64, bool) { // t - base
		l := toLin(t)
		l.addTerm(base, -1)
		return l.term(nil).intVal()
	}
	var inits, all []*Term
	for _, li := range en.loops {
		for t := range li.init[w] {
			if t != w {
				inits = append(inits, t)
			}
		}
		for t := range li.contrib[w] {
			all = append(all, t)
		}
	}
	for _, i := range inits {
		for _, sign := range []int64{1, -1} {
			ok := true
			for _, t := range append(append([]*Term{}, inits...), all...) {
				if d, is := by(t, w); is && d*sign >= 0 {
					continue
				}
				if d, is := by(t, i); is && d*sign >= 0 {
					continue
				}
				ok = ok && sign > 0 && i.isConst() && countable(t) && i.Val.ExactString()[0] == '-' // below zero
			}
			if ok {
				l := &lin{m: map[*Term]int64{}}
				l.addTerm(w, sign)
				l.addTerm(i, -sign)
				out = append(out, l)
			}
		}
	}
	return
}

// counted: inside a loop over a map, a number raised by one for each entry
// is less than the number of entries.
func (en *Engine) counted(w *Term, in []*Term) (out []*lin) {
	for _, li := range en.loops {
		if li.kind != "maprange" || li.over == nil || len(li.contrib[w]) == 0 || len(li.init[w]) != 1 {
			continue
		}
		inside := false
		for _, id := range in {
			inside = inside || id == li.id
		}
		if !inside {
			continue
		}
		ok := true
		for t := range li.contrib[w] {
			l := toLin(t)
			l.addTerm(w, -1)
			d, is := l.term(nil).intVal()
			if !is {
				for i := range li.init[w] {
					l = toLin(t)
					l.addTerm(i, -1)
					d, is = l.term(nil).intVal()
				}
			}
			ok = ok && is && d >= 0 && d <= 1
		}
		for i := range li.init[w] {
			if ok {
				h := toLin(mkLen(li.over))
				h.addTerm(w, -1)
				h.addTerm(i, 1)
				h.c--
				out = append(out, h)
			}
		}
	}
	return
}

func init() { props["C28"] = c28 }

func c28(c *Ctx) {
	c.rule("crash", "no use of a pointer, an index, a slice bound, an assertion, a map or a make can panic, whatever is stored, sent or answered", 60)
	c.rule("equipped", "what is called through a field is there from the start, or is looked for first", 6)
	seen := map[string]bool{}
	used := map[string]*Risk{} // fields whose methods are called, whatever they hold
	do := func(r *Run) {
		if seen[r.fn.String()] {
			return
		}
		seen[r.fn.String()] = true
		bad := map[string]*Risk{}
		for _, k := range r.en.risks {
			if k.Kind == "field" {
				if used[fieldKeyOf(k.A[0].Args[0])] == nil {
					used[fieldKeyOf(k.A[0].Args[0])] = k
				}
				continue
			}
			if bad[k.Site] == nil && !k.safe(r.en) {
				bad[k.Site] = k
			}
		}
		for s, pos := range r.en.riskSites {
			k := bad[s]
			why := ""
			if k != nil {
				why = k.why()
			}
			c.obx("crash", r, nil, pos, s[:strings.IndexAny(s, "@_(*/")+0], k == nil, "%s", why)
		}
		for _, o := range r.outs {
			if o.panic {
				c.ob("crash", r, &o, o.pos, false, "the operation panics")
			}
		}
	}
	for _, p := range c.providers() {
		sig := c.signals(p)
		c.allRuns(p, func(name string, r *Run, worker bool) {
			do(r)
			for _, e := range r.en.events {
				if e.Op == "send" {
					c.ob("crash", r, nil, e.Pos, !closing(sig, e.Args[0]), "%s: Close closes this channel", e)
				}
				for _, a := range e.Args {
					if a.is("case") && a.Aux == "send" {
						c.ob("crash", r, nil, e.Pos, !closing(sig, a.Args[0]), "%s: Close closes this channel", e)
					}
				}
			}
		})
		if p.ctor != nil {
			do(c.run(p.ctor))
		}
	}
	for _, fn := range c.a.funcs {
		if fn.Parent() != nil || strings.Contains(fn.Name(), "$") || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		hasFn := false
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				hasFn = true
			}
		}
		if !hasFn {
			do(c.run(fn))
		}
	}
	c.equipped(used)
	c.rule("prepared", "every bucket that is opened without looking is there from construction on", 5)
	c.bucketsPrepared("prepared")
	c.rule("begun", "a task begins with what it works on", 3)
	for _, p := range c.providers() {
		if p.ctor == nil {
			continue
		}
		r := c.run(p.ctor)
		for _, e := range r.en.gos {
			ok := true
			if fn, _ := e.Args[0].Obj.(*ssa.Function); fn != nil && fn.Signature.Recv() != nil && len(e.Args) > 1 {
				ok = strip(e.Args[1]) != tNil && tri(e.Facts, mkEq(e.Args[1], tNil)) != yes
			}
			c.obx("begun", r, nil, e.Pos, e.Op, ok, "%s is started on nothing: what it works on is assigned later", e)
		}
	}
}

func (k *Risk) why() string {
	switch k.Kind {
	case "nil":
		return fmt.Sprintf("%v is used although it may not be there", k.A[0])
	case "nilmap":
		return fmt.Sprintf("%v is written to although it may never have been made", k.A[0])
	case "short":
		return fmt.Sprintf("%v is read as a number although it may not be there", k.A[0])
	case "index":
		return fmt.Sprintf("element %v of %v is used although there may be none", k.A[1], k.A[0])
	case "slice":
		return fmt.Sprintf("%v is cut from %v to %v although it may be shorter", k.A[0], k.A[1], k.A[2])
	case "assert":
		return fmt.Sprintf("%v is taken for granted", k.A[0])
	case "period":
		return fmt.Sprintf("a ticker is made with a period of %v, which may not be positive", k.A[0])
	case "make":
		return fmt.Sprintf("%v elements of %v are made", k.A[0], k.A[1])
	}
	return fmt.Sprintf("%s %v", k.Kind, k.A)
}

// chanRisk: a channel is closed, sent to or waited for.
func (en *Engine) chanRisk(st *State, fr *Frame, instr ssa.Instruction, ch *Term) {
	if ch.Op == "load" && ch.Args[0].Op == "faddr" {
		en.risk(st, fr, instr, "field", ch)
	} else {
		en.risk(st, fr, instr, "nil", ch)
	}
}

func (en *Engine) sliceRisk(st *State, fr *Frame, x *ssa.Slice, b, lo, hi *Term) {
	if lo == nil && hi == nil {
		return
	}
	n := lengthOf(b)
	if lo == nil {
		lo = mkInt(0)
	}
	if hi == nil {
		hi = n
	} else if b.Op == "mkslice" && len(b.Args) > 0 && lo.isInt(0) {
		if m, ok := x.X.(*ssa.MakeSlice); ok && m.Cap != m.Len {
			return // up to its capacity
		}
	}
	en.risk(st, fr, x, "slice", b, lo, hi, n)
}

// listValue: what the lists of sessions hold is of one type.
func listValue(a *Term, t types.Type) bool {
	return a.Op == "load" && a.Args[0].Op == "faddr" && fieldKeyOf(a.Args[0]) == "container/list.Element.Value" && onlyListed(typeStr(t))
}

// countable: a number that is never negative.
func countable(t *Term) bool {
	switch {
	case nonNegative(t), t.Op == "listlen", t.Op == "maplen":
		return true
	case t.Op == "bin" && (t.Aux == "*" || t.Aux == "/" || t.Aux == "%" || t.Aux == ">>" || t.Aux == "&"):
		for _, a := range t.Args {
			for x, k := range toLin(a).m {
				if k < 0 || !countable(x) {
					return false
				}
			}
			if toLin(a).c < 0 {
				return false
			}
		}
		return true
	}
	return false
}

// grownWith: a list that gains as many elements in each round of its loop as
// a number is raised by is longer by as much as the number is higher.
func (en *Engine) grownWith(w *Term) (out []*lin) {
	for _, li := range en.loops {
		if len(li.contrib[w]) == 0 || len(li.init[w]) != 1 {
			continue
		}
		for i := range li.contrib {
			if i == w || !isIntType(i.Type) || len(li.init[i]) != 1 {
				continue
			}
			same := true
			for _, it := range li.iters {
				if it.exit != "next" {
					continue
				}
				var by int64 = -1
				for t := range it.next[i] {
					if t.Op != "lin" || len(t.Args) != 1 || t.Args[0] != i || linCoef(t, 0) != 1 || by >= 0 && by != linConst(t) || linConst(t) < 1 {
						same = false
					} else {
						by = linConst(t)
					}
				}
				n := 0
				for t := range it.next[w] {
					n++
					if it.n == 0 && t.Op == "seq" && int64(len(t.Args)) == by && !seqHasSpread(t) && emptyAt(li.init[w]) {
						continue
					}
					if t.Op != "seq" || int64(len(t.Args)) != by+1 || t.Args[0].Op != "spread" || t.Args[0].Args[0] != w || seqHasSpread(mk("seq", "", nil, t.Args[1:]...)) {
						same = false
					}
				}
				same = same && n > 0 && by > 0
			}
			if !same {
				continue
			}
			for w0 := range li.init[w] {
				for i0 := range li.init[i] {
					// len(w) - len(w0) - (i - i0) is zero
					h := toLin(mkLen(w))
					h.addTerm(mkLen(w0), -1)
					h.addTerm(i, -1)
					h.addTerm(i0, 1)
					out = append(out, h)
				}
			}
		}
	}
	return
}

func emptyAt(m map[*Term]bool) bool {
	for t := range m {
		if !mkLen(t).isInt(0) {
			return false
		}
	}
	return true
}

// equipped: what a constructor makes has everything whose methods are called.
func (c *Ctx) equipped(used map[string]*Risk) {
	var keys []string
	for k := range used {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, fn := range c.a.funcs {
		if fn.Parent() != nil || strings.Contains(fn.Name(), "$") || fn.Object() == nil || fn.Signature.Results().Len() == 0 {
			continue
		}
		pt, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok {
			continue
		}
		if n, ok := pt.Elem().(*types.Named); !ok || c.a.repoStruct(n) == nil {
			continue
		}
		r := c.run(fn)
		for _, key := range keys {
			r.exits(func(o *Outcome) {
				if !isFresh(o.res[0]) {
					return
				}
				for _, v := range r.under(o, o.res[0], key) {
					ok := c.made(r, o, v)
					c.obx("equipped", r, o, o.pos, key, ok, "%s makes something whose %s may be nil (%v) although it is relied on", fn.Name(), key[strings.LastIndexByte(key, '.')+1:], v)
				}
			})
		}
	}
}

// made: the value a constructor puts into a field is not nil, or is the
// caller's.
func (c *Ctx) made(r *Run, o *Outcome, v *Term) bool {
	if tri(o.st.facts.m, mkEq(v, tNil)) == no {
		return true
	}
	switch v.Op {
	case "param":
		return true
	case "field":
		// part of what it is given by those who make the whole
		whole := v
		for whole.Op == "field" {
			whole = whole.Args[0]
		}
		if whole.Op != "param" || exported(r.fn) {
			return false
		}
		for _, f := range c.a.funcs {
			if f != r.fn && f.Signature.Results().Len() > 0 && types.Identical(f.Signature.Results().At(0).Type(), r.fn.Signature.Results().At(0).Type()) && c.a.calls(f, r.fn) {
				return true
			}
		}
		return false
	case "load":
		return v.Args[0].Op == "faddr" // which has been made elsewhere
	case "hv":
		// what the options leave: the default, or what the caller gives
		key := fieldKeyOf(v.Args[0])
		n := 0
		for k, d := range c.a.initHeap {
			if k.Op == "faddr" && k.Args[0].Op == "global" && fieldKeyOf(k) == key {
				n++
				if tri(Facts{}, mkEq(d, tNil)) != no {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}
