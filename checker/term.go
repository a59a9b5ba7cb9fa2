package main

// Terms: hash-consed value numbers. Two registers that denote the same value
// on a path get the same term, so what is known about one is known about the
// other (global value numbering, path by path).

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

type Term struct {
	id   int
	Op   string
	Aux  string
	Args []*Term
	Type types.Type
	Val  constant.Value // Op "const"
	Obj  interface{}    // *ssa.Function, *ssa.Global, ...
}

var termPool = map[string]*Term{}
var termCount int

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		if a == nil {
			b.WriteString("|-")
		} else {
			fmt.Fprintf(&b, "|%d", a.id)
		}
	}
	if typ != nil && (op == "param" || op == "freevar") {
		// parameters of the same name but of different types are different
		b.WriteString("|" + types.TypeString(typ, nil))
	}
	k := b.String()
	if t := termPool[k]; t != nil {
		if t.Type == nil {
			t.Type = typ
		}
		return t
	}
	termCount++
	t := &Term{id: termCount, Op: op, Aux: aux, Type: typ, Args: append([]*Term(nil), args...)}
	termPool[k] = t
	return t
}
func mkObj(op, aux string, obj interface{}, typ types.Type, args ...*Term) *Term {
	t := mk(op, aux, typ, args...)
	t.Obj = obj
	return t
}

var tNil = mk("nil", "", nil)
var tTrue = mkConst(constant.MakeBool(true), types.Typ[types.Bool])
var tFalse = mkConst(constant.MakeBool(false), types.Typ[types.Bool])
var tNow = mk("now", "", nil)
var tEmpty = mk("empty", "", nil) // base version of a fresh map

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkConst(v constant.Value, typ types.Type) *Term {
	if v.Kind() == constant.Float {
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			v = i
		}
	}
	k := v.ExactString()
	switch v.Kind() {
	case constant.Bool:
		k = "bool " + k
	case constant.String:
		k = "str " + k
	}
	t := mk("const", k, typ)
	t.Val = v
	return t
}
func mkInt(n int64) *Term  { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func (t *Term) isConst() bool {
	return t != nil && t.Op == "const"
}
func (t *Term) intVal() (int64, bool) {
	if t == nil || t.Op != "const" || t.Val.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.Val)
}
func (t *Term) isInt(n int64) bool { v, ok := t.intVal(); return ok && v == n }
func (t *Term) strVal() (string, bool) {
	if t == nil || t.Op != "const" || t.Val.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.Val), true
}
func (t *Term) is(op string) bool { return t != nil && t.Op == op }
func (t *Term) arg(i int) *Term {
	if t == nil || i >= len(t.Args) {
		return nil
	}
	return t.Args[i]
}

// any reports whether f holds for t or a part of it.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}
func (t *Term) contains(sub *Term) bool {
	return t.any(func(x *Term) bool { return x == sub })
}

// subst replaces terms by m, bottom up, keeping normal forms.
type subster struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	age  bool // values of older iterations stay as they are
}

func newSubst(m map[*Term]*Term) *subster { return &subster{m: m, memo: map[*Term]*Term{}} }
func (s *subster) do(t *Term) *Term {
	if t == nil || len(s.m) == 0 {
		return t
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.Args) == 0 || s.age && t.Op == "old" {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = s.do(a)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	s.memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "lin":
		l := &lin{c: linConst(t), m: map[*Term]int64{}}
		for i, a := range args {
			l.addTerm(a, linCoef(t, i))
		}
		return l.term(t.Type)
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1])
	case "cat":
		r := args[0]
		for _, a := range args[1:] {
			r = mkCat(r, a)
		}
		return r
	}
	r := mk(t.Op, t.Aux, t.Type, args...)
	r.Obj = t.Obj
	r.Val = t.Val
	return r
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 14 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "nil":
		return "nil"
	case "now":
		return "now"
	case "const":
		return t.Val.String()
	case "param", "freevar":
		return t.Aux
	case "global":
		return "&" + shortName(t.Aux)
	case "load":
		a := t.Args[0]
		v := ""
		if len(t.Args) > 1 && t.Args[1] != nil {
			v = "'" + t.Args[1].str(d+1)
		}
		if a.Op == "global" {
			return shortName(a.Aux)
		}
		if a.Op == "faddr" {
			return a.Args[0].str(d+1) + "." + a.Aux + v
		}
		return "*" + a.str(d+1) + v
	case "faddr":
		return t.Args[0].str(d+1) + "." + t.Aux
	case "field":
		return t.Args[0].str(d+1) + "." + t.Aux
	case "alloc":
		return "new@" + t.Aux
	case "eq":
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	case "lt":
		return t.Args[0].str(d+1) + "<" + t.Args[1].str(d+1)
	case "lin":
		s := ""
		for i, a := range t.Args {
			c := linCoef(t, i)
			if c == 1 {
				s += "+"
			} else if c == -1 {
				s += "-"
			} else {
				s += fmt.Sprintf("%+d*", c)
			}
			s += a.str(d + 1)
		}
		if c := linConst(t); c != 0 {
			s += fmt.Sprintf("%+d", c)
		}
		return "(" + strings.TrimPrefix(s, "+") + ")"
	case "call":
		return shortName(t.Aux) + "(" + args() + ")"
	case "fn":
		return "func " + shortName(t.Aux)
	case "iface":
		return t.Args[0].str(d + 1)
	case "epoch":
		return t.Aux
	}
	s := t.Op
	if t.Aux != "" {
		s += "<" + shortName(t.Aux) + ">"
	}
	if len(t.Args) == 0 {
		return s
	}
	return s + "(" + args() + ")"
}
func shortName(s string) string {
	s = strings.ReplaceAll(s, "github.com/powerpuffpenguin/sessionid", "sid")
	s = strings.ReplaceAll(s, "github.com/go-redis/redis/v8", "redis")
	s = strings.ReplaceAll(s, "github.com/boltdb/", "")
	return s
}

// strip removes wrappers that do not change which content is meant.
func strip(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "s2b", "b2s", "iface", "bcopy":
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}
func unwrapIface(t *Term) *Term {
	for t.is("iface") {
		t = t.Args[0]
	}
	return t
}

// string concatenation, flattened, adjacent constants joined.
func concatParts(t *Term) []*Term {
	if t.is("cat") {
		return t.Args
	}
	return []*Term{t}
}
func mkCat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, p := range concatParts(t) {
			if s, ok := p.strVal(); ok {
				if s == "" {
					continue
				}
				if len(out) > 0 {
					if s0, ok := out[len(out)-1].strVal(); ok {
						out[len(out)-1] = mkStr(s0 + s)
						continue
					}
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", types.Typ[types.String], out...)
}

// linear sums over terms: counters, lengths and points in time.
type lin struct {
	c int64
	m map[*Term]int64
}

func linConst(t *Term) int64 {
	var c int64
	fmt.Sscanf(t.Aux, "%d", &c)
	return c
}
func linCoef(t *Term, i int) int64 {
	p := strings.Split(t.Aux, ";")
	var c int64
	fmt.Sscanf(p[i+1], "%d", &c)
	return c
}
func toLin(t *Term) *lin {
	l := &lin{m: map[*Term]int64{}}
	l.addTerm(t, 1)
	return l
}
func (l *lin) addTerm(t *Term, k int64) {
	if v, ok := t.intVal(); ok {
		l.c += v * k
		return
	}
	if t.Op == "lin" {
		l.c += linConst(t) * k
		for i, a := range t.Args {
			l.m[a] += linCoef(t, i) * k
		}
		return
	}
	l.m[t] += k
}
func (l *lin) term(typ types.Type) *Term {
	var ts []*Term
	for t, k := range l.m {
		if k != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return mkConst(constant.MakeInt64(l.c), typ)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.m[ts[0]] == 1 && l.c == 0 {
		return ts[0]
	}
	aux := fmt.Sprint(l.c)
	for _, t := range ts {
		aux += fmt.Sprintf(";%d", l.m[t])
	}
	return mk("lin", aux, typ, ts...)
}
func mkAdd(a, b *Term, k int64, typ types.Type) *Term {
	l := toLin(a)
	l.addTerm(b, k)
	return l.term(typ)
}

// mkNot, mkEq, mkLt build normalised predicates.
func mkNot(t *Term) *Term {
	if t == tTrue {
		return tFalse
	}
	if t == tFalse {
		return tTrue
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], t)
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isUnsignedType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func nonNegative(t *Term) bool {
	return t.Op == "len" || isUnsignedType(t.Type)
}
func mkEq(a, b *Term) *Term {
	a, b = redisConst(a), redisConst(b)
	if a.is("iface") && b.is("iface") && a.Args[0].Op == "const" && b.Args[0].Op == "const" && a.Aux == b.Aux {
		a, b = a.Args[0], b.Args[0]
	}
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		if a.Val.Kind() == b.Val.Kind() {
			return mkBool(a.Val.ExactString() == b.Val.ExactString())
		}
		return tFalse
	}
	if b == tTrue || b == tFalse {
		a, b = b, a
	}
	if a == tTrue {
		return b
	}
	if a == tFalse {
		return mkNot(b)
	}
	// numeric: bring to the form (sum of terms == constant) where possible
	if a.Op == "lin" || b.Op == "lin" {
		l := toLin(a)
		l.addTerm(b, -1)
		pos, neg := l.split()
		x, y := pos.term(a.Type), neg.term(a.Type)
		if x.isConst() && y.isConst() {
			return mkEq(x, y)
		}
		if (x.Op == "lin" || y.Op == "lin") && (x.isConst() || y.isConst() || x.Op == "lin" || y.Op == "lin") {
			if x.id > y.id {
				x, y = y, x
			}
			return mk("eq", "", types.Typ[types.Bool], x, y)
		}
		a, b = x, y
		if a == b {
			return tTrue
		}
	}
	// Error() text of the redis nil reply
	for i := 0; i < 2; i++ {
		if s, ok := b.strVal(); ok {
			if a.is("call") && a.Aux == "error.Error" && s == "redis: nil" {
				return mkEq(a.Args[0], errGlobal("github.com/go-redis/redis/v8.Nil"))
			}
			if s == "" && a.Op != "lin" {
				return mkEq(mkLen(a), mkInt(0))
			}
		}
		a, b = b, a
	}
	for i := 0; i < 2; i++ {
		if a.is("bcopy") && b.is("nil") {
			switch a.Aux {
			case "same":
				return mkEq(a.Args[0], b)
			case "nn":
				return tFalse
			}
			return mkEq(mkLen(a), mkInt(0))
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

// redisConst names the error constants of the redis client.
func redisConst(t *Term) *Term {
	if t.is("iface") {
		if s, ok := t.Args[0].strVal(); ok {
			switch s {
			case "redis: nil":
				return errGlobal("github.com/go-redis/redis/v8.Nil")
			case "redis: transaction failed":
				return errGlobal("github.com/go-redis/redis/v8.TxFailedErr")
			}
		}
	}
	return t
}
func errGlobal(name string) *Term {
	return mk("load", "", nil, mk("global", name, nil))
}

// split separates positive from negative parts: l == pos - neg.
func (l *lin) split() (pos, neg *lin) {
	pos, neg = &lin{m: map[*Term]int64{}}, &lin{m: map[*Term]int64{}}
	for t, k := range l.m {
		if k > 0 {
			pos.m[t] = k
		} else if k < 0 {
			neg.m[t] = -k
		}
	}
	if l.c > 0 {
		pos.c = l.c
	} else {
		neg.c = -l.c
	}
	if len(pos.m) == 0 && pos.c == 0 && len(neg.m) > 0 && neg.c > 0 {
		// x + c == 0  ->  x == -c
		pos.c, neg.c = -neg.c, 0
	} else if len(neg.m) == 0 && len(pos.m) > 0 && pos.c > 0 {
		neg.c, pos.c = -pos.c, 0
	}
	return
}
func mkLt(a, b *Term) *Term {
	l := toLin(b)
	l.addTerm(a, -1) // l > 0
	pos, neg := l.split()
	x, y := neg.term(a.Type), pos.term(a.Type)
	if xv, ok := x.intVal(); ok {
		if yv, ok := y.intVal(); ok {
			return mkBool(xv < yv)
		}
		// c < y
		if nonNegative(y) {
			if xv < 0 {
				return tTrue
			}
			if xv == 0 {
				return mkNot(mkEq(y, x))
			}
		}
	} else if yv, ok := y.intVal(); ok && nonNegative(x) {
		if yv <= 0 {
			return tFalse
		}
		if yv == 1 {
			return mkEq(x, mkInt(0))
		}
	}
	if x == y {
		return tFalse
	}
	// integers: x < y+1  ->  not (y < x);   and  c <  y  with c>0 stays
	if isIntType(a.Type) || isIntType(b.Type) {
		if y.Op == "lin" && linConst(y) == 1 {
			yl := toLin(y)
			yl.c = 0
			return mkNot(mkLt(yl.term(a.Type), x))
		}
	}
	return mk("lt", "", types.Typ[types.Bool], x, y)
}
func mkLen(t *Term) *Term {
	switch t.Op {
	case "nil":
		return mkInt(0)
	case "const":
		if s, ok := t.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case "seq":
		if !seqHasSpread(t) {
			return mkInt(int64(len(t.Args)))
		}
		l := &lin{m: map[*Term]int64{}}
		for _, a := range t.Args {
			if a.Op == "spread" {
				l.addTerm(mkLen(a.Args[0]), 1)
			} else {
				l.c++
			}
		}
		return l.term(types.Typ[types.Int])
	case "asl":
		return t.Args[1]
	case "mkslice":
		return t.Args[0]
	case "slice":
		hi := t.Args[2]
		if hi.is("nil") {
			hi = mkLen(t.Args[0])
		}
		return mkAdd(hi, t.Args[1], -1, types.Typ[types.Int])
	case "s2b", "b2s", "bcopy":
		return mkLen(t.Args[0])
	case "cat":
		l := &lin{m: map[*Term]int64{}}
		for _, a := range t.Args {
			l.addTerm(mkLen(a), 1)
		}
		return l.term(types.Typ[types.Int])
	}
	return mk("len", "", types.Typ[types.Int], t)
}

// sequences: seq(e1, ..., spread(s), ...)
func seqHasSpread(t *Term) bool {
	for _, a := range t.Args {
		if a.Op == "spread" {
			return true
		}
	}
	return false
}
func mkSeq(typ types.Type, elems ...*Term) *Term {
	var out []*Term
	for _, e := range elems {
		if e.is("spread") {
			if e.Args[0].is("nil") {
				continue
			}
			if e.Args[0].is("seq") {
				out = append(out, e.Args[0].Args...)
				continue
			}
		}
		out = append(out, e)
	}
	return mk("seq", "", typ, out...)
}
func mkSpread(t *Term) *Term { return mk("spread", "", nil, t) }
