package main

// Abstract state: what is known on a path.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// cow is a map copied when written after being shared.
type cow[V any] struct {
	m      map[*Term]V
	shared *bool
}

func newCow[V any]() cow[V] { f := false; return cow[V]{map[*Term]V{}, &f} }
func (c *cow[V]) clone() cow[V] {
	*c.shared = true
	return cow[V]{c.m, c.shared}
}
func (c *cow[V]) own() {
	if *c.shared {
		m := make(map[*Term]V, len(c.m)+1)
		for k, v := range c.m {
			m[k] = v
		}
		f := false
		c.m, c.shared = m, &f
	}
}
func (c *cow[V]) set(k *Term, v V) { c.own(); c.m[k] = v }
func (c *cow[V]) del(k *Term) {
	if _, ok := c.m[k]; ok {
		c.own()
		delete(c.m, k)
	}
}

type mwrite struct {
	key, val *Term
	del      bool
	site     *Term
}
type mapState struct {
	base   *Term // version the writes are on top of
	writes []mwrite
}

// Event is one effect or decision on a path.
type Event struct {
	Op    string
	Args  []*Term
	Res   *Term
	Ok    bool // the step succeeded
	Pos   token.Pos
	Chain string
	Facts map[*Term]bool
	Locks map[*Term]string
	Epoch *Term
	Tx    *Term
	Loop  []*Term // headers of the loops the event is in
	Past  bool    // of an earlier iteration
	Raw   []*Term // the arguments of an unknown call as passed
	seq   int
}

func (e *Event) key() string {
	var b strings.Builder
	b.WriteString(e.Op)
	for _, a := range e.Args {
		if a == nil {
			b.WriteString("|-")
		} else {
			fmt.Fprintf(&b, "|%d", a.id)
		}
	}
	fmt.Fprintf(&b, "|%v|%v", e.Ok, e.Past)
	if e.Res != nil {
		fmt.Fprintf(&b, "|%d", e.Res.id)
	}
	return b.String()
}
func (e *Event) String() string {
	var s []string
	for _, a := range e.Args {
		s = append(s, a.String())
	}
	r := e.Op + "(" + strings.Join(s, ", ") + ")"
	if e.Res != nil {
		r += " = " + e.Res.String()
	}
	if !e.Ok {
		r += " FAILED"
	}
	if e.Past {
		r = "past " + r
	}
	return r
}

type loopCtx struct {
	id     *Term
	events []*Event
	facts0 map[*Term]bool
	n      int  // iteration number (0 = first)
	last   bool // the iteration that ends has decided that it is the last
	over   *Term
	start  int   // length of the log at the entry of the loop
	outer  []int // lengths of the event lists of the enclosing loops then
}
type genRec struct {
	fr  *Frame
	blk int
}

type State struct {
	heap  cow[*Term]
	facts cow[bool]
	ver   cow[*Term] // version marker of a field or container
	maps  cow[*mapState]
	locks cow[string]
	gen   cow[genRec]
	epoch *Term
	tx    *Term
	log   []*Event
	loops []*loopCtx
	und   string // reason the analysis gave up on this path
	mark  *txMark
}

// txMark remembers the state at the beginning of a transaction: once a step of
// the transaction has failed, what it did until then is of no further interest,
// because it is rolled back.
type txMark struct {
	tx    *Term
	log   int
	facts map[*Term]bool
	ver   map[*Term]*Term
	maps  map[*Term]*mapState
	gen   map[*Term]genRec
	heap  map[*Term]*Term
}

func newState() *State {
	return &State{heap: newCow[*Term](), facts: newCow[bool](), ver: newCow[*Term](), maps: newCow[*mapState](),
		locks: newCow[string](), gen: newCow[genRec](), epoch: mk("epoch", "entry", nil)}
}

// memRoot is the object a memory cell belongs to.
func memRoot(k *Term) *Term {
	for {
		switch k.Op {
		case "faddr", "idx", "content", "dirty", "cur", "initalloc", "havoc":
			k = k.Args[0]
			continue
		}
		return k
	}
}

// gc drops the candidate cells that nothing can reach from the roots.
func (s *State) gc(roots []*Term, cand func(*Term) bool) {
	var cells []*Term
	for k := range s.heap.m {
		if cand(k) {
			cells = append(cells, k)
		}
	}
	var ms []*Term
	for k := range s.maps.m {
		if cand(k) {
			ms = append(ms, k)
		}
	}
	if len(cells) == 0 && len(ms) == 0 {
		return
	}
	live := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || live[t] {
			return
		}
		live[t] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, r := range roots {
		mark(r)
	}
	isCand := map[*Term]bool{}
	for _, k := range cells {
		isCand[k] = true
	}
	for _, k := range ms {
		isCand[k] = true
	}
	markMap := func(m *mapState) {
		mark(m.base)
		for _, w := range m.writes {
			mark(w.key)
			mark(w.val)
		}
	}
	for k, v := range s.heap.m {
		if !isCand[k] {
			mark(v)
		}
	}
	for k, m := range s.maps.m {
		if !isCand[k] {
			markMap(m)
		}
	}
	for k := range s.locks.m {
		mark(k)
	}
	for ch := true; ch; {
		ch = false
		for _, k := range cells {
			if isCand[k] && (live[k] || live[memRoot(k)]) {
				isCand[k] = false
				mark(s.heap.m[k])
				ch = true
			}
		}
		for _, k := range ms {
			if isCand[k] && live[k] {
				isCand[k] = false
				markMap(s.maps.m[k])
				ch = true
			}
		}
	}
	for _, k := range cells {
		if isCand[k] {
			s.heap.del(k)
		}
	}
	for _, k := range ms {
		if isCand[k] {
			s.maps.del(k)
		}
	}
}

// beginTx notes the start of a transaction.
func (s *State) beginTx(tx *Term) {
	s.tx = tx
	s.facts.shared2()
	s.ver.shared2()
	s.maps.shared2()
	s.gen.shared2()
	s.heap.shared2()
	s.mark = &txMark{tx: tx, log: len(s.log), facts: s.facts.m, ver: s.ver.m, maps: s.maps.m, gen: s.gen.m, heap: s.heap.m}
}

// collapse forgets what a transaction did before a step of it failed. dead
// tells the memory nothing can reach any more.
func (s *State) collapse(res []*Term, dead func(*Term) bool) bool {
	m := s.mark
	if m == nil || s.tx == nil || s.tx != m.tx || m.log > len(s.log) {
		return false
	}
	for _, l := range s.loops {
		if l.start > m.log {
			return false // the loop may go on; it still knows where it began
		}
	}
	var failed []*Event
	errs := map[*Term]bool{}
	for _, e := range s.log[m.log:] {
		if !e.Ok {
			failed = append(failed, e)
			if e.Res != nil {
				errs[e.Res] = true
			}
		}
	}
	if len(failed) == 0 {
		return false
	}
	for _, r := range res {
		if r != nil {
			r.any(func(x *Term) bool {
				if x.Op == "errv" {
					errs[x] = true
				}
				return false
			})
		}
	}
	s.log = append(append(s.log[:m.log:m.log], s.log[m.log]), failed...)
	if s.log[m.log] == failed[0] {
		s.log = append(s.log[:m.log:m.log], failed...)
	}
	facts := map[*Term]bool{}
	for f, v := range m.facts {
		facts[f] = v
	}
	for f, v := range s.facts.m {
		if f.any(func(x *Term) bool { return errs[x] }) {
			facts[f] = v
		}
	}
	s.facts = cow[bool]{m: facts, shared: new(bool)}
	for k := range s.heap.m {
		if _, ok := m.heap[k]; !ok && dead(k) {
			s.heap.del(k)
		}
	}
	t := true
	s.ver = cow[*Term]{m: m.ver, shared: &t}
	t2 := true
	s.maps = cow[*mapState]{m: m.maps, shared: &t2}
	return true
}
func (s *State) clone() *State {
	c := *s
	c.heap, c.facts, c.ver, c.maps = s.heap.clone(), s.facts.clone(), s.ver.clone(), s.maps.clone()
	c.locks, c.gen = s.locks.clone(), s.gen.clone()
	c.log = s.log[:len(s.log):len(s.log)]
	c.loops = append([]*loopCtx(nil), s.loops...)
	return &c
}

// key identifies the state for the fixpoint.
func (s *State) key() string {
	var b strings.Builder
	ids := func(name string, n int, f func(add func(string))) {
		var l []string
		f(func(x string) { l = append(l, x) })
		sort.Strings(l)
		b.WriteString(name)
		b.WriteString(strings.Join(l, ","))
	}
	ids("h", 0, func(add func(string)) {
		for k, v := range s.heap.m {
			add(fmt.Sprintf("%d=%d", k.id, v.id))
		}
	})
	ids("f", 0, func(add func(string)) {
		for k, v := range s.facts.m {
			add(fmt.Sprintf("%d=%v", k.id, v))
		}
	})
	ids("v", 0, func(add func(string)) {
		for k, v := range s.ver.m {
			add(fmt.Sprintf("%d=%d", k.id, v.id))
		}
	})
	ids("m", 0, func(add func(string)) {
		for k, v := range s.maps.m {
			x := fmt.Sprintf("%d:", k.id)
			if v.base != nil {
				x += fmt.Sprint(v.base.id)
			}
			for _, w := range v.writes {
				vi := -1
				if w.val != nil {
					vi = w.val.id
				}
				x += fmt.Sprintf(";%d=%d", w.key.id, vi)
			}
			add(x)
		}
	})
	ids("l", 0, func(add func(string)) {
		for k, v := range s.locks.m {
			add(fmt.Sprintf("%d=%s", k.id, v))
		}
	})
	fmt.Fprintf(&b, "e%d", s.epoch.id)
	if s.tx != nil {
		fmt.Fprintf(&b, "t%d", s.tx.id)
	}
	b.WriteString("L")
	for _, e := range s.log {
		b.WriteString(e.key())
		b.WriteByte(';')
	}
	b.WriteString(s.und)
	return b.String()
}

// ---- facts ----

func (s *State) assume(t *Term, val bool) bool {
	if t.Op == "not" {
		return s.assume(t.Args[0], !val)
	}
	if known, v := s.decide(t); known {
		return v == val
	}
	s.facts.set(t, val)
	// two moments: equal, earlier or later
	switch {
	case t.Op == "eq" && (isMoment(t.Args[0]) || isMoment(t.Args[1])):
		x, y := t.Args[0], t.Args[1]
		for _, r := range [][2]*Term{{x, y}, {y, x}} {
			l, back := mkLt(r[0], r[1]), mkLt(r[1], r[0])
			if l.Op != "lt" || back.Op != "lt" {
				continue
			}
			if val {
				s.facts.set(l, false)
			} else if v, ok := s.facts.m[back]; ok && !v {
				s.facts.set(l, true)
			}
		}
	case t.Op == "lt" && val && (isMoment(t.Args[0]) || isMoment(t.Args[1])):
		if l := mkLt(t.Args[1], t.Args[0]); l.Op == "lt" {
			s.facts.set(l, false)
		}
	case t.Op == "lt" && !val && (isMoment(t.Args[0]) || isMoment(t.Args[1])):
		if v, ok := s.facts.m[mkEq(t.Args[0], t.Args[1])]; ok && !v {
			if l := mkLt(t.Args[1], t.Args[0]); l.Op == "lt" {
				s.facts.set(l, true)
			}
		}
	}
	return true
}

// isMoment: a point in time or a time span.
func isMoment(t *Term) bool {
	if t == tNow {
		return true
	}
	if t.Type == nil {
		return t.Op == "lin" && t.any(func(x *Term) bool { return x != t && (x == tNow || x.Op != "lin" && x.Type != nil && isMoment(x)) })
	}
	n := typeStr(t.Type)
	return n == "time.Time" || n == "time.Duration"
}

// known evaluates a predicate under the facts.
func (s *State) decide(t *Term) (bool, bool) { return decideUnder(s.facts.m, t) }

func decideUnder(f map[*Term]bool, t *Term) (known, val bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return true, false
	}
	if t.Op == "not" {
		k, v := decideUnder(f, t.Args[0])
		return k, !v
	}
	if v, ok := f[t]; ok {
		return true, v
	}
	switch t.Op {
	case "has":
		if isIDs(t.Args[0]) && axiomUser(f, t) || isTokens(t.Args[0]) && axiomStored(t) {
			return true, true
		}
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if a == tNil || b == tNil {
			x := a
			if a == tNil {
				x = b
			}
			if nonNil(x) {
				return true, false
			}
			// x equal to something non-nil
			for k, v := range f {
				if v && k.Op == "eq" {
					if k.Args[0] == x && nonNil(k.Args[1]) || k.Args[1] == x && nonNil(k.Args[0]) {
						return true, false
					}
				}
			}
			// an empty sequence test on x: len(x) != 0 implies x != nil
			if v, ok := f[mkEq(mkLen(x), mkInt(0))]; ok && !v {
				return true, false
			}
			if k, v := axiomNil(f, x); k {
				return k, v
			}
		}
		if distinctSentinels(a, b) {
			return true, false
		}
		if axiomID(a, b) {
			return true, true
		}
		for i := 0; i < 2; i++ {
			// a is a constant c: look for facts a' == c' of the same b
			if distinctIdentity(a, b) {
				return true, false
			}
			for k, v := range f {
				if !v || k.Op != "eq" {
					continue
				}
				var o *Term
				if k.Args[0] == b {
					o = k.Args[1]
				} else if k.Args[1] == b {
					o = k.Args[0]
				} else {
					continue
				}
				if a.isConst() && o.isConst() && a != o || distinctSentinels(a, o) || a == tNil && nonNil(o) || o == tNil && nonNil(a) {
					return true, false
				}
				// transitivity through one step
				if o != a {
					if e := mkEq(o, a); e != t {
						if v2, ok := f[e]; ok {
							return true, v2
						}
					}
				}
			}
			a, b = b, a
		}
		if c, ok := a.intVal(); ok {
			if c == 0 {
				if k, v := axiomZero(f, b); k {
					return k, v
				}
			}
			return boundEq(f, b, c)
		}
		if c, ok := b.intVal(); ok {
			if c == 0 {
				if k, v := axiomZero(f, a); k {
					return k, v
				}
			}
			return boundEq(f, a, c)
		}
		// x < y or y < x refutes x == y
		if v, ok := f[mkLt(a, b)]; ok && v {
			return true, false
		}
		if v, ok := f[mkLt(b, a)]; ok && v {
			return true, false
		} else if w, ok2 := f[mkLt(a, b)]; ok && ok2 && !w {
			return true, true // neither is less
		}
	case "lt":
		a, b := t.Args[0], t.Args[1]
		same, ok := f[mkEq(a, b)]
		if ok && same {
			return true, false
		}
		if r := mkLt(b, a); r.Op == "lt" {
			if v, ok2 := f[r]; ok2 && v {
				return true, false
			} else if ok && ok2 {
				return true, true // one of them is less
			}
		}
		if c, ok := a.intVal(); ok { // c < b
			lo, hi, hasLo, hasHi := bounds(f, b)
			if hasLo && c < lo {
				return true, true
			}
			if hasHi && c >= hi {
				return true, false
			}
		}
		if c, ok := b.intVal(); ok { // a < c
			lo, hi, hasLo, hasHi := bounds(f, a)
			if hasHi && hi < c {
				return true, true
			}
			if hasLo && lo >= c {
				return true, false
			}
		}
		// x < y when x+k < y is known, etc.: only through shared constants
		for k, v := range f {
			if k.Op != "lt" {
				continue
			}
			// k: p<q (v) ; want a<b. If q-p and b-a differ by a constant.
			l := toLin(b)
			l.addTerm(a, -1)
			l.addTerm(k.Args[1], -1)
			l.addTerm(k.Args[0], 1)
			d := l.term(nil)
			if c, ok := d.intVal(); ok {
				// b-a = (q-p) + c
				if v && c >= 0 {
					return true, true
				}
				if !v && c <= 0 {
					return true, false
				}
			}
		}
	}
	return false, false
}
func boundEq(f map[*Term]bool, x *Term, c int64) (bool, bool) {
	lo, hi, hasLo, hasHi := bounds(f, x)
	if hasLo && c < lo || hasHi && c > hi {
		return true, false
	}
	if hasLo && hasHi && lo == hi && lo == c {
		return true, true
	}
	return false, false
}

// bounds derives integer bounds of x from the facts.
func bounds(f map[*Term]bool, x *Term) (lo, hi int64, hasLo, hasHi bool) {
	return boundsIn(f, x, 1)
}
func boundsIn(f map[*Term]bool, x *Term, depth int) (lo, hi int64, hasLo, hasHi bool) {
	setLo := func(v int64) {
		if !hasLo || v > lo {
			lo, hasLo = v, true
		}
	}
	setHi := func(v int64) {
		if !hasHi || v < hi {
			hi, hasHi = v, true
		}
	}
	off := int64(0)
	base := x
	if x.Op == "lin" && len(x.Args) == 1 && linCoef(x, 0) == 1 {
		base, off = x.Args[0], linConst(x)
	}
	if base.isConst() {
		v, _ := base.intVal()
		return v + off, v + off, true, true
	}
	if nonNegative(base) {
		setLo(0)
		if base.Op == "len" && axiomListed(f, base.Args[0]) {
			setLo(1)
		}
	}
	var ne []int64
	for k, v := range f {
		switch k.Op {
		case "eq":
			if v && depth > 0 { // what it makes with a constant has bounds
				for i, l := range k.Args {
					if l.Op == "lin" && len(l.Args) == 1 && l.Args[0] == base && linCoef(l, 0) == 1 {
						lo, hi, hasLo, hasHi := boundsIn(f, k.Args[1-i], depth-1)
						if hasLo {
							setLo(lo - linConst(l))
						}
						if hasHi {
							setHi(hi - linConst(l))
						}
					}
				}
			}
			if v { // equal to a sum that has bounds of its own
				o := k.Args[0]
				if o == base {
					o = k.Args[1]
				} else if k.Args[1] != base {
					o = nil
				}
				if o != nil && o.Op == "lin" && len(o.Args) == 1 && linCoef(o, 0) == 1 && nonNegative(o.Args[0]) {
					setLo(linConst(o))
					continue
				}
			}
			var c int64
			var ok bool
			if k.Args[0] == base {
				c, ok = k.Args[1].intVal()
			} else if k.Args[1] == base {
				c, ok = k.Args[0].intVal()
			}
			if !ok {
				continue
			}
			if v {
				setLo(c)
				setHi(c)
			} else {
				ne = append(ne, c)
			}
		case "lt":
			if c, ok := k.Args[0].intVal(); ok && k.Args[1] == base {
				if v { // c < x
					setLo(c + 1)
				} else {
					setHi(c)
				}
			} else if c, ok := k.Args[1].intVal(); ok && k.Args[0] == base {
				if v { // x < c
					setHi(c - 1)
				} else {
					setLo(c)
				}
			} else if v && depth > 0 && k.Args[1] == base { // y < x
				if l, _, ok, _ := boundsIn(f, k.Args[0], depth-1); ok {
					setLo(l + 1)
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, c := range ne {
			if hasLo && c == lo {
				lo++
				again = true
			}
			if hasHi && c == hi {
				hi--
				again = true
			}
		}
	}
	return lo + off, hi + off, hasLo, hasHi
}

// nonNil: values that are never nil.
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "fn", "makemap", "makechan", "mkslice", "faddr", "idx", "global", "ele", "s2b", "encoded", "be64", "const", "obj", "errv", "struct":
		return true
	case "iface":
		return true
	case "seq":
		return len(t.Args) > 0 && !seqHasSpread(t) || t.Aux == "made"
	case "load":
		return isSentinel(t)
	case "assert":
		return true // a checked assertion to a concrete stored type
	case "param":
		return t.Aux == "recv" || strings.HasPrefix(t.Aux, "recv ")
	case "call":
		return t.Aux == "errors.New" || t.Aux == "fmt.Errorf"
	}
	return false
}

var sentinelGlobals = map[string]bool{"github.com/go-redis/redis/v8.Nil": true, "github.com/go-redis/redis/v8.ErrClosed": true, "github.com/go-redis/redis/v8.TxFailedErr": true}

// ownPath is the path of the module being analysed.
var ownPath = "github.com/powerpuffpenguin/sessionid."

func isSentinel(t *Term) bool {
	return t.is("load") && t.Args[0].is("global") && sentinelGlobals[t.Args[0].Aux]
}
func distinctSentinels(a, b *Term) bool {
	if foreign(a) && ownSentinel(b) || foreign(b) && ownSentinel(a) {
		return true
	}
	konst := func(t *Term) bool { return t.is("iface") && t.Args[0].isConst() }
	return a != b && (isSentinel(a) && isSentinel(b) || isSentinel(a) && konst(b) || isSentinel(b) && konst(a))
}

// foreign: an error made by the store, a coder or the platform, which knows
// nothing of this module's own error values.
func foreign(t *Term) bool {
	switch t.Op {
	case "errv":
		return !strings.HasPrefix(t.Aux, "(sid") || strings.HasPrefix(t.Aux, "(sid.Coder)")
	case "cmderr":
		return true
	}
	return false
}
func ownSentinel(t *Term) bool {
	return isSentinel(t) && strings.HasPrefix(t.Args[0].Aux, ownPath)
}

// distinctIdentity: two different fresh objects.
func distinctIdentity(a, b *Term) bool {
	if a == b {
		return false
	}
	fresh := func(t *Term) bool {
		switch t.Op {
		case "alloc", "ele", "makemap", "makechan", "mkslice", "obj":
			return true
		}
		return false
	}
	old := func(t *Term) bool { // existed before the operation
		switch t.Op {
		case "param", "load", "lookup", "listfront", "global":
			return true
		}
		return false
	}
	return fresh(a) && fresh(b) || fresh(a) && old(b) && !b.contains(a) || fresh(b) && old(a) && !a.contains(b)
}

func isErrType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}
