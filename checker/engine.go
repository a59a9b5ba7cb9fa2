package main

// The abstract interpreter: a forward, path-sensitive dataflow over the SSA
// form. Every function of the repository is analysed in the context of its
// callers; a path carries the valuation of the tests it took, the versions of
// the memory it read, the lock and transaction typestate, and the ordered
// effects. Loops are analysed to a fixpoint over widened states. Nothing is
// executed and no solver is asked.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn      *ssa.Function
	id      string
	parent  *Frame
	callBlk int // block of the call in the parent
	callPos token.Pos
	depth   int
	round   string // set while a table of steps is gone through
}

type Outcome struct {
	st    *State
	res   []*Term
	panic bool
	pos   token.Pos
	via   *ssa.Return
}

// LoopInfo collects what is known about a loop over all paths.
type LoopInfo struct {
	id      *Term
	fr      *Frame
	head    *ssa.BasicBlock
	over    *Term // sequence or container ranged over, if known
	kind    string
	iters   []*Iter
	seen    map[string]bool
	ends    map[*Term]bool           // what a counter is tested against
	contrib map[*Term]map[*Term]bool // widened value -> values assigned to it at the end of an iteration
	init    map[*Term]map[*Term]bool
	mod     loopMod
}

// loopMod is the memory an iteration of the loop may change.
type loopMod struct {
	heap, maps, ver map[*Term]bool
	phis            map[*ssa.Phi]bool
	n               int
}

func newLoopMod() loopMod {
	return loopMod{heap: map[*Term]bool{}, maps: map[*Term]bool{}, ver: map[*Term]bool{}, phis: map[*ssa.Phi]bool{}}
}
func (m *loopMod) add(s map[*Term]bool, k *Term) {
	if !s[k] {
		s[k] = true
		m.n++
	}
}

// Iter is one analysed iteration of a loop.
type Iter struct {
	n      int
	next   map[*Term]map[*Term]bool // what it leaves in the widened values
	facts  map[*Term]bool
	events []*Event
	idx    *Term
	exit   string // "next", "break", "return"
	key    string
	st     *State
	over   *Term          // what the loop went through on this path
	on     map[*Term]bool // the rounds of the enclosing loops it is in
	last   bool           // the flag that the loop tests is down at its end
}

type Engine struct {
	single    bool // package initialisation: nothing runs beside it
	a         *Program
	opaque    map[string]bool
	rangeSrc  map[*Term]*Term
	loops     map[*Term]*LoopInfo
	frames    map[string]*Frame
	tables    map[*ssa.BasicBlock]bool
	events    []*Event
	evSeen    map[string]bool
	und       map[string]bool
	steps     int
	maxSteps  int
	began     time.Time
	seq       int
	visited   map[*ssa.Function]bool
	paths     int
	noInit    bool
	gos       []*Event
	deadline  bool
	atomic    bool
	cur       ssa.Instruction
	curFr     *Frame
	accesses  map[string]*Access
	riskIn    []*Term
	risks     []*Risk
	riskSites map[string]token.Pos
}

func newEngine(a *Program) *Engine {
	return &Engine{a: a, opaque: map[string]bool{}, rangeSrc: map[*Term]*Term{}, loops: map[*Term]*LoopInfo{},
		frames: map[string]*Frame{}, tables: map[*ssa.BasicBlock]bool{}, evSeen: map[string]bool{}, und: map[string]bool{}, maxSteps: 6000000, began: time.Now(), visited: map[*ssa.Function]bool{}, accesses: map[string]*Access{}}
}

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}
type loopSt struct {
	end    *Term // the length a counter is tested against
	phase  int
	facts0 map[*Term]bool
	vals   map[*ssa.Phi]map[*Term]bool
	n      int
	heap0  map[*Term]*Term
	maps0  map[*Term]*mapState
	ver0   map[*Term]*Term
	phis   map[*ssa.Phi]*Term
	wide   bool
	wcount map[*ssa.Phi]bool // counters symbolic from the start
	stay   bool              // the test in the head is known to go round again
	table  bool              // every round is followed on its own
	outer  string            // the round of the loops around it
}
type item struct {
	round string // the rounds of the tables being gone through

	blk    *ssa.BasicBlock
	idx    int
	prev   *ssa.BasicBlock
	also   *item // the other way on from the block just left
	env    map[ssa.Value]*Term
	shared bool
	st     *State
	defers []deferred
	loops  map[int]*loopSt
	tuple  map[ssa.Value][]*Term
}

func (it *item) set(v ssa.Value, t *Term) {
	if it.shared {
		m := make(map[ssa.Value]*Term, len(it.env)+1)
		for k, x := range it.env {
			m[k] = x
		}
		it.env, it.shared = m, false
	}
	it.env[v] = t
}
func (it *item) fork() *item {
	c := *it
	it.shared, c.shared = true, true
	c.st = it.st.clone()
	c.defers = it.defers[:len(it.defers):len(it.defers)]
	c.loops = map[int]*loopSt{}
	for k, v := range it.loops {
		x := *v
		c.loops[k] = &x
	}
	return &c
}

func (en *Engine) undecided(st *State, why string) {
	en.und[why] = true
	st.und = why
}

func siteStr(fr *Frame, instr ssa.Instruction) string {
	b := instr.Block()
	for i, x := range b.Instrs {
		if x == instr {
			return fmt.Sprintf("%s.%d.%d%s", fr.id, b.Index, i, fr.round)
		}
	}
	return fr.id + ".?"
}

// gen makes the term of a value created at a site, ageing an older one of the
// same site only at loop back edges.
func (en *Engine) gen(st *State, fr *Frame, instr ssa.Instruction, op, tag string, typ types.Type, args ...*Term) *Term {
	t := mk(op, tag+"@"+siteStr(fr, instr), typ, args...)
	st.gen.set(t, genRec{fr, instr.Block().Index})
	return t
}

func (en *Engine) frame(parent *Frame, fn *ssa.Function, instr ssa.Instruction, tag string) *Frame {
	id := uniqueFn(fn)
	blk := 0
	var pos token.Pos
	if parent != nil {
		id = siteStr(parent, instr) + tag + ">" + shortFn(fn)
		blk = instr.Block().Index
		pos = instr.Pos()
	}
	if f := en.frames[id]; f != nil {
		return f
	}
	f := &Frame{fn: fn, id: id, parent: parent, callBlk: blk, callPos: pos}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	en.frames[id] = f
	return f
}
func shortFn(fn *ssa.Function) string { return fn.Name() }

// uniqueFn names a function so that sites of different functions never coincide.
func uniqueFn(fn *ssa.Function) string {
	n := shortName(fn.String())
	return strings.Map(func(r rune) rune {
		switch r {
		case '(', ')', '*':
			return -1
		case '.', '/':
			return '_'
		}
		return r
	}, n)
}

func (en *Engine) emit(st *State, fr *Frame, pos token.Pos, op string, ok bool, res *Term, args ...*Term) *Event {
	en.seq++
	st.facts.shared2()
	var loops []*Term
	for _, l := range st.loops {
		loops = append(loops, l.id)
	}
	e := &Event{Op: op, Args: args, Res: res, Ok: ok, Pos: pos, Facts: st.facts.m, Locks: copyStr(st.locks.m), Epoch: st.epoch, Tx: st.tx, Loop: loops, seq: en.seq}
	e.Chain = en.chain(fr)
	st.log = append(st.log[:len(st.log):len(st.log)], e)
	for i, l := range st.loops {
		c := *l
		c.events = append(c.events[:len(c.events):len(c.events)], e)
		st.loops[i] = &c
	}
	en.events = append(en.events, e)
	return e
}
func (c *cow[V]) shared2() { *c.shared = true }
func copyStr(m map[*Term]string) map[*Term]string {
	if len(m) == 0 {
		return nil
	}
	r := map[*Term]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}
func (en *Engine) chain(fr *Frame) string {
	var s []string
	for f := fr; f != nil; f = f.parent {
		s = append([]string{f.fn.Name()}, s...)
	}
	return strings.Join(s, ">")
}

// ---- natural loops ----

func (a *Program) loopBlocks(h *ssa.BasicBlock) map[int]bool {
	key := h
	if l, ok := a.natLoops[key]; ok {
		return l
	}
	body := map[int]bool{h.Index: true}
	var st []*ssa.BasicBlock
	found := false
	for _, p := range h.Preds {
		if h.Dominates(p) {
			found = true
			if !body[p.Index] {
				body[p.Index] = true
				st = append(st, p)
			}
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range b.Preds {
			if !body[p.Index] {
				body[p.Index] = true
				st = append(st, p)
			}
		}
	}
	if !found {
		body = nil
	}
	a.natLoops[key] = body
	return body
}

// ---- interpretation of one function in one calling context ----

func (en *Engine) exec(fr *Frame, args []*Term, bindings []*Term, st *State) []Outcome {
	if !en.a.hasLoop(fr.fn) {
		return en.exec1(fr, args, bindings, st)
	}
	// repeat until the memory the loops of the function change is known
	for round := 0; ; round++ {
		n0, ev0, go0, it0 := en.modCount(fr), len(en.events), len(en.gos), map[*LoopInfo]int{}
		for _, li := range en.loops {
			it0[li] = len(li.iters)
		}
		s := st
		if round < 6 {
			s = st.clone()
		}
		outs := en.exec1(fr, args, bindings, s)
		if en.modCount(fr) == n0 || round >= 6 || en.steps > en.maxSteps {
			return outs
		}
		en.events, en.gos = en.events[:ev0:ev0], en.gos[:go0:go0]
		for _, li := range en.loops {
			if len(li.iters) > it0[li] {
				li.iters = li.iters[:it0[li]:it0[li]]
				li.seen = map[string]bool{}
				for _, it := range li.iters {
					li.seen[it.key] = true
				}
			}
		}
	}
}

var tDead = mk("dead", "", nil)

// deadPhi: a phi only other such phis use.
func (a *Program) deadPhi(p *ssa.Phi) bool {
	if d, ok := a.deadPhis[p]; ok {
		return d
	}
	seen := map[*ssa.Phi]bool{p: true}
	work := []*ssa.Phi{p}
	dead := true
	for len(work) > 0 && dead {
		q := work[len(work)-1]
		work = work[:len(work)-1]
		for _, r := range *q.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				if !seen[x] {
					seen[x] = true
					work = append(work, x)
				}
			default:
				dead = false
			}
		}
	}
	a.deadPhis[p] = dead
	return dead
}

func (a *Program) hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if a.loopBlocks(b) != nil {
			return true
		}
	}
	return false
}

// modCount sums the sizes of what the loops of a frame change.
func (en *Engine) modCount(fr *Frame) int {
	n := 0
	for _, li := range en.loops {
		if li.fr == fr {
			n += li.mod.n
		}
	}
	return n
}

func (en *Engine) exec1(fr *Frame, args []*Term, bindings []*Term, st *State) []Outcome {
	fn := fr.fn
	for f := fr.parent; f != nil; f = f.parent {
		if f.fn == fn {
			en.undecided(st, "recursive call of "+fn.String())
			return []Outcome{{st: st, res: opaqueResults(fr, fn.Signature)}}
		}
	}
	if fr.depth > 40 {
		en.undecided(st, "call depth at "+fn.String())
		return []Outcome{{st: st, res: opaqueResults(fr, fn.Signature)}}
	}
	en.visited[fn] = true
	it := &item{blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, st: st, loops: map[int]*loopSt{}}
	for i, p := range fn.Params {
		it.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(bindings) {
			it.env[f] = bindings[i]
		} else {
			it.env[f] = mk("freevar", f.Name(), f.Type())
		}
	}
	depth0 := len(st.loops)
	var outs []Outcome
	seenOut := map[string]bool{}
	seenHead := map[string]bool{}
	work := []*item{it}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for it != nil {
			en.steps++
			if en.steps&255 == 0 && time.Since(en.began) > 150*time.Second {
				en.steps = en.maxSteps
			}
			if en.steps > en.maxSteps {
				en.und["step budget exhausted in "+fn.String()] = true
				return outs
			}
			if it.idx >= len(it.blk.Instrs) {
				break
			}
			instr := it.blk.Instrs[it.idx]
			en.cur, en.curFr = instr, fr
			fr.round = it.round
			if o := it.also; o != nil {
				it.also = nil
				work = append(work, o)
			}
			switch x := instr.(type) {
			case *ssa.Jump:
				it = en.enter(fr, it, it.blk.Succs[0], seenHead)
				continue
			case *ssa.If:
				c := en.val(it, x.Cond)
				if ls := it.loops[it.blk.Index]; ls != nil && ls.stay {
					y := *ls
					y.stay = false
					it.loops[it.blk.Index] = &y
					if !it.st.assume(c, en.staysOn(it.blk)) {
						it = nil
						continue
					}
				}
				known, v := it.st.decide(c)
				if known {
					i := 1
					if v {
						i = 0
					}
					it = en.enter(fr, it, it.blk.Succs[i], seenHead)
					continue
				}
				o := it.fork()
				if o.st.assume(c, false) {
					if n := en.stopsAt(fr, it); n != nil {
						o.st.facts.set(n, false)
					}
					if n := en.enter(fr, o, o.blk.Succs[1], seenHead); n != nil {
						work = append(work, n)
					}
				}
				if it.st.assume(c, true) {
					if n := en.stopsAt(fr, it); n != nil && c.Op != "lt" {
						it.st.facts.set(n, false)
					}
					it = en.enter(fr, it, it.blk.Succs[0], seenHead)
				} else {
					it = nil
				}
				continue
			case *ssa.Return:
				var res []*Term
				for _, r := range x.Results {
					res = append(res, en.val(it, r))
				}
				en.endLoops(it.st, depth0, "return")
				k := ""
				for _, r := range res {
					k += fmt.Sprintf("%d,", r.id)
				}
				k += fmt.Sprint(siteStr(fr, x)) + it.st.key()
				if !seenOut[k] {
					seenOut[k] = true
					outs = append(outs, Outcome{st: it.st, res: res, pos: x.Pos(), via: x})
				}
				it = nil
				continue
			case *ssa.Panic:
				v := en.val(it, x.X)
				en.emit(it.st, fr, x.Pos(), "panic", true, nil, v)
				outs = append(outs, Outcome{st: it.st, panic: true, pos: x.Pos()})
				it = nil
				continue
			case *ssa.RunDefers:
				if len(it.defers) == 0 {
					it.idx++
					continue
				}
				d := it.defers[len(it.defers)-1]
				it.defers = it.defers[:len(it.defers)-1]
				os := en.call(it.st, fr, d.call, &d.call.Call, d.fn, d.args)
				for i, o := range os {
					if o.panic {
						continue
					}
					n := it
					if i < len(os)-1 {
						n = it.fork()
					}
					n.st = o.st
					if i < len(os)-1 {
						work = append(work, n)
					}
				}
				if len(os) == 0 || os[len(os)-1].panic {
					it = nil
				}
				continue
			case *ssa.Defer:
				f, as := en.callee(it, &x.Call)
				it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferred{x, f, as})
				it.idx++
				continue
			case *ssa.Go:
				f, as := en.callee(it, &x.Call)
				e := en.emit(it.st, fr, x.Pos(), "go", true, nil, append([]*Term{f}, as...)...)
				en.gos = append(en.gos, e)
				it.idx++
				continue
			case *ssa.Call:
				f, as := en.callee(it, &x.Call)
				os := en.call(it.st, fr, x, &x.Call, f, as)
				var live []Outcome
				for _, o := range os {
					if o.panic {
						outs = append(outs, o)
					} else {
						live = append(live, o)
					}
				}
				base := it
				for i := len(live) - 1; i >= 0; i-- {
					n := base
					if i > 0 {
						n = base.fork()
					}
					n.st = live[i].st
					if tup, ok := x.Type().(*types.Tuple); ok && tup.Len() != 1 {
						n.set(x, mk("tuple", "", nil, live[i].res...))
					} else if len(live[i].res) > 0 {
						n.set(x, live[i].res[0])
					}
					n.idx++
					if i > 0 {
						work = append(work, n)
					}
				}
				if len(live) == 0 {
					it = nil
				}
				continue
			case *ssa.Select:
				ns := en.doSelect(fr, it, x)
				for _, n := range ns[1:] {
					work = append(work, n)
				}
				it = ns[0]
				continue
			case *ssa.Next:
				n := en.doNext(fr, it, x)
				if n != nil {
					work = append(work, n)
				}
				it.idx++
				continue
			case *ssa.TypeAssert:
				if n := en.doAssert(fr, it, x); n != nil {
					n.idx++
					work = append(work, n)
				}
				it.idx++
				continue
			}
			en.step(fr, it, instr)
			it.idx++
		}
	}
	return outs
}

func opaqueResults(fr *Frame, sig *types.Signature) []*Term {
	var r []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, mk("opaque", fmt.Sprintf("%s#%d", fr.id, i), sig.Results().At(i).Type()))
	}
	return r
}

// endLoops closes the iterations of loops left through a return.
func (en *Engine) endLoops(st *State, depth int, how string) {
	for len(st.loops) > depth {
		l := st.loops[len(st.loops)-1]
		en.addIter(st, l, how)
		st.loops = st.loops[:len(st.loops)-1]
	}
}
func (en *Engine) addIter(st *State, l *loopCtx, how string) *Iter {
	li := en.loops[l.id]
	if li == nil {
		return nil
	}
	st.facts.shared2()
	it := &Iter{n: l.n, facts: st.facts.m, events: l.events, exit: how, over: l.over, last: l.last}
	k := how + fmt.Sprint(l.n, l.last)
	if l.over != nil {
		k += fmt.Sprint(l.over.id, ";")
	}
	for _, e := range l.events {
		k += e.key() + ";"
	}
	var fs []string
	for f, v := range st.facts.m {
		fs = append(fs, fmt.Sprintf("%d=%v", f.id, v))
	}
	sort.Strings(fs)
	k += strings.Join(fs, ",")
	on := map[*Term]bool{}
	for _, o := range st.loops {
		if o == l || o.id == l.id {
			break
		}
		on[mk("round", "", nil, o.id, mkInt(int64(o.n)))] = true
	}
	if li.seen[k] {
		for _, x := range li.iters {
			if x.key == k {
				for t := range on {
					x.on[t] = true
				}
				return x
			}
		}
		return nil
	}
	li.seen[k] = true
	it.key = k
	it.st = st.clone()
	it.next = map[*Term]map[*Term]bool{}
	it.on = on
	li.iters = append(li.iters, it)
	return it
}

// within: an iteration of an inner loop happens in iteration o of loop li.
func (it *Iter) within(li *LoopInfo, o *Iter) bool {
	return it.on[mk("round", "", nil, li.id, mkInt(int64(o.n)))]
}

// madeIn: value t was made within the given blocks of a frame, as far as can be
// told.
func madeIn(t *Term, fr *Frame, body map[int]bool) bool {
	i := strings.LastIndexByte(t.Aux, '@')
	if i < 0 && t.Op != "W" {
		return true
	}
	s := t.Aux[i+1:]
	if !strings.HasPrefix(s, fr.id+".") {
		return false
	}
	n := 0
	for _, c := range s[len(fr.id)+1:] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
	}
	return body[n]
}

// neverEntered: a loop left at its first test; its counters have their first
// values. It gives false if that cannot be.
func (en *Engine) neverEntered(it *item, li *LoopInfo, over *Term) bool {
	ls := it.loops[li.head.Index]
	if li.kind == "maprange" && over != nil && !it.st.assume(mkEq(mkLen(over), mkInt(0)), true) {
		return false
	}
	if li.kind == "maprange" && over != nil {
		// what has just been put into a map is there
		if ms := it.st.maps.m[over]; ms != nil {
			for i, w := range ms.writes {
				gone := w.del
				for _, x := range ms.writes[i+1:] {
					gone = gone || x.del
				}
				if !gone {
					return false
				}
			}
		}
		if !it.st.assume(mkEq(en.mapLen(it.st, over), mkInt(0)), true) {
			return false
		}
	}
	if ls == nil {
		return true
	}
	m := map[*Term]*Term{}
	for p := range ls.wcount {
		if init, _, ok := en.counter(p, li.head); ok && ls.phis[p].Op == "W" {
			m[ls.phis[p]] = mkInt(init)
		}
	}
	if len(m) == 0 {
		return true
	}
	sb := newSubst(m)
	var fs []*Term
	for f := range it.st.facts.m {
		if sb.do(f) != f {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	for _, f := range fs {
		if !it.st.assume(sb.do(f), it.st.facts.m[f]) {
			return false
		}
	}
	return true
}

// enter moves to a successor block, handling loop heads.
func (en *Engine) enter(fr *Frame, it *item, to *ssa.BasicBlock, seen map[string]bool) *item {
	from := it.blk
	for h, ls := range it.loops {
		if ls.table && !en.a.loopBlocks(fr.fn.Blocks[h])[to.Index] {
			if len(ls.outer) < len(it.round) {
				it.round = ls.outer
			}
			delete(it.loops, h)
		}
	}
	// leaving loops?
	for len(it.st.loops) > 0 {
		l := it.st.loops[len(it.st.loops)-1]
		li := en.loops[l.id]
		if li == nil || li.fr != fr || en.a.loopBlocks(li.head)[to.Index] {
			break
		}
		how := "break"
		if from == li.head {
			how = "done"
		}
		if how == "break" {
			en.addIter(it.st, l, "break")
		}
		it.st.loops = it.st.loops[:len(it.st.loops)-1]
		if how == "done" && l.n == 0 && !en.neverEntered(it, li, l.over) {
			return nil
		}
		op := "loop." + how
		ov := l.over
		if ov == nil {
			ov = tNil
		}
		n := l.n
		if n > 1 {
			n = 1
		}
		en.emit(it.st, fr, token.NoPos, op, true, nil, li.id, ov, mkInt(int64(n)))
		delete(it.loops, li.head.Index)
	}
	body := en.a.loopBlocks(to)
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	vals := map[*ssa.Phi]*Term{}
	for _, ins := range to.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
			if en.a.deadPhi(p) {
				vals[p] = tDead
			} else {
				vals[p] = en.val(it, p.Edges[pi])
			}
		} else {
			break
		}
	}
	it.prev, it.blk = from, to
	it.idx = len(phis)
	if body == nil {
		for p, v := range vals {
			it.set(p, v)
		}
		return it
	}
	if ls := it.loops[to.Index]; ls != nil && ls.table || en.tabled(to) || ls == nil && en.short(fr, it, to, vals) {
		// a table of steps: its rounds are followed one by one
		back := body[from.Index] && ls != nil && ls.table
		if !back {
			ls = &loopSt{table: true, outer: it.round}
		}
		if (back || it.loops[to.Index] == nil) && ls.n <= 64 && en.constTest(fr, it, to, vals) {
			x := *ls
			x.n++
			it.loops[to.Index] = &x
			it.round = fmt.Sprintf("%s#%d.%d", x.outer, to.Index, x.n)
			for p, v := range vals {
				it.set(p, v)
			}
			return it
		}
		if back {
			en.undecided(it.st, "rounds of "+fr.fn.String())
			return nil
		}
	}
	hid := mk("loop", fmt.Sprintf("%s.%d%s", fr.id, to.Index, fr.round), nil)
	li := en.loops[hid]
	if li == nil {
		li = &LoopInfo{id: hid, fr: fr, head: to, mod: newLoopMod(), seen: map[string]bool{}, contrib: map[*Term]map[*Term]bool{}, init: map[*Term]map[*Term]bool{}}
		en.loops[hid] = li
	}
	ls := it.loops[to.Index]
	back := body[from.Index] && ls != nil && to.Dominates(from)
	if !back {
		ls = &loopSt{heap0: it.st.heap.m, maps0: it.st.maps.m, ver0: it.st.ver.m, phis: map[*ssa.Phi]*Term{}, wcount: map[*ssa.Phi]bool{}}
		it.st.heap.shared2()
		it.st.maps.shared2()
		it.st.ver.shared2()
		ls.vals = map[*ssa.Phi]map[*Term]bool{}
		for _, p := range phis {
			v := vals[p]
			if init, _, ok := en.counter(p, to); ok && v.isInt(init) && !en.counterTested(p, body) && !en.constTest(fr, it, to, vals) {
				v = mk("W", fmt.Sprintf("%s.%d%s.phi:%s%s", fr.id, to.Index, fr.round, p.Comment, p.Name()), nil)
				v.Type = p.Type()
				if li.init[v] == nil {
					li.init[v] = map[*Term]bool{}
					li.contrib[v] = map[*Term]bool{}
				}
				li.init[v][vals[p]] = true
				it.st.facts.set(mkLt(v, mkInt(init)), false)
				ls.wcount[p] = true
			}
			it.set(p, v)
			ls.phis[p] = v
			ls.vals[p] = map[*Term]bool{v: true}
		}
		it.loops[to.Index] = ls
		it.st.facts.shared2()
		ls.facts0 = it.st.facts.m
		ctx := &loopCtx{id: hid, facts0: it.st.facts.m, start: len(it.st.log)}
		for _, o := range it.st.loops {
			ctx.outer = append(ctx.outer, len(o.events))
		}
		it.st.loops = append(it.st.loops, ctx)
		li.over = nil
		en.describeLoop(fr, it, li)
		ctx.over = li.over
		return it
	}
	// end of an iteration; leave inner loop contexts first
	for len(it.st.loops) > 0 && it.st.loops[len(it.st.loops)-1].id != hid {
		it.st.loops = it.st.loops[:len(it.st.loops)-1]
	}
	if len(it.st.loops) == 0 {
		en.undecided(it.st, "loop nesting in "+fr.fn.String())
		return nil
	}
	l := it.st.loops[len(it.st.loops)-1]
	leaves := en.flagDown(to, vals) || en.errStops(it.st, to, vals)
	stay := false
	var also *item
	if c := en.errTest(fr, it, to, vals); c != nil {
		// whether the loop ends depends on how this iteration failed
		on := en.staysOn(to)
		if known, v := it.st.decide(c); known {
			leaves, stay = v != on, v == on
		} else {
			o := it.fork()
			ok := o.st.assume(c, !on)
			if !it.st.assume(c, on) {
				it, ok = o, ok
				leaves = true
				if !ok {
					return nil
				}
			} else {
				stay = true
				if ok {
					also = o
				}
			}
		}
	}
	if also != nil {
		l := also.st.loops[len(also.st.loops)-1]
		c := *l
		c.last = true
		en.addIter(also.st, &c, "next")
		c.last = false
		x := *ls
		x.n++
		also.loops[to.Index] = &x
		for p, v := range vals {
			also.set(p, v)
		}
		c.n = x.n
		also.st.loops[len(also.st.loops)-1] = &c
		it.also = also
	}
	l.last = leaves
	done := en.addIter(it.st, l, "next")
	l.last = false
	ls.n++
	x := *ls
	ls = &x
	ls.stay = stay
	it.loops[to.Index] = ls
	if leaves {
		// the path keeps what its last iteration did
		for p, v := range vals {
			it.set(p, v)
		}
		c := *l
		c.n = ls.n
		it.st.loops[len(it.st.loops)-1] = &c
		return it
	}
	// unroll while the loop test is decided by constants
	if !ls.wide && ls.n <= 64 {
		if en.constTest(fr, it, to, vals) {
			en.age(fr, it, to, vals, nil)
			for _, p := range phis {
				it.set(p, vals[p])
				np := map[*ssa.Phi]*Term{}
				for k, v := range ls.phis {
					np[k] = v
				}
				np[p] = vals[p]
				ls.phis = np
			}
			it.st.facts.shared2()
			it.st.loops[len(it.st.loops)-1] = &loopCtx{id: hid, n: ls.n, facts0: it.st.facts.m, start: l.start, outer: l.outer, over: l.over}
			return it
		}
	}
	ls.wide = true
	ls.phase++
	// the iterations are summarised in the loop; the path forgets them
	st := it.st
	st.log = st.log[:l.start:l.start]
	for i, o := range st.loops[:len(st.loops)-1] {
		c := *o
		n := l.outer[i]
		c.events = c.events[:n:n]
		st.loops[i] = &c
	}
	// widen
	rebound := map[*Term]bool{}
	np := map[*ssa.Phi]*Term{}
	wname := func(k string) *Term { return mk("W", fr.id+"."+fmt.Sprint(to.Index)+fr.round+"."+k, nil) }
	sb0 := newSubst(en.ageMap(fr, st, to))
	sb0.age = true
	var seenVals map[*Term]bool
	forced := false
	widenVal := func(w *Term, ov, nv *Term, typ types.Type) *Term {
		if !forced && (ov == nv || ov == sb0.do(nv)) {
			return nv
		}
		grow := isIntType(typ) || nv.contains(ov) && ov.Op != "nil" && !ov.isConst() || nv.Op == "seq" || ov.Op == "seq" || nv.Op == "cat" || ov == w
		if !grow && !forced {
			if seenVals == nil && ls.phase < 3 {
				return nv
			}
			if seenVals != nil && (seenVals[sb0.do(nv)] || len(seenVals) < 4) {
				seenVals[sb0.do(nv)] = true
				return nv
			}
		}
		if w.Type == nil {
			w.Type = typ
		}
		if li.init[w] == nil {
			li.init[w] = map[*Term]bool{}
			li.contrib[w] = map[*Term]bool{}
		}
		if ov != w {
			li.init[w][ov] = true
		}
		li.contrib[w][nv] = true
		if done != nil {
			if done.next[w] == nil {
				done.next[w] = map[*Term]bool{}
			}
			done.next[w][nv] = true
		}
		rebound[w] = true
		return w
	}
	for _, p := range phis {
		if x := ls.vals[p]; x != nil {
			seenVals = map[*Term]bool{}
			for k := range x {
				seenVals[k] = true
			}
		}
		w := wname("phi:" + p.Comment + p.Name())
		forced = li.mod.phis[p]
		np[p] = widenVal(w, ls.phis[p], vals[p], p.Type())
		forced = false
		if np[p] == w && !li.mod.phis[p] {
			li.mod.phis[p] = true
			li.mod.n++
		}
		if seenVals != nil {
			nvs := map[*ssa.Phi]map[*Term]bool{}
			for k, v := range ls.vals {
				nvs[k] = v
			}
			nvs[p] = seenVals
			ls.vals = nvs
			seenVals = nil
		}
	}
	// memory changed by the iterations
	inside := func(k *Term) bool {
		return sb0.do(k) != k || k.any(func(x *Term) bool { return x.Op == "old" && madeIn(x.Args[0], fr, body) })
	}
	heapW := map[*Term]*Term{}
	for k, v := range st.heap.m {
		ov, ok := ls.heap0[k]
		if ok && ov == v && !li.mod.heap[k] {
			continue
		}
		if !ok {
			ov = tNil
			if isIntType(v.Type) {
				ov = mkInt(0)
			}
		}
		forced = li.mod.heap[k]
		w := wname(fmt.Sprintf("heap:%d", k.id))
		nv := widenVal(w, ov, v, v.Type)
		forced = false
		if nv != v {
			heapW[k] = nv
		}
		if nv == w && !inside(k) {
			li.mod.add(li.mod.heap, k)
		}
	}
	mapW := map[*Term]*Term{}
	for k, v := range st.maps.m {
		if ls.maps0[k] != v && !inside(k) {
			li.mod.add(li.mod.maps, k)
		}
	}
	for k, v := range st.maps.m {
		// a map of an earlier iteration that this one writes to
		if k.Op == "old" && inside(k) && ls.maps0[k] != nil && ls.maps0[k] != v {
			w := wname(fmt.Sprintf("map:%d", k.id))
			mapW[k] = w
			rebound[w] = true
		}
	}
	for k := range li.mod.maps {
		w := wname(fmt.Sprintf("map:%d", k.id))
		mapW[k] = w
		rebound[w] = true
	}
	verW := map[*Term]*Term{}
	for k, v := range st.ver.m {
		if ls.ver0[k] != v && !inside(k) {
			li.mod.add(li.mod.ver, k)
		}
	}
	for k := range li.mod.ver {
		w := wname(fmt.Sprintf("ver:%d", k.id))
		verW[k] = w
		rebound[w] = true
	}
	// what is known of an error carried on
	told := map[*Term]bool{}
	for _, p := range phis {
		w := np[p]
		if w.Op != "W" || !rebound[w] || typeStr(p.Type()) != "error" {
			continue
		}
		about := func(x *Term) {
			if known, v := st.decide(mkEq(vals[p], x)); known {
				told[mkEq(w, x)] = v
			}
		}
		about(tNil)
		for f := range st.facts.m {
			if f.Op != "eq" {
				continue
			}
			for j := 0; j < 2; j++ {
				if f.Args[j] == vals[p] && f.Args[1-j].Op == "load" && f.Args[1-j].Args[0].Op == "global" {
					about(f.Args[1-j])
				}
			}
		}
	}
	ls.phis = np
	en.age(fr, it, to, np, rebound)
	for _, p := range phis {
		it.set(p, np[p])
	}
	for k, w := range heapW {
		if _, ok := st.heap.m[k]; ok {
			st.heap.set(k, w)
		}
	}
	for k, w := range mapW {
		if m := st.maps.m[k]; m == nil || m.base != w || len(m.writes) > 0 {
			st.maps.set(k, &mapState{base: w})
		}
	}
	for k, w := range verW {
		st.ver.set(k, w)
	}
	ls.heap0, ls.maps0, ls.ver0 = st.heap.m, st.maps.m, st.ver.m
	st.heap.shared2()
	st.maps.shared2()
	st.ver.shared2()
	// what a single iteration found out is forgotten unless it is about a value
	// the loop carries on
	live := map[*Term]bool{}
	for _, v := range np {
		v.any(func(x *Term) bool {
			if x.Op == "old" {
				live[x] = true
			}
			return false
		})
	}
	first := false // the loop tells its first round apart
	if ls.n == 1 {
		for _, p := range phis {
			if _, _, ok := en.counter(p, to); ok && en.counterTested(p, body) {
				first = true
			}
		}
	}
	for f, v := range st.facts.m {
		if v0, ok := ls.facts0[f]; ok && v0 == v {
			continue
		}
		if first && !f.any(func(x *Term) bool { return x.Op == "old" || x.Op == "W" || x.Op == "mkey" || x.Op == "ckey" }) {
			continue
		}
		if !f.any(func(x *Term) bool { return live[x] }) {
			st.facts.del(f)
		}
	}
	if first {
		st.facts.shared2()
		ls.facts0 = st.facts.m
	}
	for f, v := range told {
		st.facts.set(f, v)
	}
	// counters only grow
	for _, p := range phis {
		if lo, step, ok := en.counter(p, to); ok && np[p].Op == "W" {
			if !ls.wcount[p] {
				lo += step
			}
			st.facts.set(mkLt(np[p], mkInt(lo)), false)
		}
	}
	// drop registers of the loop body
	env := map[ssa.Value]*Term{}
	for v, t := range it.env {
		if ins, ok := v.(ssa.Instruction); ok && ins.Parent() == fr.fn && body[ins.Block().Index] {
			if p, ok := v.(*ssa.Phi); !ok || p.Block() != to {
				continue
			}
		}
		env[v] = t
	}
	it.env, it.shared = env, false
	var roots []*Term
	for _, t := range env {
		roots = append(roots, t)
	}
	for _, d := range it.defers {
		roots = append(append(roots, d.fn), d.args...)
	}
	st.gc(roots, func(k *Term) bool { return k.any(func(x *Term) bool { return x.Op == "old" }) })
	st.loops[len(st.loops)-1] = &loopCtx{id: hid, n: ls.n, facts0: st.facts.m, start: l.start, outer: l.outer, over: l.over}
	st.facts.shared2()
	if ls.n > 100 {
		en.undecided(st, "loop in "+fr.fn.String()+" did not stabilise")
		return nil
	}
	k := fmt.Sprintf("%d;", to.Index) + st.key()
	var ek []string
	for v, t := range env {
		ek = append(ek, fmt.Sprintf("%s=%d", v.Name(), t.id))
	}
	sort.Strings(ek)
	k += strings.Join(ek, ",")
	for _, d := range it.defers {
		k += siteStr(fr, d.call)
	}
	if seen[k] {
		return nil
	}
	seen[k] = true
	if debugLoops != "" && strings.Contains(fr.id, debugLoops) {
		fmt.Printf("LOOP %s.%d n=%d phase=%d\n", fr.id, to.Index, ls.n, ls.phase)
		st.print(en.a, "   ")
		for v, t := range env {
			if ins, ok := v.(ssa.Instruction); ok && body[ins.Block().Index] {
				fmt.Println("    reg", v.Name(), t)
			}
		}
	}
	return it
}

var debugLoops = os.Getenv("SID_LOOPS")

func (st *State) print(a *Program, ind string) {
	var fs []string
	for f, v := range st.facts.m {
		s := f.String()
		if !v {
			s = "!(" + s + ")"
		}
		fs = append(fs, "fact "+s)
	}
	for k, v := range st.heap.m {
		fs = append(fs, "heap "+k.String()+" = "+v.String())
	}
	for k, v := range st.ver.m {
		fs = append(fs, "ver "+k.String()+" = "+v.String())
	}
	for k, v := range st.maps.m {
		s := "map " + k.String() + " ="
		if v.base != nil {
			s += " base " + v.base.String()
		}
		for _, w := range v.writes {
			s += " [" + w.key.String() + "]=" + w.val.String() + " at " + w.site.String()
		}
		fs = append(fs, s)
	}
	sort.Strings(fs)
	for _, f := range fs {
		fmt.Println(ind, f)
	}
	for _, e := range st.log {
		fmt.Printf("%s ev %s %s\n", ind, a.pos(e.Pos), e)
	}
}

// counter: a phi that starts at a constant and only grows by constants; its
// initial value and smallest step.
func (en *Engine) counter(p *ssa.Phi, h *ssa.BasicBlock) (lo, step int64, ok bool) {
	have := false
	step = 1 << 40
	for i, e := range p.Edges {
		if h.Dominates(h.Preds[i]) {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != p {
				return 0, 0, false
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return 0, 0, false
			}
			v, _ := constant.Int64Val(c.Value)
			if v <= 0 {
				return 0, 0, false
			}
			if v < step {
				step = v
			}
		} else {
			c, ok := e.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return 0, 0, false
			}
			v, _ := constant.Int64Val(c.Value)
			if !have || v < lo {
				lo, have = v, true
			}
		}
	}
	return lo, step, have
}

// stopsAt: a counter from 0 that goes up by one while it is less than the
// length of something that stays the same ends as this length.
func (en *Engine) stopsAt(fr *Frame, it *item) *Term {
	h := it.blk
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || it.loops[h.Index] == nil {
		return nil
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS && b.Op != token.NEQ {
		return nil
	}
	call, ok := b.Y.(*ssa.Call)
	if !ok {
		return nil
	}
	if f, ok := call.Call.Value.(*ssa.Builtin); !ok || f.Name() != "len" {
		return nil
	}
	n := it.env[call]
	if n == nil {
		return nil
	}
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if p != b.X {
			continue
		}
		w := it.env[p]
		lo, _, ok := en.counter(p, h)
		if !ok || lo != 0 {
			return nil
		}
		for i, e := range p.Edges {
			if !h.Dominates(h.Preds[i]) {
				if v, ok := e.(*ssa.Const); !ok || !isZeroConst(v) {
					return nil
				}
			} else if v, _ := e.(*ssa.BinOp).Y.(*ssa.Const); v.Int64() != 1 {
				return nil
			}
		}
		li := en.loops[mk("loop", fmt.Sprintf("%s.%d%s", fr.id, h.Index, fr.round), nil)]
		if li == nil {
			return nil
		}
		ls := it.loops[h.Index]
		if ls.end == nil {
			ls.end = n
		} else if ls.end != n {
			ls.end = tNil
		}
		if ls.end == n && !n.any(func(x *Term) bool {
			return x == w || x.Op == "W" && strings.HasPrefix(x.Aux, li.id.Aux+".") ||
				x.Op == "old" && madeIn(x.Args[0], fr, en.a.loopBlocks(h))
		}) {
			return mkLt(n, w)
		}
		return nil
	}
	return nil
}
func isZeroConst(c *ssa.Const) bool {
	return c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

// bound: the test in the head of a loop that ends it after a constant number of
// rounds, too many to follow one by one.
func (en *Engine) bound(p *ssa.Phi, h *ssa.BasicBlock) *ssa.BinOp {
	lo, step, ok := en.counter(p, h)
	if !ok {
		return nil
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.X != p {
		return nil
	}
	c, ok := b.Y.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return nil
	}
	n, exact := constant.Int64Val(c.Value)
	if !exact || (n-lo)/step <= maxRounds {
		return nil
	}
	return b
}

const maxRounds = 2

// counterTested: the loop compares the counter with a constant, so its first
// values are told apart.
func (en *Engine) counterTested(p *ssa.Phi, body map[int]bool) bool {
	bound := en.bound(p, p.Block())
	var isCnt func(v ssa.Value) bool
	isCnt = func(v ssa.Value) bool {
		if v == p {
			return true
		}
		switch b := v.(type) {
		case *ssa.BinOp:
			_, c := b.Y.(*ssa.Const)
			return c && isCnt(b.X)
		case *ssa.UnOp:
			// a variable that holds the counter
			al, ok := b.X.(*ssa.Alloc)
			if !ok || b.Op != token.MUL {
				return false
			}
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					if _, again := st.Val.(*ssa.UnOp); again || !isCnt(st.Val) {
						return false
					}
					n++
				}
			}
			return n > 0
		}
		return false
	}
	var tests func(ins ssa.Instruction, isCnt func(v ssa.Value) bool, depth int) bool
	tests = func(ins ssa.Instruction, isCnt func(v ssa.Value) bool, depth int) bool {
		if c, ok := ins.(*ssa.Call); ok && depth < 3 {
			// in a function it is passed to
			g := c.Call.StaticCallee()
			if g == nil || !en.a.inRepo(g) {
				return false
			}
			for i, a := range c.Call.Args {
				if i >= len(g.Params) || !isCnt(a) {
					continue
				}
				is := func(v ssa.Value) bool { return v == g.Params[i] }
				for _, b := range g.Blocks {
					for _, x := range b.Instrs {
						if tests(x, is, depth+1) {
							return true
						}
					}
				}
			}
			return false
		}
		b, ok := ins.(*ssa.BinOp)
		if !ok || b == bound {
			return false
		}
		switch b.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return false
		}
		_, cx := b.X.(*ssa.Const)
		_, cy := b.Y.(*ssa.Const)
		return cx && isCnt(b.Y) || cy && isCnt(b.X)
	}
	for i := range body {
		for _, ins := range p.Parent().Blocks[i].Instrs {
			if tests(ins, isCnt, 0) {
				return true
			}
		}
	}
	return false
}

// flagDown: the loop tests a flag, which the iteration that ends has decided.
func (en *Engine) flagDown(h *ssa.BasicBlock, vals map[*ssa.Phi]*Term) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	p, ok := iff.Cond.(*ssa.Phi)
	if !ok || vals[p] != tTrue && vals[p] != tFalse {
		return false
	}
	for _, ins := range h.Instrs[:len(h.Instrs)-1] {
		switch ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		default:
			return false
		}
	}
	i := 0
	if vals[p] == tFalse {
		i = 1
	}
	return !en.a.loopBlocks(h)[h.Succs[i].Index]
}

// errStops: the loop goes on only without an error, which its second test
// asks, and this iteration ends with one.
func (en *Engine) errStops(st *State, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term) bool {
	body := en.a.loopBlocks(h)
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok || body[h.Succs[0].Index] == body[h.Succs[1].Index] {
		return false
	}
	s := h.Succs[0]
	if !body[s.Index] {
		s = h.Succs[1]
	}
	iff, ok := s.Instrs[len(s.Instrs)-1].(*ssa.If)
	if !ok || len(s.Preds) != 1 || body[s.Succs[0].Index] == body[s.Succs[1].Index] {
		return false
	}
	var test *ssa.BinOp
	for _, ins := range s.Instrs[:len(s.Instrs)-1] {
		switch x := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if test != nil || x.Op != token.EQL && x.Op != token.NEQ {
				return false
			}
			test = x
		default:
			return false
		}
	}
	if test == nil || iff.Cond != test {
		return false
	}
	p, ok := test.X.(*ssa.Phi)
	c, isNil := test.Y.(*ssa.Const)
	if !ok || !isNil || p.Block() != h || !isErrType(p.Type()) || !c.IsNil() {
		return false
	}
	known, v := st.decide(mkEq(vals[p], tNil))
	if !known {
		return false
	}
	i := 0
	if v != (test.Op == token.EQL) {
		i = 1
	}
	return !body[s.Succs[i].Index]
}

// staysOn: the outcome of the test in the loop head that goes round again.
func (en *Engine) staysOn(h *ssa.BasicBlock) bool {
	return en.a.loopBlocks(h)[h.Succs[0].Index]
}

// errTest: what the loop head tests, if that is the error an iteration ends
// with and nothing else.
func (en *Engine) errTest(fr *Frame, it *item, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term) *Term {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || en.a.loopBlocks(h)[h.Succs[0].Index] == en.a.loopBlocks(h)[h.Succs[1].Index] {
		return nil
	}
	tested := false
	isErr := func(v ssa.Value) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h && p.Type().String() == "error" {
			tested = true
		}
	}
	tmp := &item{blk: h, env: it.env, shared: true, st: it.st, loops: it.loops}
	for p, v := range vals {
		tmp.set(p, v)
	}
	for _, ins := range h.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.MakeInterface:
			en.step(fr, tmp, x)
		case *ssa.Call:
			f, ok := x.Call.Value.(*ssa.Function)
			if !ok || f.String() != "errors.Is" {
				return nil
			}
			isErr(x.Call.Args[0])
			tmp.set(x, mkEq(en.val(tmp, x.Call.Args[0]), en.val(tmp, x.Call.Args[1])))
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return nil
			}
			isErr(x.X)
			isErr(x.Y)
			en.step(fr, tmp, x)
		case *ssa.UnOp:
			_, global := x.X.(*ssa.Global)
			if x.Op != token.NOT && !(x.Op == token.MUL && global) {
				return nil
			}
			en.step(fr, tmp, x)
		default:
			return nil
		}
	}
	if !tested {
		return nil
	}
	return en.val(tmp, iff.Cond)
}

// tabled: the loop calls functions it takes from a table.
func (en *Engine) tabled(h *ssa.BasicBlock) bool {
	if v, ok := en.tables[h]; ok {
		return v
	}
	body := en.a.loopBlocks(h)
	r := false
	for i := range body {
		for _, ins := range h.Parent().Blocks[i].Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok || c.Call.IsInvoke() {
				continue
			}
			if l, ok := c.Call.Value.(*ssa.UnOp); ok && l.Op == token.MUL && body[l.Block().Index] {
				r = r || fromTable(l.X, body)
			} else if f, ok := c.Call.Value.(*ssa.Field); ok && body[f.Block().Index] {
				r = true
			}
		}
	}
	en.tables[h] = r
	return r
}

// short: the loop counts up to a small constant or through a list of a few
// known elements.
func (en *Engine) short(fr *Frame, it *item, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS || !isIntType(b.X.Type()) {
		return false
	}
	x := b.X
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD {
		x = add.X
	}
	p, ok := x.(*ssa.Phi)
	if !ok || vals[p] == nil {
		return false
	}
	if _, _, ok := en.counter(p, h); !ok {
		return false
	}
	var n *Term
	if y, ok := b.Y.(ssa.Instruction); !ok || y.Block() != h {
		n = en.val(it, b.Y)
	} else if call, ok := b.Y.(*ssa.Call); ok {
		if f, ok := call.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" {
			if a, ok := call.Call.Args[0].(ssa.Instruction); !ok || a.Block() != h {
				n = mkLen(en.snapLen(it.st, en.val(it, call.Call.Args[0])))
			}
		}
	}
	if n == nil {
		return false
	}
	c, ok := n.intVal()
	return ok && c <= 8 && vals[p].isConst()
}

// fromTable: the address is that of an element, or of a part of one, or of a
// variable that is given one.
func fromTable(v ssa.Value, body map[int]bool) bool {
	switch x := v.(type) {
	case *ssa.IndexAddr:
		return body[x.Block().Index]
	case *ssa.FieldAddr:
		return fromTable(x.X, body)
	case *ssa.Alloc:
		return body[x.Block().Index]
	}
	return false
}

// constTest reports whether the test in the loop head is decided when the
// loop variables have the given values.
func (en *Engine) constTest(fr *Frame, it *item, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if b, ok := iff.Cond.(*ssa.BinOp); !ok || !isIntType(b.X.Type()) {
		return false
	} else {
		for p := range vals {
			if en.bound(p, h) == b && !en.tabled(h) {
				return false
			}
		}
	}
	tmp := &item{blk: h, env: it.env, shared: true, st: it.st.clone(), loops: it.loops}
	for p, v := range vals {
		tmp.set(p, v)
	}
	for _, ins := range h.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.BinOp:
			en.step(fr, tmp, x)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				tmp.set(x, mkLen(en.snapLen(tmp.st, en.val(tmp, x.Call.Args[0]))))
			} else {
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
			en.step(fr, tmp, x)
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field:
			en.step(fr, tmp, ins)
		case *ssa.If:
		default:
			return false
		}
	}
	c := en.val(tmp, iff.Cond)
	if c != tTrue && c != tFalse {
		return false
	}
	v := c == tTrue
	// leaving is always fine; going round again only while something moves
	if !v || !en.a.loopBlocks(h)[h.Succs[0].Index] {
		return true
	}
	for p, nv := range vals {
		if it.env[p] != nv {
			return true
		}
	}
	return false
}

// ageMap: the values created in the body of a loop.
func (en *Engine) ageMap(fr *Frame, st *State, h *ssa.BasicBlock) map[*Term]*Term {
	body := en.a.loopBlocks(h)
	m := map[*Term]*Term{}
	for t, g := range st.gen.m {
		b := g.blk
		f := g.fr
		for f != nil && f != fr {
			b = f.callBlk
			f = f.parent
		}
		if f == fr && body[b] {
			m[t] = mkOld(t)
		}
	}
	return m
}

// age renames the values created inside the loop in the iteration that ends.
func (en *Engine) age(fr *Frame, it *item, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term, rebound map[*Term]bool) {
	st := it.st
	m := en.ageMap(fr, st, h)
	for t := range m {
		st.gen.del(t)
	}
	for w := range rebound {
		// values of the previous iteration
		m[w] = mkOld(w)
	}
	if len(m) == 0 {
		return
	}
	sb := newSubst(m)
	sb.age = true
	isOld := func(t *Term) bool {
		return t.any(func(x *Term) bool { return x.Op == "old" && m[x.Args[0]] != nil })
	}
	for p, v := range vals {
		if rebound[v] {
			continue
		}
		vals[p] = sb.do(v)
	}
	for v, t := range it.env {
		if n := sb.do(t); n != t {
			it.set(v, n)
		}
	}
	live := map[*Term]bool{}
	for _, v := range vals {
		v.any(func(x *Term) bool {
			if x.Op == "old" {
				live[x] = true
			}
			return false
		})
	}
	facts := st.facts.m
	for f := range facts {
		if sb.do(f) != f || isOld(f) {
			st.facts.del(f)
		}
	}
	for f, v := range facts {
		if f2 := sb.do(f); f2 != f && !isOld(f) && f2.Op != "const" && f2.Op != "not" {
			if !f2.any(func(x *Term) bool { return x.Op == "old" && !live[x] }) {
				st.facts.set(f2, v)
			}
		}
	}
	heap := st.heap.m
	for k, v := range heap {
		if isOld(k) {
			// only what the previous generation agrees on survives
			st.heap.del(k)
			continue
		}
		k2, v2 := sb.do(k), sb.do(v)
		if k2 != k || v2 != v {
			st.heap.del(k)
			if k2 == k {
				st.heap.set(k2, v2)
			}
		}
	}
	for k, v := range heap {
		k2, v2 := sb.do(k), sb.do(v)
		if k2 != k {
			if o, ok := heap[k2]; !ok || o == v2 {
				st.heap.set(k2, v2)
			}
		}
	}
	for k, v := range st.ver.m {
		k2, v2 := sb.do(k), sb.do(v)
		if k2 != k || isOld(k) {
			st.ver.del(k)
			continue
		}
		if k2 == k && v2 != v {
			st.ver.set(k2, v2)
		}
	}
	for k, v := range st.maps.m {
		k2 := sb.do(k)
		if k2 != k || isOld(k) {
			st.maps.del(k)
			continue
		}
		ch := false
		n := &mapState{base: sb.do(v.base)}
		if n.base != v.base {
			ch = true
		}
		for _, w := range v.writes {
			w2 := mwrite{key: sb.do(w.key), val: sb.do(w.val), del: w.del, site: sb.do(w.site)}
			if w2 != w {
				ch = true
			}
			n.writes = append(n.writes, w2)
		}
		if ch {
			st.maps.set(k, n)
		}
	}
	for k, v := range st.locks.m {
		if k2 := sb.do(k); k2 != k {
			st.locks.del(k)
			st.locks.set(k2, v)
		}
	}
	var nl []*Event
	have := map[string]bool{}
	for _, e := range st.log {
		n := e
		ch := false
		args := make([]*Term, len(e.Args))
		for i, a := range e.Args {
			args[i] = sb.do(a)
			ch = ch || args[i] != a
		}
		r := sb.do(e.Res)
		if ch || r != e.Res {
			c := *e
			c.Args, c.Res, c.Past = args, r, true
			n = &c
		}
		k := n.key()
		if n.Past {
			if have[k] {
				continue
			}
		}
		have[k] = true
		nl = append(nl, n)
	}
	st.log = nl
	st.epoch = sb.do(st.epoch)
	st.tx = sb.do(st.tx)
	for i := range it.defers {
		d := it.defers[i]
		args := make([]*Term, len(d.args))
		for j, a := range d.args {
			args[j] = sb.do(a)
		}
		it.defers[i] = deferred{d.call, sb.do(d.fn), args}
	}
}
func mkOld(t *Term) *Term {
	if t.Op == "old" {
		return t
	}
	r := mk("old", "", t.Type, t)
	return r
}

// describeLoop finds out what a loop ranges over.
// keptIn: the loop does not change the local variable.
func (en *Engine) keptIn(v ssa.Value, h *ssa.BasicBlock) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	body := en.a.loopBlocks(h)
	for _, x := range *a.Referrers() {
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := x.(*ssa.MakeClosure); ok || body[x.Block().Index] {
			return false
		}
	}
	return true
}

// fromFirst: as far as one can tell, the place x that a loop compares with the
// end begins with 0 and leaves none out.
func (en *Engine) fromFirst(it *item, li *LoopInfo, x ssa.Value) bool {
	var off int64
	if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD {
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return true
		}
		off, _ = constant.Int64Val(c.Value)
		x = b.X
	}
	begins := func(t *Term) bool {
		n, ok := t.intVal()
		return !ok || n+off == 0
	}
	switch x := x.(type) {
	case *ssa.Phi:
		t := it.env[x]
		if t == nil || x.Block() != li.head {
			return true
		}
		if t.Op != "W" {
			if !begins(t) {
				return false
			}
		} else {
			for v := range li.init[t] {
				if v != t && !begins(v) {
					return false
				}
			}
		}
		for i, e := range x.Edges {
			if !li.head.Dominates(li.head.Preds[i]) {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != x {
				continue
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				continue
			}
			if n, _ := constant.Int64Val(c.Value); b.Op != token.ADD || n != 1 {
				return false
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return true
		}
		if a, ok := it.env[x.X]; ok {
			if v := it.st.heap.m[a]; v != nil {
				return begins(v)
			}
		}
	}
	return true
}
func (en *Engine) describeLoop(fr *Frame, it *item, li *LoopInfo) {
	h := li.head
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		li.kind = "forever"
		return
	}
	switch c := iff.Cond.(type) {
	case *ssa.Extract:
		if n, ok := c.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				li.kind, li.over = "maprange", en.val(it, r.X)
			}
		}
	case *ssa.BinOp:
		if c.Op == token.LSS || c.Op == token.NEQ || c.Op == token.GTR {
			x, y := c.X, c.Y
			if c.Op == token.GTR {
				x, y = c.Y, c.X
			}
			if !en.fromFirst(it, li, x) {
				li.kind = "cond"
				return
			}
			if l, ok := it.env[y]; ok {
				if l.Op == "len" {
					li.kind, li.over = "index", l.Args[0]
					return
				}
			}
			if call, ok := y.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if v, ok := it.env[call.Call.Args[0]]; ok {
						li.kind, li.over = "index", en.snapLen(it.st, v)
						return
					}
					if u, ok := call.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL && en.keptIn(u.X, h) {
						if a, ok := it.env[u.X]; ok {
							if v := it.st.heap.m[a]; v != nil {
								li.kind, li.over = "index", en.snapLen(it.st, v)
								return
							}
						}
					}
					if p, ok := call.Call.Args[0].(*ssa.Parameter); ok {
						li.kind, li.over = "index", en.val(it, p)
						return
					}
				}
			}
		}
		li.kind = "cond"
	default:
		li.kind = "cond"
	}
}
