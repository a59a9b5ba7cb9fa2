package main

// C08 (locking), C09 (bolt transactions), C10 (failures).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props["C08"] = c08
	props["C09"] = c09
	props["C10"] = c10
}

// allRuns: every operation, Close and background task of a provider.
func (c *Ctx) allRuns(p *Prov, f func(name string, r *Run, worker bool)) {
	for _, op := range append(append([]string{}, providerOps...), "Close", "Clear") {
		fn := p.m[op]
		if fn == nil && op == "Clear" {
			fn = c.method(p, op)
		}
		if fn != nil {
			f(op, c.run(fn), false)
		}
	}
	for _, w := range c.workersOf(p) {
		f(w.fn.Name(), w.run, true)
	}
}

// signals: the fields whose channel Close closes, or whose context it cancels.
func (c *Ctx) signals(p *Prov) map[string]bool {
	out := map[string]bool{}
	fn := p.m["Close"]
	if fn == nil {
		return out
	}
	r := c.run(fn)
	cancels := map[string]bool{}
	for _, e := range r.en.events {
		a := e.Args
		switch e.Op {
		case "close":
			if a[0].Op == "load" {
				out[fieldKeyOf(a[0].Args[0])] = true
			}
		case "cancel":
			if a[0].Op == "load" {
				cancels[fieldKeyOf(a[0].Args[0])] = true
			}
		}
	}
	if len(cancels) > 0 {
		// the context whose cancel function is stored in the cancelled field
		cr := c.run(p.ctor)
		cr.exits(func(o *Outcome) {
			h := o.st.heap.m
			for k, v := range h {
				if k.Op != "faddr" || !cancels[fieldKeyOf(k)] || v.Op != "cancelfn" {
					continue
				}
				for k2, v2 := range h {
					if k2.Op == "faddr" && k2.Args[0] == k.Args[0] && unwrapIface(v2) == unwrapIface(v.Args[0]) {
						out[fieldKeyOf(k2)] = true
					}
				}
			}
		})
	}
	return out
}

// closing: a channel that is ready once the provider is closed.
func closing(sig map[string]bool, ch *Term) bool {
	if ch.Op == "load" {
		return sig[fieldKeyOf(ch.Args[0])]
	}
	if ch.Op == "call" && strings.HasSuffix(ch.Aux, "Context).Done") {
		x := unwrapIface(ch.Args[0])
		return x.Op == "load" && sig[fieldKeyOf(x.Args[0])]
	}
	return false
}

// waits: operations that block until another goroutine acts.
func waits(e *Event) bool {
	switch e.Op {
	case "select", "recv", "send", "sleep":
		return true
	}
	return strings.HasSuffix(e.Op, "WaitGroup).Wait") || strings.HasSuffix(e.Op, "Cond).Wait") || e.Op == "ext:runtime.Gosched" || e.Op == "ext:time.After"
}

func isMutation(p *Prov, e *Event) bool {
	switch e.Op {
	case "mapset", "mapdel":
		m := e.Args[0]
		return isTokens(m) || isIDs(m) || isDataMap(m) && !isFresh(m) || m.Op == "load" && m.Args[0].Op == "faddr"
	case "list.PushBack", "list.PushFront", "list.Remove", "list.Init", "list.MoveToBack", "list.MoveToFront", "list.MoveBefore", "list.MoveAfter", "list.InsertBefore", "list.InsertAfter":
		return true
	case "store":
		return e.Args[0].Op == "faddr" && !isFresh(root(e.Args[0])) && root(e.Args[0]).Op != "global"
	case "copy":
		return !isFresh(root(e.Args[0])) && strings.Contains(typeStr(e.Args[0].Type), "[]string")
	}
	return p.kind == "bolt" && boltMutation(e)
}
func boltMutation(e *Event) bool {
	switch e.Op {
	case "bolt.Put", "bolt.Delete", "bolt.DeleteBucket", "bolt.CreateBucket", "bolt.CreateBucketIfNotExists", "bolt.NextSequence", "bolt.SetSequence", "bolt.CursorDelete":
		return true
	}
	return false
}

func c08(c *Ctx) {
	c.rule("balanced", "every exit leaves no lock taken", 30)
	c.rule("no-relock", "no lock is taken while it is held, and none is released that is not held that way", 15)
	c.rule("no-wait", "nothing is waited for while a lock is held", 20)
	c.rule("order", "locks and transactions are taken in one order", 20)
	c.rule("read-locked", "shared state of a provider is read only under its lock", 20)
	c.rule("write-locked", "shared state of a provider is changed only under its exclusive lock", 20)
	c.rule("abandon", "an operation that waits for a background task also waits for the provider to be closed", 6)
	c.rule("start", "the constructor changes no field a task it has already started uses", 3)
	for _, p := range c.providers() {
		sig := c.signals(p)
		// the fields that change after construction
		mutable := map[string]bool{}
		c.allRuns(p, func(name string, r *Run, worker bool) {
			for _, e := range r.en.events {
				if (e.Op == "store" || e.Op == "atomicstore") && e.Args[0].Op == "faddr" && !isFresh(root(e.Args[0])) {
					mutable[fieldKeyOf(e.Args[0])] = true
				}
			}
		})
		order := map[[2]string]bool{}
		c.allRuns(p, func(name string, r *Run, worker bool) {
			recv := recvOf(r.fn)
			if worker {
				recv = nil
			}
			own := func(l *Term) bool { return recv == nil || root(l) == recv }
			held := func(locks map[*Term]string, excl bool) bool {
				for l, m := range locks {
					if own(l) && (m == "W" || !excl) {
						return true
					}
				}
				return false
			}
			r.exits(func(o *Outcome) {
				c.ob("balanced", r, o, o.pos, len(o.st.locks.m) == 0, "returns with a lock still held")
			})
			for _, e := range r.en.events {
				switch e.Op {
				case "relock":
					c.ob("no-relock", r, nil, e.Pos, false, "%s is locked while it is held", e.Args[0])
				case "badunlock":
					c.ob("no-relock", r, nil, e.Pos, false, "%s is unlocked without being held that way", e.Args[0])
				case "lockW", "lockR":
					c.ob("no-relock", r, nil, e.Pos, true, "")
					c.ob("order", r, nil, e.Pos, e.Tx == nil, "a lock is taken within a transaction, which other operations begin while holding it")
					for l := range e.Locks {
						if l != e.Args[0] {
							a, b := l.String(), e.Args[0].String()
							order[[2]string{a, b}] = true
							c.obx("order", r, nil, e.Pos, a+b, !order[[2]string{b, a}], "%s and %s are taken in either order", a, b)
						}
					}
				}
				if waits(e) {
					c.obx("no-wait", r, nil, e.Pos, e.Op, len(e.Locks) == 0 && e.Tx == nil, "%s while a lock or transaction is held", e.Op)
				}
				if !worker && (e.Op == "select" || e.Op == "send" || e.Op == "recv") {
					ok := false
					if e.Op == "select" {
						for _, a := range e.Args[1:] {
							if a.Op == "case" && a.Aux == "recv" && closing(sig, a.Args[0]) {
								ok = true
							}
						}
					} else if len(e.Args) > 0 && isFresh(e.Args[0]) {
						ok = true
					}
					c.obx("abandon", r, nil, e.Pos, e.Op, ok, "%s never ends if the background task is gone", e.Op)
				}
				if worker && e.Op == "send" {
					c.obx("abandon", r, nil, e.Pos, e.Op, false, "a background task may wait for ever")
				}
				switch {
				case isMutation(p, e) && p.kind != "redis", e.Op == "store" && p.kind == "redis" && isMutation(p, e):
					if e.Tx == nil || p.kind != "bolt" {
						c.obx("write-locked", r, nil, e.Pos, e.Op, held(e.Locks, true), "%s without the exclusive lock", e)
					} else {
						c.obx("write-locked", r, nil, e.Pos, e.Op, held(e.Locks, true), "%s without the exclusive lock", e.Op)
					}
				case e.Op == "atomicstore":
					c.obx("write-locked", r, nil, e.Pos, e.Op, held(e.Locks, true) || e.Args[0].Op == "faddr", "")
				case p.kind != "redis" && p.stateEvent(e, recv):
					c.obx("read-locked", r, nil, e.Pos, e.Op, held(e.Locks, false), "%s without the lock", e)
				}
			}
			for _, a := range r.en.accesses {
				if a.addr.Op != "faddr" || isFresh(root(a.addr)) || !mutable[fieldKeyOf(a.addr)] {
					continue
				}
				c.obx("read-locked", r, nil, a.pos, fieldKeyOf(a.addr), held(a.locks, false), "%s is read without the lock", a.addr)
			}
		})
		// the constructor
		r := c.run(p.ctor)
		used := map[string]bool{}
		for _, w := range c.workersOf(p) {
			for k := range fieldsRead(w.fn, map[*ssa.Function]bool{}) {
				used[k] = true
			}
		}
		r.exits(func(o *Outcome) {
			started := false
			for _, e := range o.st.log {
				if e.Op == "go" {
					started = true
				}
				if e.Op == "store" && started && e.Args[0].Op == "faddr" {
					c.obx("start", r, o, e.Pos, fieldKeyOf(e.Args[0]), !used[fieldKeyOf(e.Args[0])], "%s changes what a running background task uses", e)
				}
			}
			c.ob("start", r, o, o.pos, true, "")
		})
	}
}

// fieldsRead: the struct fields of the repository a function and what it calls may touch.
func fieldsRead(fn *ssa.Function, seen map[*ssa.Function]bool) map[string]bool {
	out := map[string]bool{}
	if fn == nil || seen[fn] {
		return out
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if f, ok := in.(*ssa.FieldAddr); ok {
				if pt, ok := f.X.Type().Underlying().(*types.Pointer); ok {
					out[fieldKey(pt.Elem(), f.Field)] = true
				}
			}
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if g, ok := (*o).(*ssa.Function); ok {
					for k := range fieldsRead(g, seen) {
						out[k] = true
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		for k := range fieldsRead(a, seen) {
			out[k] = true
		}
	}
	return out
}

func c09(c *Ctx) {
	c.rule("one", "an operation begins at most one transaction", 12)
	c.rule("inside", "the database is used only within a transaction that is open, through its own buckets", 60)
	c.rule("kind", "changes are made in a transaction that can change the database", 40)
	c.rule("nested", "no transaction is begun within another", 12)
	c.rule("abort", "a transaction in which a step failed is rolled back", 12)
	c.rule("report", "a failed step or commit is reported by the operation", 30)
	c.rule("verdict", "a refusal by token state is reported only if the transaction that decided it went through", 8)
	for _, p := range c.providers() {
		if p.kind != "bolt" {
			continue
		}
		c.allRuns(p, func(name string, r *Run, worker bool) {
			c.ob("nested", r, nil, r.fn.Pos(), true, "")
			for _, e := range r.en.events {
				if e.Op == "tx.nested" {
					c.ob("nested", r, nil, e.Pos, false, "a transaction is begun within another")
				}
				if e.Op == "tx.begin" && !worker && len(e.Loop) > 0 {
					c.ob("one", r, nil, e.Pos, false, "a transaction is begun in a loop")
				}
				if strings.HasPrefix(e.Op, "bolt.") && e.Op != "bolt.Close" && len(e.Args) > 0 {
					tx := e.Tx
					own := true
					if b := e.Args[0]; b.Op == "bucket" {
						t, _ := bktPath(b)
						own = t == tx
					}
					c.obx("inside", r, nil, e.Pos, e.Op, tx != nil && own, "%s outside a transaction or on a bucket of another one", e)
					if boltMutation(e) && tx != nil {
						c.obx("kind", r, nil, e.Pos, e.Op, !strings.HasPrefix(tx.Aux, "View"), "%s in a read-only transaction", e)
					}
				}
			}
			r.exits(func(o *Outcome) {
				var res *Term
				class := ""
				if !worker && len(o.res) > 0 && isErrType(r.fn.Signature.Results().At(r.fn.Signature.Results().Len()-1).Type()) {
					class, res = c.errOf(o)
				}
				n := 0
				var failed []*Event // within the current transaction
				var verdictOK = true
				for _, e := range o.st.log {
					switch e.Op {
					case "tx.begin":
						n++
						failed = nil
						if !e.Ok {
							verdictOK = false
							if res != nil {
								c.obx("report", r, o, e.Pos, e.Op, wraps(res, e.Res), "the failure to begin a transaction is not reported")
							}
						}
					case "tx.commit", "tx.commitfail", "tx.rollback":
						if len(failed) > 0 {
							c.obx("abort", r, o, failed[0].Pos, failed[0].Op, e.Op == "tx.rollback", "%s but the transaction is committed", failed[0])
							if res != nil {
								c.obx("report", r, o, failed[0].Pos, failed[0].Op, wraps(res, failed[0].Res), "%s but the operation reports %v", failed[0], res)
							}
						}
						if e.Op == "tx.commitfail" {
							verdictOK = false
							if res != nil {
								c.obx("report", r, o, e.Pos, e.Op, wraps(res, e.Res), "the failure to commit is not reported")
							}
						}
						if e.Op == "tx.rollback" && res != nil && e.Res != nil {
							c.obx("report", r, o, e.Pos, e.Op, wraps(res, e.Res) || c.errClass(o.st.facts.m, e.Res) == class && class != "nil" && class != "fail" && class != "?", "the transaction was aborted with %v but the operation reports %v", e.Res, res)
						}
					default:
						if !e.Ok && e.Tx != nil {
							failed = append(failed, e)
						}
					}
				}
				c.ob("one", r, o, o.pos, worker || n <= 1, "%d transactions in one operation", n)
				switch class {
				case "ErrTokenNotExists", "ErrTokenExpired", "ErrRefreshTokenNotMatched":
					c.ob("verdict", r, o, o.pos, verdictOK && n == 1, "%s is reported although the transaction that decided it did not go through", class)
				}
			})
		})
	}
}

// verdicts are the refusals that speak about the state of a token.
func verdict(class string) bool {
	switch class {
	case "ErrTokenNotExists", "ErrTokenExpired", "ErrRefreshTokenNotMatched", "ErrTokenIDNotMatched", "ErrKeyNotExists":
		return true
	}
	return false
}

// isFact: the path knows that an error is the given one.
func isFact(f Facts, e *Term, name string) bool {
	return e != nil && tri(f, mkEq(e, errGlobal(name))) == yes
}

func c10(c *Ctx) {
	c.rule("reported", "an exit on which a step failed reports an error", 150)
	c.rule("no-verdict", "no token-state verdict is given on the strength of a failed step", 150)
	c.rule("stop", "nothing is changed on the strength of a failed step", 150)
	c.rule("loop", "a loop does not go on past a failed step", 30)
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn != nil && !seen[fn] {
			seen[fn] = true
			fns = append(fns, fn)
		}
	}
	var provOf = map[*ssa.Function]*Prov{}
	for _, p := range c.providers() {
		for _, op := range providerOps {
			add(p.m[op])
			provOf[p.m[op]] = p
		}
		add(p.ctor)
		provOf[p.ctor] = p
	}
	for _, fn := range c.a.funcs {
		if fn.Parent() != nil || fn.Name() == "Close" || !exported(fn) {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() > 0 && isErrType(rs.At(rs.Len()-1).Type()) {
			add(fn)
		}
	}
	for _, fn := range fns {
		r := c.run(fn)
		p := provOf[fn]
		errAt := fn.Signature.Results().Len() - 1
		if errAt < 0 || !isErrType(fn.Signature.Results().At(errAt).Type()) {
			continue
		}
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			class, res := c.errOf(o)
			var first *Event
			again := -1 // where the last attempt starts
			for i, e := range o.st.log {
				if e.Op == "redis.watchbegin" {
					again = i
				}
			}
			for i, e := range o.st.log {
				if first != nil && p != nil && changes(p, e) {
					c.obx("stop", r, o, e.Pos, first.Op, rolledBack(o, e), "%s although %s", e, first)
				}
				if e.Ok || e.Op == "bolt.Close" || e.Op == "redis.Close" || e.Op == "tx.commitfail" && false {
					continue
				}
				err := errOfEvent(e)
				c.obx("reported", r, o, e.Pos, e.Op, class != "nil" || isFact(f, err, "nil") || i < again && r.triedAgain(f, err), "%s but no error is reported", e)
				ok := !verdict(class) || i < again || class == "ErrTokenNotExists" && isFact(f, err, redisPkg+".Nil")
				c.obx("no-verdict", r, o, e.Pos, e.Op, ok, "%s and %v is reported", e, res)
				if class == "ErrProviderClosed" && i >= again {
					c.obx("no-verdict", r, o, e.Pos, e.Op, isFact(f, err, redisPkg+".ErrClosed"), "%s and %v is reported", e, res)
				}
				if first == nil && !isFact(f, err, redisPkg+".Nil") && !(i < again && r.triedAgain(f, err)) {
					first = e
				}
				c.obx("stop", r, o, e.Pos, e.Op, true, "")
			}
		})
		for _, li := range r.en.loops {
			for _, it := range li.iters {
				for _, e := range it.events {
					if e.Ok || e.Op == "split" {
						continue
					}
					err := errOfEvent(e)
					ok := it.exit != "next" || it.last || err != nil && retry(it, err)
					c.obx("loop", r, nil, e.Pos, e.Op, ok, "%s but the loop goes on", e)
				}
			}
		}
	}
}

// retry: the failed step is the end of an optimistic transaction that found
// its subject changed, and is tried again.
// triedAgain: err is what a loop started with that goes on because the session
// was changed in the meantime.
func (r *Run) triedAgain(f Facts, err *Term) bool {
	if isFact(f, err, redisPkg+".TxFailedErr") {
		return true
	}
	for _, li := range r.en.loops {
		for w, from := range li.init {
			if from[err] && isFact(f, w, redisPkg+".TxFailedErr") {
				return true
			}
		}
	}
	return false
}

func retry(it *Iter, err *Term) bool {
	return isFact(it.facts, err, redisPkg+".TxFailedErr")
}
func exported(fn *ssa.Function) bool {
	if fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	if rv := fn.Signature.Recv(); rv != nil {
		t := rv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Exported()
	}
	return true
}

// errOfEvent is the error a failed step ended with.
func errOfEvent(e *Event) *Term {
	if e.Res == nil {
		return nil
	}
	if e.Res.Op == "cmd" {
		return mk("cmderr", "", types.Universe.Lookup("error").Type(), e.Res)
	}
	return e.Res
}

// changes: an effect on what is stored.
func changes(p *Prov, e *Event) bool {
	switch p.kind {
	case "memory":
		return isMutation(p, e)
	case "bolt":
		return boltMutation(e)
	}
	switch strings.TrimPrefix(e.Op, "redis.") {
	case "Exec", "HSet", "HMSet", "HDel", "Del", "Unlink", "Rename", "RenameNX", "ExpireAt", "Expire", "Set", "Persist":
		return true
	}
	return false
}

// rolledBack: the transaction of the effect is rolled back on this path.
func rolledBack(o *Outcome, e *Event) bool {
	if e.Tx == nil {
		return false
	}
	for _, x := range o.st.log {
		if (x.Op == "tx.rollback" || x.Op == "tx.commitfail") && len(x.Args) > 0 && x.Args[0] == e.Tx {
			return true
		}
	}
	return false
}
