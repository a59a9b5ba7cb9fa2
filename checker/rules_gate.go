package main

// C01 (closed providers), C02 (live access), C03 (refresh gate).

import (
	"strings"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
}

// stateEvent tells whether an effect reads or changes stored sessions.
func (p *Prov) stateEvent(e *Event, recv *Term) bool {
	switch p.kind {
	case "memory":
		switch e.Op {
		case "mapget", "mapset", "mapdel", "mapnext":
			m := e.Args[0]
			return isTokens(m) || isIDs(m) || isDataMap(m) && !isFresh(m)
		case "list.PushBack", "list.PushFront", "list.Remove", "list.Front", "list.Back", "list.Len", "list.Init", "list.MoveToBack", "list.MoveToFront":
			return true
		case "store":
			a := e.Args[0]
			return a.Op == "faddr" && !isFresh(root(a)) && !p.done[fieldKeyOf(a)]
		case "copy":
			return strings.Contains(typeStr(e.Args[0].Type), "[]string") && !isFresh(root(e.Args[0]))
		}
	case "bolt":
		return e.Op == "tx.begin" || strings.HasPrefix(e.Op, "bolt.")
	case "redis":
		return (strings.HasPrefix(e.Op, "redis.") || strings.HasPrefix(e.Op, "redisq.")) && e.Op != "redis.Close" && e.Op != "redis.pipeClose"
	}
	return false
}
func fieldKeyOf(a *Term) string {
	k, _ := a.Obj.(string)
	return k
}

// isFresh: made by the operation itself.
func isFresh(t *Term) bool {
	switch t.Op {
	case "alloc", "makemap", "mkslice", "ele", "obj", "makechan":
		return true
	case "slice", "asl", "copyinto":
		return isFresh(t.Args[0])
	case "load":
		return false
	case "seq", "bcopy", "s2b", "encoded", "be64":
		return true
	}
	return false
}

// openAt: the provider is known to be open, as of the given critical section.
func (p *Prov) openAt(f Facts, epoch *Term) bool {
	open, _ := p.closedFacts(f)
	if epoch == nil {
		return len(open) > 0
	}
	return open[epoch]
}

func c01(c *Ctx) {
	c.rule("gate", "stored sessions are used only where the provider is known to be open, decided in the same critical section", 120)
	c.rule("closed-verdict", "an exit on which the provider is known to be closed reports ErrProviderClosed", 28)
	c.rule("open-verdict", "ErrProviderClosed is reported only if the provider or its client is closed", 28)
	c.rule("overtaken", "an operation that a closed client turns down reports ErrProviderClosed", 8)
	c.rule("decided", "no exit for well-formed arguments leaves undecided whether the provider is closed", 60)
	c.rule("close-once", "Close succeeds only where it changes the provider from open to closed in one exclusive section, ending the background tasks", 4)
	c.rule("close-again", "Close of a closed provider reports ErrProviderClosed", 3)
	c.rule("worker-gate", "a background task uses stored sessions only where the provider is known to be open", 15)
	all := append(append([]string{}, providerOps...), "Clear")
	for _, p := range c.providers() {
		names := all
		if p.kind == "bolt" && p.m["Clear"] == nil {
			if fn := c.method(p, "Clear"); fn != nil {
				p.m["Clear"] = fn
			}
		}
		for _, op := range names {
			fn := p.m[op]
			if fn == nil {
				continue
			}
			r := c.run(fn)
			recv := recvOf(fn)
			for _, e := range r.en.events {
				if !p.stateEvent(e, recv) {
					continue
				}
				ep := e.Epoch
				if p.kind == "redis" {
					ep = nil
				}
				c.obx("gate", r, nil, e.Pos, e.Op, p.openAt(e.Facts, ep), "%s without knowing in this critical section that the provider is open", e)
			}
			r.exits(func(o *Outcome) {
				f := o.st.facts.m
				open, closed := p.closedFacts(f)
				class, t := c.errOf(o)
				clientClosed := false
				for k, v := range f {
					if v && k.Op == "eq" && (k.Args[0] == errGlobal(redisPkg+".ErrClosed") || k.Args[1] == errGlobal(redisPkg+".ErrClosed")) {
						clientClosed = true
					}
				}
				if len(closed) > 0 && len(open) == 0 {
					c.ob("closed-verdict", r, o, o.pos, class == "ErrProviderClosed", "the provider is closed but the result is %v", t)
				}
				if class == "ErrProviderClosed" {
					c.ob("open-verdict", r, o, o.pos, len(closed) > 0 || clientClosed, "ErrProviderClosed although nothing says the provider is closed")
				}
				if p.kind == "redis" && t != nil && class != "nil" {
					t.any(func(x *Term) bool {
						if x.Op == "cmderr" || x.Op == "errv" && (strings.HasPrefix(x.Aux, "watch@") || strings.HasPrefix(x.Aux, "(redis.") || strings.HasPrefix(x.Aux, "(*redis.")) {
							c.ob("overtaken", r, o, o.pos, class == "ErrProviderClosed" || tri(f, mkEq(x, errGlobal(redisPkg+".ErrClosed"))) == no, "returns %v even if the client is closed", t)
						}
						return false
					})
				}
				if len(open) == 0 && len(closed) == 0 {
					ok := class == "ErrTokenInvalid" || class == "ErrTokenIDNotMatched" || op == "Create" && deadOnArrival(f)
					c.obx("decided", r, o, o.pos, class, ok, "returns %v without looking whether the provider is closed", t)
				} else {
					c.obx("decided", r, o, o.pos, class, true, "")
				}
			})
		}
		// Close
		if fn := p.m["Close"]; fn != nil {
			r := c.run(fn)
			hasTicker := c.fieldOfType(p, "*time.Ticker")
			r.exits(func(o *Outcome) {
				class, t := c.errOf(o)
				f := o.st.facts.m
				open, closed := p.closedFacts(f)
				if class != "nil" {
					c.ob("close-again", r, o, o.pos, class == "ErrProviderClosed" && len(closed) > 0 || class == "ErrProviderClosed" && len(open) == 0 && false,
						"Close fails with %v on a provider not known to be closed", t)
					return
				}
				bad := ""
				stored, chans, stop := false, false, false
				for _, e := range o.st.log {
					switch e.Op {
					case "store", "atomicstore":
						a := e.Args[0]
						if a.Op == "faddr" && p.done[fieldKeyOf(a)] {
							excl := false
							for _, m := range e.Locks {
								if m == "W" {
									excl = true
								}
							}
							if !p.openAt(e.Facts, e.Epoch) && !p.openAt(e.Facts, nil) {
								bad = "the provider is marked closed without knowing it was open"
							}
							if !excl && !casDone(p, o) {
								bad = "the provider is marked closed outside an exclusive section"
							}
							if excl && !p.openAt(e.Facts, e.Epoch) {
								bad = "whether the provider is open was decided in another critical section"
							}
							if e.Args[1].isInt(0) || e.Args[1] == tFalse {
								bad = "the provider is marked open by Close"
							} else {
								stored = true
							}
						}
					case "close", "cancel":
						chans = true
					case "tickerstop":
						stop = true
					}
				}
				if bad == "" && !stored {
					bad = "success without marking the provider closed"
				}
				if bad == "" && !chans {
					bad = "success without telling the background tasks"
				}
				if bad == "" && hasTicker && !stop && !tickerNil(f) {
					bad = "success without stopping the ticker"
				}
				if bad == "" && len(open) == 0 {
					bad = "success without knowing the provider was open"
				}
				c.ob("close-once", r, o, o.pos, bad == "", "%s", bad)
			})
		}
		if p.kind == "redis" {
			continue // its task works through a client that is closed or kept by its owner
		}
		for _, w := range c.workersOf(p) {
			for _, e := range w.run.en.events {
				if p.stateEvent(e, nil) {
					c.obx("worker-gate", w.run, nil, e.Pos, e.Op, p.openAt(e.Facts, e.Epoch), "%s in a background task without knowing in this critical section that the provider is open", e)
				}
			}
		}
	}
}
func casDone(p *Prov, o *Outcome) bool {
	for _, e := range o.st.log {
		if e.Op == "atomicload" && e.Args[0].Op == "faddr" && p.done[fieldKeyOf(e.Args[0])] {
			for k, v := range o.st.facts.m {
				if v && k.Op == "eq" && (k.Args[0] == e.Res || k.Args[1] == e.Res) {
					return true
				}
			}
		}
	}
	return false
}
func tickerNil(f Facts) bool {
	for k, v := range f {
		if v && k.Op == "eq" && (k.Args[0] == tNil && typeStr(k.Args[1].Type) == "*time.Ticker" || k.Args[1] == tNil && typeStr(k.Args[0].Type) == "*time.Ticker") {
			return true
		}
	}
	return false
}

// deadOnArrival: the path has established that the lifetime of a new session is not positive.
func deadOnArrival(f Facts) bool {
	for k, v := range f {
		if k.Op != "lt" {
			continue
		}
		// what is known to be at least zero
		l := toLin(k.Args[0])
		l.addTerm(k.Args[1], -1)
		if v {
			l = toLin(k.Args[1])
			l.addTerm(k.Args[0], -1)
			l.c--
		}
		only := true
		for t, n := range l.m {
			only = only && (n == 0 || n == -1 && optLoad(t, "refresh"))
		}
		if only && len(l.m) == 1 && l.c <= 0 {
			return true
		}
	}
	return false
}

// tokid classes: the user ids known to be equal.
func sameID(f Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	ida, idb := mk("tokid", "", nil, a), mk("tokid", "", nil, b)
	return connected(f, ida, idb)
}

// connected: equal through a chain of known equalities.
func connected(f Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if tri(f, mkEq(a, b)) == yes {
		return true
	}
	seen := map[*Term]bool{a: true}
	work := []*Term{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		for k, v := range f {
			if !v || k.Op != "eq" {
				continue
			}
			var y *Term
			if k.Args[0] == x {
				y = k.Args[1]
			} else if k.Args[1] == x {
				y = k.Args[0]
			}
			if y == b {
				return true
			}
			if y != nil && !seen[y] && !y.isConst() {
				seen[y] = true
				work = append(work, y)
			}
		}
	}
	return false
}

// dataEvent: an effect that reads or changes the data of a session; whose session.
func (p *Prov) dataEvent(e *Event) (is bool, of func(s *Sess) bool) {
	switch p.kind {
	case "memory":
		switch e.Op {
		case "mapget", "mapset", "mapdel", "mapnext":
			m := e.Args[0]
			if isDataMap(m) && !isFresh(m) {
				return true, func(s *Sess) bool { return m.any(func(x *Term) bool { return rootKey(x) == s.root }) }
			}
		}
	case "bolt":
		if strings.HasPrefix(e.Op, "bolt.") && len(e.Args) > 0 {
			role, tok := bktRole(e.Args[0])
			if role == "session" {
				return true, func(s *Sess) bool { return strip(s.root.Args[1]) == tok }
			}
		}
	case "redis":
		n := strings.TrimPrefix(strings.TrimPrefix(e.Op, "redis."), "redisq.")
		if n == e.Op || !e.Ok {
			return false, nil
		}
		switch n {
		case "HGet", "HSet", "HMSet", "HDel", "HKeys", "HGetAll", "HVals", "HExists", "HLen", "HSetNX", "HIncrBy", "HScan", "HStrLen":
			if n == "HGet" && p.isMetaKey(e.Args[2]) {
				return false, nil
			}
			key := p.tokenOfKey(e.Args[1])
			return true, func(s *Sess) bool { return key != nil && p.tokenOfKey(s.root.Args[1]) == key }
		}
	}
	return false, nil
}

func c02(c *Ctx) {
	c.rule("success", "an operation on session data succeeds only for a session known to be stored, not dead and not expired", 15)
	c.rule("not-exists", "ErrTokenNotExists is reported only for a session known to be unknown or dead", 15)
	c.rule("expired", "ErrTokenExpired is reported only for a session known to be stored, not dead, and expired", 15)
	c.rule("refusal", "any other error is that of a failed step, a malformed token, a reserved key or a closed provider", 30)
	c.rule("data", "session data is read or changed only where the session is known to be live", 12)
	c.ops(allKinds, []string{"Check", "Put", "Get", "Keys", "Delete"}, func(p *Prov, op string, r *Run) {
		K := par(r.fn, 0)
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			ss := p.sessions(f, K)
			class, t := c.errOf(o)
			switch class {
			case "nil":
				c.ob("success", r, o, o.pos, some(ss, (*Sess).live), "%s succeeds without knowing that the session is stored, not dead and not expired", op)
			case "ErrTokenNotExists":
				c.ob("not-exists", r, o, o.pos, some(ss, (*Sess).absent), "a session that may be alive is reported as not existing")
			case "ErrTokenExpired":
				c.ob("expired", r, o, o.pos, some(ss, func(s *Sess) bool { return s.exists == yes && s.dead == no && s.expired == yes }),
					"a session is reported as expired without knowing that it is stored, not dead and past its access lifetime")
			case "ErrProviderClosed", "ErrTokenInvalid":
				c.obx("refusal", r, o, o.pos, class, true, "")
			default:
				ok := (failedStep(o) || reservedKey(p, f, r, 1) || shortReply(f)) && !unfounded(o, t)
				c.obx("refusal", r, o, o.pos, class, ok, "a request for a session that may be live is refused with %v", t)
			}
		})
		for _, e := range r.en.events {
			is, of := p.dataEvent(e)
			if !is {
				continue
			}
			ok := some(p.sessions(e.Facts, nil), func(s *Sess) bool { return of(s) && s.live() })
			c.obx("data", r, nil, e.Pos, e.Op, ok, "%s without knowing that the session is live", e)
		}
	})
	// the combined read of redis: what it hands out
	c.ops([]string{"redis"}, []string{"Get"}, func(p *Prov, op string, r *Run) {
		for _, e := range r.en.events {
			if e.Op != "store" || !e.Args[1].any(func(x *Term) bool { return x.Op == "cmdval" }) {
				continue
			}
			ok := some(p.sessions(e.Facts, par(r.fn, 0)), (*Sess).live)
			c.obx("data", r, nil, e.Pos, e.Op, ok, "%s hands out data without knowing that the session is live", e)
		}
	})
}

// unfounded: the error is only that something looked for is not there.
func unfounded(o *Outcome, t *Term) bool {
	if nilReply(o.st.facts.m, t) {
		return true
	}
	for _, e := range o.st.log {
		// what is not there is decoded
		if e.Op == "decode" && !e.Ok && len(e.Args) > 1 && e.Args[1].Op == "get" && tri(e.Facts, mkEq(e.Args[1], tNil)) != no {
			return true
		}
		// what was removed before is removed again
		if e.Op == "bolt.DeleteBucket" && !e.Ok && tri(e.Facts, mkEq(bucketTerm(e.Args[0], e.Args[1]), tNil)) == yes {
			return true
		}
	}
	return false
}

// nilReply: the error reported may be redis saying that there is no such
// field, which is an answer and not a failure.
func nilReply(f Facts, t *Term) bool {
	return t.any(func(x *Term) bool {
		return x.Op == "cmderr" && strings.HasPrefix(x.Args[0].Aux, "HGet@") && tri(f, mkEq(x, errGlobal(redisPkg+".Nil"))) != no
	})
}

// reservedKey: the path found that a key given by the caller is the metadata field.
func reservedKey(p *Prov, f Facts, r *Run, i int) bool {
	for k, v := range f {
		if v && k.Op == "eq" && (p.isMetaKey(k.Args[0]) || p.isMetaKey(k.Args[1])) {
			return true
		}
	}
	return false
}

// shortReply: redis answered another number of fields than asked for.
func shortReply(f Facts) bool {
	for k, v := range f {
		if k.Op == "eq" && !v || k.Op == "lt" {
			for i, a := range k.Args {
				if a.Op == "len" && a.Args[0].Op == "cmdval" {
					// against the number of fields
					if k.Args[1-i].any(func(x *Term) bool { return x.Op == "len" && x.Args[0].Op == "param" }) {
						return true
					}
				}
			}
		}
	}
	return false
}

// refreshIs: the refresh token stored with the session is known to be (yes) or
// not to be (no) tok.
func (s *Sess) refreshIs(f Facts, tok *Term, want int) bool {
	for k, v := range f {
		if k.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := k.Args[i], k.Args[1-i]
			if strip(y) != tok || !strings.EqualFold(fieldName(x), "refresh") || typeStr(x.Type) != "string" {
				continue
			}
			if x.any(func(z *Term) bool { return rootKey(z) == s.root }) && (v && want == yes || !v && want == no) {
				return true
			}
		}
	}
	return false
}

func c03(c *Ctx) {
	c.rule("success", "a refresh succeeds only for a stored session that is not dead, with exactly its refresh token, all four tokens carrying one id", 3)
	c.rule("not-exists", "ErrTokenNotExists is reported only for a session known to be unknown or dead", 3)
	c.rule("not-matched", "ErrRefreshTokenNotMatched is reported only when the refresh token differs from the one of a stored session that is not dead", 3)
	c.rule("id", "ErrTokenIDNotMatched is reported only when the ids of two of the tokens differ", 3)
	c.rule("refusal", "any other error is that of a failed step, a malformed token or a closed provider", 10)
	c.ops(allKinds, []string{"Refresh"}, func(p *Prov, op string, r *Run) {
		var toks []*Term
		for i := 0; i < 4; i++ {
			toks = append(toks, par(r.fn, i))
		}
		refreshTok := toks[1]
		stored := func(f Facts, s *Sess, want int) bool { return s.refreshIs(f, refreshTok, want) }
		r.exits(func(o *Outcome) {
			f := o.st.facts.m
			ss := p.sessions(f, toks[0])
			class, t := c.errOf(o)
			switch class {
			case "nil":
				ok := some(ss, func(s *Sess) bool { return s.exists == yes && s.dead == no && stored(f, s, yes) })
				c.ob("success", r, o, o.pos, ok, "a refresh succeeds without knowing that the session is stored, not dead, and has the presented refresh token")
				ids := true
				for _, x := range toks[1:] {
					ids = ids && sameID(f, toks[0], x)
				}
				c.ob("success", r, o, o.pos, ids, "a refresh succeeds although the ids of the four tokens need not be the same")
			case "ErrTokenNotExists":
				c.ob("not-exists", r, o, o.pos, some(ss, (*Sess).absent), "a session that may be alive is reported as not existing")
			case "ErrRefreshTokenNotMatched":
				ok := some(ss, func(s *Sess) bool { return s.exists == yes && s.dead == no && stored(f, s, no) })
				c.ob("not-matched", r, o, o.pos, ok, "a refresh token that may be right is refused")
			case "ErrTokenIDNotMatched":
				ok := false
				for k, v := range f {
					if !v && k.Op == "eq" && k.Args[0].Op == "tokid" && k.Args[1].Op == "tokid" && k.Args[0] != k.Args[1] {
						ok = true
					}
				}
				c.ob("id", r, o, o.pos, ok, "tokens are refused as of different ids although none are known to differ")
			case "ErrProviderClosed", "ErrTokenInvalid":
				c.obx("refusal", r, o, o.pos, class, true, "")
			default:
				c.obx("refusal", r, o, o.pos, class, failedStep(o) && !unfounded(o, t), "a refresh is refused with %v", t)
			}
		})
	})
}
