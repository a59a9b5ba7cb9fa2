package main

// C20 (redis keys).

import (
	"go/types"
	"strings"
)

func init() {
	props["C20"] = c20
}

// redisKeys: the arguments of a redis command that are keys. known is false for
// a command whose keys are not known.
func redisKeys(e *Event) (keys []*Term, known bool) {
	m := redisCmd(e)
	switch m {
	case "", "Exec", "Discard", "pipeClose", "Close", "NewClient", "ParseURL", "watchend", "Ping", "Keys", "Scan", "TxPipeline", "Pipeline":
		return nil, true
	case "Rename", "RenameNX", "Copy":
		if len(e.Args) < 3 {
			return nil, false
		}
		return e.Args[1:3], true
	case "Del", "Unlink", "Exists", "Watch", "watchbegin", "Touch":
		return e.Args[1:], true
	case "HSet", "HMSet", "HSetNX", "HIncrBy", "HIncrByFloat", "HGet", "HMGet", "HDel", "HExists", "HKeys", "HGetAll", "HVals", "HScan", "HLen", "HStrLen", "HRandField",
		"Expire", "ExpireAt", "PExpire", "PExpireAt", "ExpireNX", "ExpireXX", "ExpireGT", "ExpireLT", "Persist", "TTL", "PTTL", "Type", "Get", "Set", "SetEX", "SetNX", "GetDel", "Dump":
		if len(e.Args) < 2 {
			return nil, false
		}
		return e.Args[1:2], true
	}
	return nil, false
}

// queue is what is put into a channel of a provider.
type queue struct {
	r   *Run
	op  string
	o   *Outcome
	val *Term
}

// chanField: the field of the provider that holds channel t.
func chanField(t *Term) string {
	if t.Op == "load" && t.Args[0].Op == "faddr" {
		return fieldKeyOf(t.Args[0])
	}
	return ""
}

// keyClass tells what redis terms are made of: "key" for the prefix and a whole
// access token, "token" for an access token.
type keyClass struct {
	p     *Prov
	sends map[string][]queue
	busy  map[*Term]bool
}

func (c *Ctx) keyClass(p *Prov) *keyClass {
	k := &keyClass{p: p, sends: map[string][]queue{}, busy: map[*Term]bool{}}
	c.allRuns(p, func(op string, r *Run, worker bool) {
		for _, e := range r.en.events {
			ch, v := e.sent()
			if ch == nil {
				continue
			}
			f := chanField(ch)
			if f == "" {
				continue
			}
			k.sends[f] = append(k.sends[f], queue{r: r, op: op, val: v})
		}
	})
	return k
}

// sent: the event puts a value into a channel.
func (e *Event) sent() (ch, v *Term) {
	switch e.Op {
	case "send":
		return e.Args[0], e.Args[1]
	case "select", "selectnb":
		i, ok := e.Args[0].intVal()
		if !ok || int(i)+1 >= len(e.Args) || i < 0 {
			return nil, nil
		}
		cs := e.Args[i+1]
		if cs.Op != "case" || cs.Aux != "send" {
			return nil, nil
		}
		for _, a := range e.Args[1:] {
			if a.Op == "sent" {
				return cs.Args[0], a.Args[0]
			}
		}
	}
	return nil, nil
}

func (k *keyClass) of(op string, r *Run, log []*Event, x *Term) string {
	x = unold(strip(x))
	if k.busy[x] {
		return ""
	}
	k.busy[x] = true
	defer delete(k.busy, x)
	if t := k.p.tokenOfKey(x); t != nil {
		if k.of(op, r, log, t) == "token" {
			return "key"
		}
		return ""
	}
	switch x.Op {
	case "param":
		n := 1
		if op == "Refresh" {
			n = 3
		}
		for i := 0; i < n && op != "Destroy" && op != ""; i += 2 {
			if par(r.fn, i) == x {
				return "token"
			}
		}
	case "recv":
		f := chanField(x.Args[len(x.Args)-1])
		class := ""
		for i, q := range k.sends[f] {
			got := k.of(q.op, q.r, nil, q.val)
			if i > 0 && got != class {
				return ""
			}
			class = got
		}
		return class
	case "mkey":
		class, n := "", 0
		maps := r.origins(x.Args[0])
		for m := range maps {
			if m.Op != "makemap" {
				return ""
			}
		}
		for _, e := range r.en.events {
			if e.Op != "mapset" {
				continue
			}
			for m := range r.origins(e.Args[0]) {
				if !maps[m] {
					continue
				}
				got := k.of(op, r, log, e.Args[1])
				if n > 0 && got != class {
					return ""
				}
				class = got
				n++
				break
			}
		}
		return class
	case "elem":
		return k.list(op, r, log, x.Args[0])
	}
	return ""
}

// origins: what a value that loops pass on can be, their earlier iterations
// included.
func (r *Run) origins(t *Term) map[*Term]bool {
	seen, out := map[*Term]bool{}, map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		x = unold(x)
		if seen[x] {
			return
		}
		seen[x] = true
		known := false
		for _, li := range r.en.loops {
			for y := range li.init[x] {
				known = true
				walk(y)
			}
			for y := range li.contrib[x] {
				known = true
				walk(y)
			}
		}
		if !known {
			out[x] = true
		}
	}
	walk(t)
	return out
}

// grown: every element a list that is only appended to and cut off can have;
// nil stands for one that is not known.
func (r *Run) grown(l *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(l *Term)
	walk = func(l *Term) {
		l = unold(l)
		if l.Op == "spread" || l.Op == "slice" {
			walk(l.Args[0])
			return
		}
		for x := range r.origins(l) {
			if seen[x] {
				continue
			}
			seen[x] = true
			switch {
			case emptyList(x):
			case x.Op == "seq":
				for _, a := range x.Args {
					if a.Op == "spread" {
						walk(a)
					} else {
						out = append(out, a)
					}
				}
			case x.Op == "slice":
				walk(x)
			default:
				out = append(out, nil)
			}
		}
	}
	walk(l)
	// and nothing is put in their place
	for _, e := range r.en.events {
		if e.Op == "store" && e.Args[0].Op == "idx" {
			for x := range r.origins(e.Args[0].Args[0]) {
				if seen[x] {
					out = append(out, nil)
				}
			}
		}
	}
	return
}

// list: what the elements of a list are.
func (k *keyClass) list(op string, r *Run, log []*Event, l *Term) string {
	if l.Op == "spread" {
		l = l.Args[0]
	}
	if op == "Destroy" && k.p.foundKeys(l, par(r.fn, 0)) != nil {
		return "key"
	}
	class, n := "", 0
	add := func(x *Term) bool {
		got := k.of(op, r, log, x)
		if n > 0 && got != class {
			class = ""
			return false
		}
		class = got
		n++
		return true
	}
	if l.Op == "seq" {
		for _, a := range l.Args {
			if a.Op == "spread" {
				got := k.list(op, r, log, a.Args[0])
				if n > 0 && got != class {
					return ""
				}
				class = got
				n++
			} else if !add(a) {
				return ""
			}
		}
		return class
	}
	c := r.chunksOf(log, l)
	if c == nil {
		// whatever was ever appended
		for _, x := range r.grown(l) {
			if x == nil || !add(x) {
				return ""
			}
		}
		return class
	}
	for _, x := range c.head {
		if !add(x) {
			return ""
		}
	}
	for _, ch := range c.chunks {
		for _, x := range ch.added {
			if x == nil || !add(x) {
				return ""
			}
		}
	}
	return class
}

// keyState is what a batch makes of a key.
type keyState struct {
	made  bool
	exp   *Term // when it expires, nil: not known to
	rec   *Term // the record it holds, nil: the one it held
	token *Term // the session whose record it held
	where *Event
}

// queued: the commands of a batch, those of the loops gone through included.
func (r *Run) queued(log []*Event, b *rbatch) (out []*Event) {
	own := map[*Event]bool{}
	for _, e := range b.evs {
		own[e] = true
	}
	for _, e := range log {
		if own[e] {
			out = append(out, e)
		}
		if e == b.exec {
			break
		}
		if e.Op == "loop.done" || e.Op == "loop.break" {
			if li := r.loopOf(e); li != nil {
				for _, it := range li.iters {
					for _, x := range it.events {
						if strings.HasPrefix(x.Op, "redisq.") && len(x.Args) > 0 && x.Args[0] == b.pipe && !own[x] {
							out = append(out, x)
						}
					}
				}
			}
		}
	}
	return
}

// expiries follows the keys through the commands of a batch.
func (p *Prov) expiries(r *Run, log []*Event, b *rbatch) map[*Term]*keyState {
	out := map[*Term]*keyState{}
	get := func(k *Term) *keyState {
		k = strip(k)
		s := out[k]
		if s == nil {
			s = &keyState{token: p.tokenOfKey(k)}
			out[k] = s
		}
		return s
	}
	for _, e := range r.queued(log, b) {
		m := redisCmd(e)
		keys, known := redisKeys(e)
		if !known || len(keys) == 0 {
			continue
		}
		switch m {
		case "Del", "Unlink":
			for _, k := range keys {
				s := get(k)
				s.made, s.exp = false, nil
			}
		case "Exists", "HGet", "HMGet", "HDel", "HExists", "HKeys", "HGetAll", "HVals", "HLen", "TTL", "PTTL", "Type", "Touch":
		case "Rename", "RenameNX":
			s := get(keys[0])
			n := *s
			n.made, n.where = true, e
			*s = keyState{token: s.token}
			out[strip(keys[1])] = &n
		case "ExpireAt", "PExpireAt":
			s := get(keys[0])
			s.exp = e.Args[2]
		case "Expire", "PExpire":
			s := get(keys[0])
			s.exp = mkAdd(tNow, e.Args[2], 1, tNow.Type)
		case "Persist", "ExpireNX", "ExpireXX", "ExpireGT", "ExpireLT":
			get(keys[0]).exp = nil
		default:
			s := get(keys[len(keys)-1])
			if !s.made {
				s.exp = nil
			}
			s.made, s.where = true, e
			if m == "HSet" || m == "HMSet" {
				if v := p.metaOf(r, log, e); v != nil {
					if x := encodedStruct(v); x != nil {
						s.rec = x
					}
				}
			}
		}
	}
	return out
}

// lateEnough: the expiry is not before the end of the refresh lifetime of the
// session whose record the key holds.
func (p *Prov) lateEnough(s *keyState) bool {
	if s.exp == nil {
		return false
	}
	notBefore := func(d *Term) bool {
		l := toLin(s.exp)
		l.addTerm(d, -1)
		n, ok := l.term(types.Typ[types.Int]).intVal()
		return ok && n >= 0
	}
	if s.rec != nil {
		if d := structRoles(s.rec)["refreshEnd"]; d != nil {
			return notBefore(d)
		}
		return false
	}
	// its own record, or a whole lifetime from now
	ok := false
	for _, a := range append(linTerms(s.exp), s.exp) {
		if deadline(a) == "refresh" && p.redisHolder(a) == s.token && s.token != nil && notBefore(a) {
			ok = true
		}
		if optLoad(a, "refresh") && notBefore(mkAdd(tNow, a, 1, tNow.Type)) {
			ok = true
		}
	}
	return ok
}

// linTerms: the summands of a term.
func linTerms(t *Term) (out []*Term) {
	for x := range toLin(t).m {
		out = append(out, x)
	}
	return
}

// redisHolder: the session whose stored record t is a field of.
func (p *Prov) redisHolder(t *Term) *Term {
	h := holder(t)
	if h == nil || h.Op != "decoded" {
		return nil
	}
	var tok *Term
	h.Args[1].any(func(x *Term) bool {
		if x.Op == "cmd" && len(x.Args) > 2 && tok == nil {
			tok = p.tokenOfKey(x.Args[1])
		}
		return false
	})
	return tok
}

func c20(c *Ctx) {
	c.rule("key", "each key handed to redis is the configured prefix followed by the whole access token", 10)
	c.rule("queue", "what is queued for removal is taken for what it is: a whole key, or a token", 0)
	c.rule("atomic", "whatever can create a key is part of a transaction", 3)
	c.rule("expiry", "the transaction gives each key it can create an expiry no earlier than the end of the refresh lifetime of the session stored in it", 3)
	c.rule("pattern", "keys are searched by the literal prefix and id", 1)
	for _, p := range c.providers() {
		if p.kind != "redis" {
			continue
		}
		k := c.keyClass(p)
		for _, qs := range k.sends {
			for _, q := range qs {
				class := k.of(q.op, q.r, nil, q.val)
				c.obx("queue", q.r, nil, q.r.fn.Pos(), q.op+" "+q.val.String(), class != "", "%s is queued", q.val)
			}
		}
		c.allRuns(p, func(op string, r *Run, worker bool) {
			if worker {
				op = ""
			}
			r.places(func(o *Outcome, f Facts, log, evs []*Event) {
				for _, e := range evs {
					keys, known := redisKeys(e)
					if !known {
						c.obx("key", r, o, e.Pos, op, false, "the keys of %s are not known", e.Op)
						continue
					}
					for _, x := range keys {
						ok := false
						switch {
						case x == tNil, x.Op == "spread", x.Op == "W", x.Type != nil && typeStr(x.Type) == "[]string":
							ok = emptyList(x) || k.list(op, r, log, x) == "key"
						default:
							ok = k.of(op, r, log, x) == "key"
						}
						c.obx("key", r, o, e.Pos, op+" "+e.Op, ok, "the key %s is not the prefix followed by the access token", x)
					}
					switch redisCmd(e) {
					case "Keys":
						lits, ok := globLiteral(e.Args[len(e.Args)-1])
						ok = ok && op == "Destroy" && len(lits) >= 2 && optLoad(lits[0], "keyPrefix") && lits[1] == par(r.fn, 0)
						c.obx("pattern", r, o, e.Pos, op, ok, "the pattern is %s", e.Args[len(e.Args)-1])
					case "Scan", "FlushDB", "FlushAll":
						c.obx("pattern", r, o, e.Pos, op, false, "keys are found by %s", e.Op)
					}
				}
				bs, direct := p.batches(log)
				for _, e := range direct {
					switch redisCmd(e) {
					case "Del", "Unlink", "HDel", "Expire", "ExpireAt", "PExpire", "PExpireAt", "Touch", "watchbegin", "watchend", "Watch":
					default:
						c.obx("atomic", r, o, e.Pos, op, false, "%s is not part of a transaction", e.Op)
					}
				}
				for _, b := range bs {
					tx := strings.HasPrefix(b.pipe.Aux, "TxPipeline")
					for key, s := range p.expiries(r, log, b) {
						if !s.made {
							continue
						}
						c.obx("atomic", r, o, s.where.Pos, op, tx, "the commands of %s are not one transaction", b.pipe)
						c.obx("expiry", r, o, s.where.Pos, op+" "+key.String(), p.lateEnough(s), "the key %s is given the expiry %s", key, s.exp)
					}
				}
			})
		})
	}
}
