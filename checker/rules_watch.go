package main

// C21 (optimistic transactions of redis).

import (
	"strings"
)

func init() {
	props["C21"] = c21
}

// watching finds the beginning of the watch that the connection of a
// transaction is under: the last one before it in the log.
func watching(log []*Event, b *rbatch) (begin *Event, at, end int) {
	end = len(log)
	for i, e := range log {
		if e == b.exec {
			end = i
			break
		}
	}
	if len(b.pipe.Args) == 0 {
		return nil, 0, end
	}
	conn := b.pipe.Args[0]
	for i := end - 1; i >= 0; i-- {
		if e := log[i]; e.Op == "redis.watchbegin" && e.Ok && e.Res == conn {
			return e, i, end
		}
	}
	return nil, 0, end
}

func c21(c *Ctx) {
	c.rule("watched", "a change is applied by a transaction of a connection that watches the key of the session", 3)
	c.rule("examined", "when the change is applied, what makes it admissible has been read since the key is watched", 3)
	c.rule("based", "what is written and has been read, has been read since the key is watched", 3)
	c.rule("once", "nothing ends the watch before the transaction", 3)
	c.rule("applied", "success is reported only of a transaction that was executed", 3)
	c.ops([]string{"redis"}, []string{"Put", "Delete", "Refresh"}, func(p *Prov, op string, r *Run) {
		K := par(r.fn, 0)
		r.places(func(o *Outcome, f Facts, log, evs []*Event) {
			bs, direct := p.batches(log)
			for _, e := range direct {
				switch redisCmd(e) {
				case "Del", "Unlink":
					// of a session found dead
					ss := p.sessions(f, K)
					ok := some(ss, func(s *Sess) bool { return s.dead == yes || s.exists == no })
					c.obx("watched", r, o, e.Pos, op, ok, "%s is not part of a transaction", e.Op)
				case "watchbegin", "watchend", "Watch", "Unwatch":
				default:
					c.obx("watched", r, o, e.Pos, op, false, "%s is not part of a transaction", e.Op)
				}
			}
			for _, b := range bs {
				q := r.queued(log, b)
				changes := false
				for _, e := range q {
					if rwrite(redisCmd(e)) {
						changes = true
					}
				}
				if !changes {
					continue
				}
				begin, at, end := watching(log, b)
				why := ""
				switch {
				case !strings.HasPrefix(b.pipe.Aux, "TxPipeline"):
					why = "the commands are not a transaction"
				case begin == nil:
					why = "the transaction is not of a connection that watches a key"
				default:
					why = "another key is watched"
					for _, k := range begin.Args[1:] {
						if p.tokenOfKey(k) == K {
							why = ""
						}
					}
				}
				c.obx("watched", r, o, b.exec.Pos, op, why == "", "%s", why)
				if why != "" {
					continue
				}
				// read since
				since := map[*Term]bool{}
				cut := ""
				for _, e := range log[at:end] {
					if strings.HasPrefix(e.Op, "redis.") && e.Res != nil {
						since[e.Res] = true
					}
					switch {
					case e.Op == "redis.Exec" && sameConn(e.Args[0], begin.Res):
						cut = "another transaction of the connection"
					case e.Op == "redis.Unwatch", e.Op == "redis.watchend":
						cut = e.Op
					case e.Op == "redis.Discard" && sameConn(e.Args[0], begin.Res):
						cut = "a transaction given up"
					}
				}
				for _, l := range b.exec.Loop {
					in := false
					for _, m := range begin.Loop {
						in = in || l == m
					}
					if !in {
						cut = "an earlier attempt in the loop"
					}
				}
				for _, e := range log[at:end] {
					if e.Op != "loop.done" && e.Op != "loop.break" {
						continue
					}
					if li := r.loopOf(e); li != nil {
						for _, it := range li.iters {
							for _, x := range it.events {
								if x.Op == "redis.Exec" && sameConn(x.Args[0], begin.Res) {
									cut = "an earlier attempt in the loop"
								}
							}
						}
					}
				}
				c.obx("once", r, o, b.exec.Pos, op, cut == "", "the watch is ended by %s", cut)
				known := some(p.sessions(f, K), func(s *Sess) bool {
					if !since[s.root] || s.exists != yes || s.dead != no {
						return false
					}
					if op == "Refresh" {
						return s.refreshIs(f, par(r.fn, 1), yes)
					}
					return s.expired == no
				})
				c.obx("examined", r, o, b.exec.Pos, op, known, "what is known of the session was read before its key is watched, or is too little")
				var old *Term
				for _, e := range q {
					for _, a := range e.Args[1:] {
						a.any(func(x *Term) bool {
							if x.Op == "cmdval" && !since[x.Args[0]] {
								old = x
							}
							return false
						})
					}
				}
				c.obx("based", r, o, b.exec.Pos, op, old == nil, "what is written was read before the key is watched: %s", old)
			}
		})
		r.exits(func(o *Outcome) {
			if class, _ := c.errOf(o); class != "nil" {
				return
			}
			var last *Event
			for _, e := range o.st.log {
				if e.Op == "redis.Exec" {
					last = e
				}
			}
			if last == nil {
				// nothing to do, see C27 and C03
				return
			}
			c.ob("applied", r, o, o.pos, last.Ok, "success is reported although the transaction failed")
		})
	})
}

// sameConn: the pipe is of the connection.
func sameConn(pipe, conn *Term) bool {
	return pipe != nil && len(pipe.Args) > 0 && pipe.Args[0] == conn
}
