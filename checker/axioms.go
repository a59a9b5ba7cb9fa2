package main

import (
	"go/types"
	"strings"
)

// The representation invariant of the bolt store, assumed when a transaction
// (or an iteration of a loop in one) starts and proved again for what every
// path of every operation leaves behind (rules of C06 and C07):
//
//   - the store has the buckets "metadata", "data", "ids" and "lru",
//   - a token with metadata has a data bucket, a non-zero place in the lru
//     order, is listed under its id, and is counted in "count",
//   - the id in the metadata is the id in the token,
//   - the tokens in the lru order have metadata.
//
// And of the memory store, when the lock is taken: a session in the table or in
// the order is listed under the id in its record.

const (
	roleMD    = "metadata"
	roleData  = "data"
	roleIDS   = "ids"
	roleLRU   = "lru"
	roleCount = "count"
)

// bucketRole tells the part a bucket has in the store: "store" for the bucket
// of the provider itself.
func bucketRole(b *Term) string {
	if b == nil || b.Op != "bucket" {
		return ""
	}
	p := b.Args[0]
	if p.Op == "tx" {
		return "store"
	}
	if p.Op == "bucket" && p.Args[0].Op == "tx" {
		if s, ok := b.Args[1].strVal(); ok {
			switch s {
			case roleMD, roleData, roleIDS, roleLRU:
				return s
			}
		}
		return ""
	}
	if bucketRole(p) == roleData {
		return "session"
	}
	return ""
}

// mdOf returns the key of the metadata record a term was decoded from.
func mdRecord(t *Term) *Term {
	if t == nil || t.Op != "decoded" {
		return nil
	}
	g := strip(t.Args[len(t.Args)-1])
	if g.Op == "get" && bucketRole(g.Args[0]) == roleMD {
		return g
	}
	return nil
}
func mdField(t *Term) *Term {
	if t == nil || t.Op != "field" || len(t.Args) == 0 {
		return nil
	}
	return mdRecord(t.Args[0])
}

// mdKnown: some metadata record of the store is known to exist.
func mdKnown(f map[*Term]bool, store *Term, key *Term) bool {
	for k, v := range f {
		if v || k.Op != "eq" {
			continue
		}
		g := k.Args[0]
		if g == tNil {
			g = k.Args[1]
		} else if k.Args[1] != tNil {
			continue
		}
		if g.Op == "get" && bucketRole(g.Args[0]) == roleMD && g.Args[0].Args[0] == store && (key == nil || g.Args[1] == key) {
			return true
		}
	}
	return false
}

// axiomNil decides x == nil.
func axiomNil(f map[*Term]bool, x *Term) (known, val bool) {
	switch x.Op {
	case "lookup":
		if axiomListed(f, x) {
			return true, false
		}
	case "bucket":
		if f[tMaking] {
			return false, false
		}
		p := x.Args[0]
		switch bucketRole(x) {
		case "store", roleMD, roleData, roleIDS, roleLRU:
			return true, false
		}
		if bucketRole(p) == roleData && mdKnown(f, p.Args[0], x.Args[1]) {
			return true, false
		}
	case "get":
		b := x.Args[0]
		if bucketRole(b) == roleIDS {
			if g := mdField(x.Args[1]); g != nil {
				return true, false
			}
		}
		if bucketRole(b) == roleMD {
			if k := x.Args[1]; k.Op == "cval" && k.Args[0].any(func(y *Term) bool { return y.Op == "ckey" && bucketRole(y.arg(0)) == roleLRU }) {
				return true, false
			}
		}
		if bucketRole(b) == "store" {
			if s, ok := x.Args[1].strVal(); ok && s == roleCount && mdKnown(f, b, nil) {
				return true, false
			}
		}
	}
	return false, false
}

// axiomZero decides x == 0.
func axiomZero(f map[*Term]bool, x *Term) (known, val bool) {
	switch x.Op {
	case "unbe64":
		g := strip(x.Args[0])
		if g.Op == "get" && bucketRole(g.Args[0]) == "store" && mdKnown(f, g.Args[0], nil) {
			return true, false
		}
	case "field":
		if b, ok := x.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && mdRecord(x.Args[0]) != nil {
			return true, false
		}
	}
	return false, false
}

// axiomID decides tokid(K) == the id in the metadata of K.
func axiomID(a, b *Term) bool {
	if a.Op != "tokid" {
		a, b = b, a
	}
	if a.Op != "tokid" || b.Op != "field" || b.Aux != "ID" {
		return false
	}
	g := mdField(b)
	return g != nil && strip(g.Args[1]) == strip(a.Args[0])
}

// axiomListed: L is the list of the user of a stored session, so it has entries.
func axiomListed(f map[*Term]bool, L *Term) bool {
	return L.Op == "lookup" && isIDs(L.Args[0]) && axiomUser(f, L)
}

// axiomStored: the key of a look into the sessions is the token in the record
// at an end of the age order. Both are as they were when the lock was taken, or
// at the start of the same iteration.
func axiomStored(L *Term) bool {
	X := strip(L.Args[1])
	if X.Op != "load" && X.Op != "field" || roleName(X) != "access" {
		return false
	}
	e := eleOf(holder(X))
	if e == nil || e.Op != "listfront" && e.Op != "listback" || len(e.Args) < 2 {
		return false
	}
	v := e.Args[1]
	switch {
	case len(L.Args) == 2:
		return v.Op != "W"
	case L.Args[2].Op == "W":
		return v.Op == "W" && strings.SplitN(L.Args[2].Aux, ".map:", 2)[0] == strings.SplitN(v.Aux, ".ver:", 2)[0]
	}
	return false
}

// axiomUser: the key of a look into the lists of users is the id in the record
// of a stored session. Both are as they were when the lock was taken, or at the
// start of the same iteration.
func axiomUser(f map[*Term]bool, L *Term) bool {
	X := strip(L.Args[1])
	if X.Op != "load" && X.Op != "field" || roleName(X) != "id" {
		return false
	}
	e := eleOf(holder(X))
	if e == nil {
		return false
	}
	at := func(t *Term) string {
		switch {
		case len(t.Args) == 2:
			return "start"
		case t.Args[2].Op == "W":
			return strings.SplitN(t.Args[2].Aux, ".map:", 2)[0]
		}
		return ""
	}
	if e.Op == "lookup" {
		return isTokens(e.Args[0]) && at(L) != "" && at(e) == at(L) && f[mk("has", "", nil, e.Args...)]
	}
	return at(L) == "start" && (e.Op == "listfront" || e.Op == "listback")
}
