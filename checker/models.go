package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Errorf": true, "errors.New": true, "errors.Unwrap": true,
	"(*encoding/base64.Encoding).EncodeToString": true, "(*encoding/base64.Encoding).DecodeString": true,
	"(encoding/base64.Encoding).WithPadding": true, "encoding/hex.EncodeToString": true, "encoding/hex.DecodeString": true,
	"bytes.Equal": true, "bytes.Compare": true, "bytes.HasPrefix": true,
	"(crypto.Hash).Available": true, "(crypto.Hash).String": true, "(crypto.Hash).Size": true,
	"context.Background": true, "context.TODO": true,
	"(context.Context).Done": true, "(context.Context).Err": true,
	"crypto/subtle.ConstantTimeCompare": true,
	"(*strings.Replacer).Replace":       true,
	"strings.ReplaceAll":                true,
	"(time.Duration).Seconds":           true, "(time.Duration).String": true,
	"(error).Error": true, "strconv.Itoa": true,
}

// format: the text of a format string that only puts strings together.
func (en *Engine) format(st *State, a []*Term) *Term {
	f, ok := a[0].strVal()
	if !ok || len(a) < 2 {
		return nil
	}
	l := en.snap(st, a[1])
	if l.Op != "seq" || seqHasSpread(l) {
		return nil
	}
	var parts []*Term
	n := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, mkStr(f))
			break
		}
		parts = append(parts, mkStr(f[:i]))
		if i+1 == len(f) {
			return nil
		}
		switch f[i+1] {
		case '%':
			parts = append(parts, mkStr("%"))
		case 's', 'v':
			if n == len(l.Args) {
				return nil
			}
			x := unwrapIface(l.Args[n])
			if !isString(x.Type) {
				return nil
			}
			parts = append(parts, x)
			n++
		default:
			return nil
		}
		f = f[i+2:]
	}
	if n != len(l.Args) {
		return nil
	}
	return mkCat(parts...)
}
func isString(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

const redisPkg = "github.com/go-redis/redis/v8"
const boltPkg = "github.com/boltdb/bolt"

func (c *callCtx) external() []Outcome {
	en, st := c.en, c.st
	name := c.name
	a := c.args
	rt := func(i int) types.Type { return c.sig.Results().At(i).Type() }
	if strings.Contains(name, "sync/atomic.") {
		en.atomic = true
		defer func() { en.atomic = false }()
	}
	switch name {
	case "time.Now":
		return c.ret(tNow)
	case "(time.Time).After":
		return c.ret(mkLt(a[1], a[0]))
	case "(time.Time).Before":
		return c.ret(mkLt(a[0], a[1]))
	case "(time.Time).Equal":
		return c.ret(mkEq(a[0], a[1]))
	case "(time.Time).Add":
		return c.ret(mkAdd(a[0], a[1], 1, rt(0)))
	case "(time.Time).Sub", "(time.Time).Compare":
		return c.ret(mkAdd(a[0], a[1], -1, rt(0)))
	case "time.Until":
		return c.ret(mkAdd(a[0], tNow, -1, rt(0)))
	case "time.Since":
		return c.ret(mkAdd(tNow, a[0], -1, rt(0)))
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
		return c.ret(a[0])
	case "errors.Is":
		return c.ret(mkEq(a[0], a[1]))
	case "(error).Error":
		return c.ret(mk("call", "error.Error", rt(0), a[0]))
	case "errors.New":
		return c.ret(mk("call", "errors.New", rt(0), append([]*Term{mk("at", siteStr(c.fr, c.instr), nil)}, a...)...))
	case "fmt.Errorf":
		return c.ret(mk("call", "fmt.Errorf", rt(0), c.snaps(a)...))
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return c.lock(a[0], "W")
	case "(*sync.RWMutex).RLock":
		return c.lock(a[0], "R")
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return c.unlock(a[0], "W")
	case "(*sync.RWMutex).RUnlock":
		return c.unlock(a[0], "R")
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		o := st.clone()
		r := c.lock(a[0], "W")
		for i := range r {
			r[i].res = []*Term{tTrue}
		}
		return append(r, Outcome{st: o, res: []*Term{tFalse}})
	case "sync/atomic.LoadUint32", "sync/atomic.LoadInt32", "sync/atomic.LoadUint64", "sync/atomic.LoadInt64",
		"(*sync/atomic.Uint32).Load", "(*sync/atomic.Int32).Load", "(*sync/atomic.Bool).Load":
		v := en.load(st, atomicAddr(a[0]), rt(0))
		c.emit(st, "atomicload", true, v, a[0])
		return c.ret(v)
	case "sync/atomic.StoreUint32", "sync/atomic.StoreInt32", "sync/atomic.StoreUint64", "sync/atomic.StoreInt64",
		"(*sync/atomic.Uint32).Store", "(*sync/atomic.Int32).Store", "(*sync/atomic.Bool).Store":
		c.atomicStore(a[0], a[1])
		return c.ret()
	case "sync/atomic.CompareAndSwapUint32", "sync/atomic.CompareAndSwapInt32",
		"(*sync/atomic.Uint32).CompareAndSwap", "(*sync/atomic.Int32).CompareAndSwap", "(*sync/atomic.Bool).CompareAndSwap":
		v := en.load(st, atomicAddr(a[0]), a[1].Type)
		c.emit(st, "atomicload", true, v, a[0])
		o := st.clone()
		var out []Outcome
		if st.assume(mkEq(v, a[1]), true) {
			c.atomicStore(a[0], a[2])
			out = append(out, Outcome{st: st, res: []*Term{tTrue}})
		}
		if o.assume(mkEq(v, a[1]), false) {
			out = append(out, Outcome{st: o, res: []*Term{tFalse}})
		}
		return out
	case "sync/atomic.SwapUint32", "sync/atomic.SwapInt32", "(*sync/atomic.Uint32).Swap", "(*sync/atomic.Bool).Swap", "(*sync/atomic.Int32).Swap":
		v := en.load(st, atomicAddr(a[0]), rt(0))
		c.emit(st, "atomicload", true, v, a[0])
		c.atomicStore(a[0], a[1])
		return c.ret(v)
	case "time.NewTicker", "time.NewTimer":
		if strings.HasSuffix(name, "Ticker") {
			en.risk(st, c.fr, c.instr, "period", a[0])
		}
		t := c.genr("obj", "ticker", a...)
		c.emit(st, "newticker", true, t, a...)
		return c.ret(t)
	case "(*time.Ticker).Stop", "(*time.Timer).Stop":
		c.emit(st, "tickerstop", true, nil, a[0])
		if c.sig.Results().Len() > 0 {
			return c.ret(c.genr("res", "0"))
		}
		return c.ret()
	case "time.Sleep":
		c.emit(st, "sleep", true, nil, a...)
		return c.ret()
	case "context.WithCancel":
		ctx := c.gen("obj", "ctx", rt(0))
		return c.ret(ctx, mk("cancelfn", "", rt(1), ctx))
	case "github.com/google/uuid.NewUUID", "github.com/google/uuid.NewRandom":
		return c.fallible("uuid", nil, func(s *State) []*Term { return []*Term{en.gen(s, c.fr, c.instr, "obj", "uuid", rt(0))} }, 2)
	case "crypto/rand.Read":
		for _, x := range a {
			c.havoc(x)
		}
		return c.fallible("rand", nil, func(s *State) []*Term {
			return []*Term{en.gen(s, c.fr, c.instr, "res", "n", rt(0))}
		}, 2)
	case "(encoding/binary.bigEndian).PutUint64", "(encoding/binary.littleEndian).PutUint64":
		b := a[1]
		if b.Op == "asl" {
			b = b.Args[0]
		}
		op := "be64"
		if strings.Contains(name, "little") {
			op = "le64"
		}
		st.heap.set(content(b), mk(op, "", nil, a[2]))
		st.heap.set(dirty(b), tTrue)
		return c.ret()
	case "(encoding/binary.bigEndian).AppendUint64":
		if b := en.snap(st, a[1]); b == tNil || b.Op == "seq" && len(b.Args) == 0 {
			return c.ret(mk("be64", "", nil, a[2]))
		}
		return c.generic()
	case "(encoding/binary.bigEndian).Uint64", "(encoding/binary.littleEndian).Uint64":
		b := strip(en.snap(st, a[1]))
		op := "be64"
		if strings.Contains(name, "little") {
			op = "le64"
		}
		if b.Op == op {
			return c.ret(b.Args[0])
		}
		en.risk(st, c.fr, c.instr, "short", b)
		return c.ret(mk("un"+op, "", rt(0), b))
	case "encoding/gob.NewEncoder", "encoding/json.NewEncoder", "encoding/xml.NewEncoder":
		return c.ret(mk("encoder", strings.Split(name, ".")[0], rt(0), unwrapIface(a[0])))
	case "encoding/gob.NewDecoder", "encoding/json.NewDecoder", "encoding/xml.NewDecoder":
		return c.ret(mk("decoder", strings.Split(name, ".")[0], rt(0), unwrapIface(a[0])))
	case "(*encoding/gob.Encoder).Encode", "(*encoding/json.Encoder).Encode", "(*encoding/xml.Encoder).Encode":
		codec := mk("codec", pkgOf(name), nil)
		v := en.snap(st, a[1])
		w := a[0].arg(0)
		return c.fallible("encode", []*Term{codec, v}, func(s *State) []*Term {
			old, ok := s.heap.m[content(w)]
			x := mk("encoded", "", nil, codec, v)
			if ok && !(old.Op == "seq" && len(old.Args) == 0) {
				x = mk("seq", "", nil, mkSpread(old), mkSpread(x))
			}
			s.heap.set(content(w), x)
			return nil
		}, 1)
	case "(*encoding/gob.Decoder).Decode", "(*encoding/json.Decoder).Decode", "(*encoding/xml.Decoder).Decode":
		r := a[0].arg(0)
		b, ok := st.heap.m[content(r)]
		if !ok {
			b = mk("contentof", "", nil, r)
		}
		return c.decode(mk("codec", pkgOf(name), nil), b, a[1])
	case "encoding/json.Marshal", "encoding/xml.Marshal":
		codec := mk("codec", pkgOf(name), nil)
		v := en.snap(st, a[0])
		return c.fallible("encode", []*Term{codec, v}, func(s *State) []*Term { return []*Term{mk("encoded", "", rt(0), codec, v)} }, 2)
	case "encoding/json.Unmarshal", "encoding/xml.Unmarshal":
		return c.decode(mk("codec", pkgOf(name), nil), en.snap(st, a[0]), a[1])
	case "bytes.Clone":
		en.touch(st, c.fr, c.instr.Pos(), a[0])
		return c.ret(mk("bcopy", "same", rt(0), en.snap(st, a[0])))
	case "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader":
		t := c.genr("obj", "buf")
		v := strip(en.snap(st, a[0]))
		if v == tNil {
			v = mkSeq(nil)
		}
		st.heap.set(content(t), v)
		return c.ret(t)
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		v, ok := st.heap.m[content(a[0])]
		if !ok {
			v = mk("contentof", "", rt(0), a[0])
		}
		if strings.HasSuffix(name, "String") {
			v = mk("b2s", "", rt(0), v)
		} else if root(a[0]).Op == "alloc" {
			switch v.Op {
			case "elem", "field", "param", "lookup", "get", "load", "mapval", "cval", "ckey", "W":
				// the buffer's own memory
				v = mk("bcopy", "", rt(0), v)
			}
		}
		return c.ret(v)
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		old, ok := st.heap.m[content(a[0])]
		en.touch(st, c.fr, c.instr.Pos(), en.snap(st, a[1]))
		x := strip(en.snap(st, a[1]))
		n := mkLen(x)
		if ok {
			x = mk("seq", "", nil, mkSpread(old), mkSpread(x))
		}
		st.heap.set(content(a[0]), x)
		return c.ret(n, tNil)
	case "container/list.New":
		t := c.genr("obj", "list")
		return c.ret(t)
	case "(*container/list.List).Init":
		c.emit(st, "list.Init", true, nil, a[0])
		c.listVer(a[0])
		return c.ret(a[0])
	case "(*container/list.List).PushBack", "(*container/list.List).PushFront":
		el := c.genr("ele", "", a[0])
		st.heap.set(mkObj("faddr", "Value", "container/list.Element.Value", nil, el), a[1])
		c.emit(st, "list."+name[strings.LastIndex(name, ".")+1:], true, el, a[0], a[1])
		c.listVer(a[0])
		return c.ret(el)
	case "(*container/list.List).Front", "(*container/list.List).Back":
		op := "list" + strings.ToLower(name[strings.LastIndex(name, ".")+1:])
		r := mk(op, "", rt(0), a[0], c.listCur(a[0]))
		c.emit(st, "list."+name[strings.LastIndex(name, ".")+1:], true, r, a[0])
		return c.ret(r)
	case "(*container/list.List).Len":
		r := mk("listlen", "", rt(0), a[0], c.listCur(a[0]))
		c.emit(st, "list.Len", true, r, a[0])
		return c.ret(r)
	case "(*container/list.List).Remove":
		c.emit(st, "list.Remove", true, nil, a[0], a[1])
		v := en.load(st, mkObj("faddr", "Value", "container/list.Element.Value", nil, a[1]), rt(0))
		c.listVer(a[0])
		return c.ret(v)
	case "(*container/list.List).MoveToBack", "(*container/list.List).MoveToFront", "(*container/list.List).InsertAfter", "(*container/list.List).InsertBefore", "(*container/list.List).MoveAfter", "(*container/list.List).MoveBefore":
		c.emit(st, "list."+name[strings.LastIndex(name, ".")+1:], true, nil, a...)
		c.listVer(a[0])
		if c.sig.Results().Len() > 0 {
			el := c.genr("ele", "", a[0])
			st.heap.set(mkObj("faddr", "Value", "container/list.Element.Value", nil, el), a[1])
			return c.ret(el)
		}
		return c.ret()
	case "(*container/list.Element).Next", "(*container/list.Element).Prev":
		r := mk("listnext", name[strings.LastIndex(name, ".")+1:], rt(0), a[0], c.listCur(nil))
		return c.ret(r)
	case "crypto/hmac.New":
		t := c.gen("obj", "hmac", rt(0), a[0], en.snap(st, a[1]))
		st.heap.set(content(t), mkSeq(nil))
		return c.ret(mk("iface", "hmac", nil, t))
	case "crypto/hmac.Equal":
		x, y := en.snap(st, a[0]), en.snap(st, a[1])
		if x.id > y.id {
			x, y = y, x
		}
		return c.ret(mk("call", "hmac.Equal", rt(0), x, y))
	case "(hash.Hash).Sum", "(io.Writer).Write", "(hash.Hash).Write", "(hash.Hash).Reset", "(hash.Hash).Size", "(io.StringWriter).WriteString":
		h := unwrapIface(a[0])
		if h.Op == "obj" && strings.HasPrefix(h.Aux, "hmac@") {
			switch name[strings.LastIndex(name, ".")+1:] {
			case "Sum":
				sum := mk("hmacsum", "", rt(0), h.Args[0], h.Args[1], st.heap.m[content(h)])
				b := en.snap(st, a[1])
				if b == tNil || b.Op == "seq" && len(b.Args) == 0 {
					return c.ret(sum)
				}
				return c.ret(mk("seq", "", rt(0), mkSpread(b), mkSpread(sum)))
			case "Write":
				old := st.heap.m[content(h)]
				x := strip(en.snap(st, a[1]))
				var parts []*Term
				if old != nil {
					parts = append(parts, old.Args...)
				}
				parts = append(parts, mkSpread(x))
				st.heap.set(content(h), mk("seq", "", nil, parts...))
				return c.ret(mkLen(x), tNil)
			case "Reset":
				st.heap.set(content(h), mkSeq(nil))
				return c.ret()
			}
		}
		return c.generic()
	case "io.WriteString", "fmt.Fprint":
		h := unwrapIface(a[0])
		if name == "io.WriteString" && h.Op == "obj" && strings.HasPrefix(h.Aux, "hmac@") {
			n := *c
			n.name, n.args = "(io.Writer).Write", []*Term{a[0], mk("s2b", "", nil, a[1])}
			return n.external()
		}
		return c.generic()
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		old, ok := st.heap.m[content(a[0])]
		x := a[1]
		if !strings.HasSuffix(name, "String") {
			if v, isC := x.intVal(); isC {
				x = mkStr(string(rune(v)))
			} else {
				x = mk("runestr", "", types.Typ[types.String], x)
			}
		}
		if ok {
			x = mkCat(old, x)
		}
		st.heap.set(content(a[0]), x)
		switch c.sig.Results().Len() {
		case 2:
			return c.ret(mkLen(a[1]), tNil)
		case 1:
			return c.ret(tNil)
		}
		return c.ret()
	case "(*strings.Builder).String":
		v, ok := st.heap.m[content(a[0])]
		if !ok {
			v = mkStr("")
		}
		return c.ret(v)
	case "(*strings.Builder).Grow", "(*strings.Builder).Reset", "(*bytes.Buffer).Grow":
		if strings.HasSuffix(name, "Reset") {
			st.heap.del(content(a[0]))
		}
		return c.ret()
	case "strings.Join":
		s := en.snap(st, a[0])
		sep := a[1]
		if s.Op == "seq" && !seqHasSpread(s) {
			r := mkStr("")
			for i, e := range s.Args {
				if i > 0 {
					r = mkCat(r, sep)
				}
				r = mkCat(r, e)
			}
			return c.ret(r)
		}
		return c.pure()
	case "strings.Cut":
		i := pureCall("strings.Index", types.Typ[types.Int], a[0], a[1])
		o := st.clone()
		var out []Outcome
		found := mkNot(mkEq(i, mkInt(-1)))
		if st.assume(found, true) {
			out = append(out, Outcome{st: st, res: []*Term{mkSlice(a[0], mkInt(0), i, rt(0)), mkSlice(a[0], mkAdd(i, mkLen(a[1]), 1, types.Typ[types.Int]), tNil, rt(1)), tTrue}})
		}
		if o.assume(found, false) {
			out = append(out, Outcome{st: o, res: []*Term{a[0], mkStr(""), tFalse}})
		}
		return out
	case "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte":
		if v, ok := a[1].intVal(); ok {
			base := "strings.Index"
			if strings.Contains(name, "Last") {
				base = "strings.LastIndex"
			}
			return c.ret(pureCall(base, rt(0), a[0], mkStr(string(rune(v)))))
		}
		return c.pure()
	case "strings.Contains":
		return c.ret(mkNot(mkEq(pureCall("strings.Index", types.Typ[types.Int], a[0], a[1]), mkInt(-1))))
	case "fmt.Sprintf":
		if t := en.format(st, a); t != nil {
			return c.ret(t)
		}
		return c.pure()
	case "fmt.Sprint":
		if l := en.snap(st, a[0]); l.Op == "seq" && len(l.Args) == 1 && isString(unwrapIface(l.Args[0]).Type) {
			return c.ret(unwrapIface(l.Args[0]))
		}
		return c.pure()
	case "(*strings.Replacer).Replace":
		return c.ret(pureCall("Replace", rt(0), a[0], a[1]))
	case "strings.NewReplacer":
		return c.ret(pureCall(name, rt(0), en.snap(st, a[0])))
	}
	if en.opaque[name] && strings.HasSuffix(name, ".Split") {
		return c.split()
	}
	if strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.") || strings.HasPrefix(name, "(*reflect.") {
		args := make([]*Term, len(a))
		for i := range a {
			args[i] = a[i]
		}
		m := name[strings.LastIndex(name, ".")+1:]
		var r *Term
		if c.sig.Results().Len() == 1 {
			r = pureCall("reflect."+m, rt(0), args...)
			c.emit(st, "reflect."+m, true, r, args...)
			return c.ret(r)
		}
		return c.generic()
	}
	if pureFuncs[name] || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "unicode") {
		return c.pure()
	}
	if strings.Contains(name, redisPkg+".") {
		return c.redis()
	}
	if strings.Contains(name, boltPkg+".") {
		return c.bolt()
	}
	// coders
	if strings.HasPrefix(name, "("+en.a.mod+".") && strings.HasSuffix(name, ".Encode") && len(a) == 2 {
		codec := mk("codec", "coder", nil, unwrapIface(a[0]))
		v := en.snap(st, a[1])
		return c.fallible("encode", []*Term{codec, v, a[1]}, func(s *State) []*Term {
			return []*Term{mk("encoded", "", rt(0), codec, v)}
		}, 2)
	}
	if strings.HasPrefix(name, "("+en.a.mod+".") && strings.HasSuffix(name, ".Decode") && len(a) == 3 {
		return c.decode(mk("codec", "coder", nil, unwrapIface(a[0])), en.snap(st, a[1]), a[2])
	}
	return c.generic()
}
func pkgOf(name string) string {
	name = strings.TrimLeft(name, "(*")
	return name[:strings.LastIndex(strings.Split(name, ")")[0], ".")]
}
func atomicAddr(t *Term) *Term { return t }
func (c *callCtx) atomicStore(addr, v *Term) {
	c.emit(c.st, "atomicstore", true, nil, addr, v)
	if k, ok := addr.Obj.(string); ok {
		c.st.ver.set(mk("fkey", k, nil), c.gen("wr", "", nil))
	}
	c.st.heap.set(addr, v)
}

// split is the summary of the token splitter (checked on its own by C16).
func (c *callCtx) split() []Outcome {
	st := c.st
	tok := c.args[0]
	bad := mk("badtoken", "", types.Typ[types.Bool], tok)
	str := types.Typ[types.String]
	f := st.clone()
	var out []Outcome
	c.en.seq++
	if st.assume(bad, false) {
		c.emit(st, "split", true, nil, tok)
		out = append(out, Outcome{st: st, res: []*Term{mk("tokid", "", str, tok), mk("tokses", "", str, tok), mk("toksig", "", str, tok), tNil}})
	}
	if f.assume(bad, true) {
		e := mk("load", "", nil, mk("global", c.en.a.mod+".ErrTokenInvalid", nil))
		c.emit(f, "split", false, e, tok)
		out = append(out, Outcome{st: f, res: []*Term{mkStr(""), mkStr(""), mkStr(""), e}})
	}
	return out
}

// ---- locks ----

func (c *callCtx) newEpoch() {
	if c.en.single {
		return
	}
	st := c.st
	st.epoch = c.gen("epoch", "", nil)
	st.ver = newCow[*Term]()
	for k := range st.heap.m {
		r := root(k)
		if k.Op == "content" || k.Op == "dirty" || k.Op == "havoc" {
			r = root(k.Args[0])
		}
		if !c.en.isLocal(st, r) && r.Op != "ele" && r.Op != "obj" && r.Op != "initalloc" && r.Op != "cur" {
			st.heap.del(k)
		}
	}
	for k := range st.maps.m {
		if k.Op != "makemap" {
			st.maps.del(k)
		}
	}
}
func (c *callCtx) lock(l *Term, mode string) []Outcome {
	st := c.st
	if h := st.locks.m[l]; h != "" {
		c.emit(st, "relock", true, nil, l, mk("mode", h+mode, nil))
		// a deadlock: nothing follows
		return nil
	}
	st.locks.set(l, mode)
	c.newEpoch()
	c.emit(st, "lock"+mode, true, nil, l)
	return c.ret()
}
func (c *callCtx) unlock(l *Term, mode string) []Outcome {
	st := c.st
	e := c.emit(st, "unlock"+mode, true, nil, l)
	e.setState(st)
	if st.locks.m[l] != mode {
		c.emit(st, "badunlock", true, nil, l, mk("mode", st.locks.m[l]+mode, nil))
		return nil
	}
	st.locks.del(l)
	c.newEpoch()
	return c.ret()
}

// ---- lists ----

func (c *callCtx) listCur(l *Term) *Term {
	k := mk("lkey", "", nil)
	if v, ok := c.st.ver.m[k]; ok {
		return v
	}
	return c.st.epoch
}
func (c *callCtx) listVer(l *Term) {
	c.st.ver.set(mk("lkey", "", nil), c.gen("wr", "", nil))
}

// ---- decoding ----

func (c *callCtx) decode(codec, b, dst *Term) []Outcome {
	en := c.en
	if b.Op != "bcopy" {
		en.touch(c.st, c.fr, c.instr.Pos(), strip(b))
	}
	b = strip(b)
	p := unwrapIface(dst)
	fst := c.st.clone()
	err := en.gen(fst, c.fr, c.instr, "errv", "Decode", types.Universe.Lookup("error").Type())
	c.emit(fst, "decode", false, err, codec, b, p)
	fc := *c
	fc.st = fst
	fc.havoc(p)
	c.emit(c.st, "decode", true, nil, codec, b, p)
	if en.isLocal(c.st, root(p)) && p.Type != nil {
		if pt, ok := p.Type.Underlying().(*types.Pointer); ok {
			typ := pt.Elem()
			d := mk("decoded", types.TypeString(typ, nil), typ, codec, b)
			if b.Op == "encoded" && b.Args[0] == codec {
				x := b.Args[1]
				if x.Op == "ptrto" {
					x = x.Args[0]
				}
				if x.Type != nil && types.Identical(x.Type, typ) {
					d = x
				}
			}
			en.store(c.st, c.fr, c.instr, p, d, typ)
		}
	} else {
		c.havoc(p)
	}
	return []Outcome{{st: c.st, res: []*Term{tNil}}, {st: fst, res: []*Term{err}}}
}

// ---- bolt ----

func canonKey(t *Term) *Term { return strip(t) }
func bucketTerm(parent, name *Term) *Term {
	return mk("bucket", "", nil, parent, name)
}
func (c *callCtx) bolt() []Outcome {
	en, st := c.en, c.st
	a := c.args
	name := c.name
	m := name[strings.LastIndex(name, ".")+1:]
	rt := func(i int) types.Type { return c.sig.Results().At(i).Type() }
	switch {
	case name == boltPkg+".Open":
		args := c.snaps(a)
		// how long it waits
		if pt, ok := c.sig.Params().At(2).Type().(*types.Pointer); ok && a[2] != tNil {
			if so, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < so.NumFields(); i++ {
					if so.Field(i).Name() == "Timeout" {
						fa := mkObj("faddr", "Timeout", fieldKey(pt.Elem(), i), types.NewPointer(so.Field(i).Type()), a[2])
						args = append(args, en.load(st, fa, so.Field(i).Type()))
					}
				}
			}
		}
		return c.fallible("bolt.Open", args, func(s *State) []*Term { return []*Term{en.gen(s, c.fr, c.instr, "obj", "db", rt(0))} }, 2)
	case strings.Contains(name, "bolt.DB)."):
		switch m {
		case "Update", "View", "Batch":
			return c.boltTx(a[0], a[1], m)
		case "Begin":
			return c.fallible("tx.begin", []*Term{a[0], a[1]}, func(s *State) []*Term {
				tx := en.gen(s, c.fr, c.instr, "tx", "", rt(0), a[0])
				s.beginTx(tx)
				return []*Term{tx}
			}, 2)
		case "Close":
			return c.fallible("bolt.Close", []*Term{a[0]}, func(s *State) []*Term { return nil }, 1)
		}
		return c.generic()
	case strings.Contains(name, "bolt.Tx)."):
		switch m {
		case "Bucket":
			return c.ret(mk("bucket", "", rt(0), a[0], canonKey(en.snap(st, a[1]))))
		case "CreateBucketIfNotExists", "CreateBucket":
			return c.createBucket(a[0], canonKey(en.snap(st, a[1])), m)
		case "DeleteBucket":
			return c.deleteBucket(a[0], canonKey(en.snap(st, a[1])))
		case "Commit":
			tx := a[0]
			return c.fallible("tx.commit", []*Term{tx}, func(s *State) []*Term { s.tx = nil; return nil }, 1)
		case "Rollback":
			st.tx = nil
			c.emit(st, "tx.rollback", true, nil, a[0])
			return c.ret(tNil)
		}
		return c.generic()
	case strings.Contains(name, "bolt.Bucket)."):
		b := a[0]
		en.deref(st, c.fr, c.instr, b)
		switch m {
		case "Bucket":
			return c.ret(mk("bucket", "", rt(0), b, canonKey(en.snap(st, a[1]))))
		case "Get":
			k := canonKey(en.snap(st, a[1]))
			// reading behind a write to a key that may be the same
			if ms := st.maps.m[b]; ms != nil {
				for i := len(ms.writes) - 1; i >= 0; i-- {
					t := mkEq(ms.writes[i].key, k)
					if known, eq := st.decide(t); !known {
						o := st.clone()
						var outs []Outcome
						if o.assume(t, true) {
							c2 := *c
							c2.st = o
							outs = append(outs, c2.bolt()...)
						}
						if st.assume(t, false) {
							outs = append(outs, c.bolt()...)
						}
						return outs
					} else if eq {
						break
					}
				}
			}
			v, has, unk, ver := en.mapGet(st, b, k)
			if !unk {
				if has == tFalse {
					v = tNil
				}
			} else {
				args := []*Term{b, k}
				if ver != nil {
					args = append(args, ver)
				}
				v = mk("get", "", rt(0), args...)
			}
			c.emit(st, "bolt.Get", true, v, b, k)
			return c.ret(v)
		case "Put":
			k := canonKey(en.snap(st, a[1]))
			v := en.snap(st, a[2])
			return c.fallible("bolt.Put", []*Term{b, k, v}, func(s *State) []*Term {
				en.mapWrite(s, b, k, stored(v), en.gen(s, c.fr, c.instr, "wr", "", nil))
				return nil
			}, 1)
		case "Delete":
			k := canonKey(en.snap(st, a[1]))
			return c.fallible("bolt.Delete", []*Term{b, k}, func(s *State) []*Term {
				en.mapWrite(s, b, k, nil, en.gen(s, c.fr, c.instr, "wr", "", nil))
				return nil
			}, 1)
		case "CreateBucketIfNotExists", "CreateBucket":
			return c.createBucket(b, canonKey(en.snap(st, a[1])), m)
		case "DeleteBucket":
			return c.deleteBucket(b, canonKey(en.snap(st, a[1])))
		case "NextSequence":
			return c.fallible("bolt.NextSequence", []*Term{b}, func(s *State) []*Term {
				return []*Term{en.gen(s, c.fr, c.instr, "seqno", "", rt(0), b)}
			}, 2)
		case "Cursor":
			return c.ret(c.genr("cursor", "", b))
		case "ForEach":
			return c.forEach(b, a[1])
		case "Sequence", "Stats", "Tx", "Writable", "Root":
			c.emit(st, "bolt."+m, true, nil, b)
			return c.ret(c.genr("res", m, b))
		}
		return c.generic()
	case strings.Contains(name, "bolt.Cursor)."):
		cur := a[0]
		b := cur.arg(0)
		switch m {
		case "First", "Next", "Last", "Prev", "Seek":
			o := st.clone()
			c.emit(o, "bolt.Cursor", true, tNil, b, mkStr(m))
			k := c.gen("ckey", m, rt(0), b)
			v := mk("cval", "", rt(1), k)
			st.heap.set(mk("cur", "", nil, cur), k)
			c.emit(st, "bolt.Cursor", true, k, b, mkStr(m))
			st.assume(mkEq(k, tNil), false)
			return []Outcome{{st: st, res: []*Term{k, v}}, {st: o, res: []*Term{tNil, tNil}}}
		case "Delete":
			k := st.heap.m[mk("cur", "", nil, cur)]
			if k == nil {
				k = c.gen("ckey", "?", nil, b)
			}
			return c.fallible("bolt.Delete", []*Term{b, k}, func(s *State) []*Term {
				en.mapWrite(s, b, k, nil, en.gen(s, c.fr, c.instr, "wr", "", nil))
				return nil
			}, 1)
		}
	}
	return c.generic()
}

// stored: bytes read back are never nil.
func stored(v *Term) *Term {
	v = strip(v)
	if nonNil(v) {
		return v
	}
	return mk("obj", "stored", nil, v)
}
func (c *callCtx) createBucket(parent, k *Term, m string) []Outcome {
	en := c.en
	return c.fallible("bolt."+m, []*Term{parent, k}, func(s *State) []*Term {
		b := mk("bucket", "", c.sig.Results().At(0).Type(), parent, k)
		isNil := mkEq(b, tNil)
		if known, v := s.decide(isNil); known && v || m == "CreateBucket" {
			s.maps.set(b, &mapState{base: tEmpty})
		}
		s.facts.set(isNil, false)
		_ = en
		return []*Term{b}
	}, 2)
}
func (c *callCtx) deleteBucket(parent, k *Term) []Outcome {
	return c.fallible("bolt.DeleteBucket", []*Term{parent, k}, func(s *State) []*Term {
		b := bucketTerm(parent, k)
		s.facts.set(mkEq(b, tNil), true)
		s.maps.set(b, &mapState{base: tEmpty})
		return nil
	}, 1)
}
func (c *callCtx) boltTx(db, f *Term, kind string) []Outcome {
	en := c.en
	fail := c.st.clone()
	err := en.gen(fail, c.fr, c.instr, "errv", "begin", types.Universe.Lookup("error").Type())
	c.emit(fail, "tx.begin", false, err, db, mk("kind", kind, nil))
	out := []Outcome{{st: fail, res: []*Term{err}}}
	tx := c.gen("tx", kind, nil, db)
	if c.st.tx != nil {
		c.emit(c.st, "tx.nested", true, nil, tx)
	}
	c.st.beginTx(tx)
	c.emit(c.st, "tx.begin", true, tx, db, mk("kind", kind, nil))
	for _, o := range c.inline(c.st, f, "tx", tx) {
		if o.panic {
			out = append(out, o)
			continue
		}
		r := o.res[0]
		known, isNil := o.st.decide(mkEq(r, tNil))
		end := func(st *State, how string, r *Term) {
			e := c.emit(st, "tx."+how, how != "commitfail", r, tx)
			e.setState(st)
			st.tx = nil
			out = append(out, Outcome{st: st, res: []*Term{r}})
		}
		commit := func(st *State) {
			if kind != "View" {
				f := st.clone()
				ce := en.gen(f, c.fr, c.instr, "errv", "commit", types.Universe.Lookup("error").Type())
				end(f, "commitfail", ce)
			}
			end(st, "commit", tNil)
		}
		if known {
			if isNil {
				commit(o.st)
			} else {
				end(o.st, "rollback", r)
			}
			continue
		}
		x := o.st.clone()
		if x.assume(mkEq(r, tNil), false) {
			end(x, "rollback", r)
		}
		if o.st.assume(mkEq(r, tNil), true) {
			commit(o.st)
		}
	}
	return out
}
func (e *Event) setState(st *State) { eventStates[e] = st.clone() }

var eventStates = map[*Event]*State{}

// forEach runs the callback on no, on one, and on a later arbitrary element.
func (c *callCtx) forEach(b, f *Term) []Outcome {
	en := c.en
	var out []Outcome
	none := c.st.clone()
	hid := mk("loop", siteStr(c.fr, c.instr), nil)
	li := en.loops[hid]
	if li == nil {
		li = &LoopInfo{id: hid, fr: c.fr, kind: "foreach", mod: newLoopMod(), over: b, seen: map[string]bool{}, contrib: map[*Term]map[*Term]bool{}, init: map[*Term]map[*Term]bool{}}
		en.loops[hid] = li
	}
	nc := *c
	nc.st = none
	nc.emit(none, "bolt.Cursor", true, tNil, b, mkStr("First"))
	nc.emit(none, "loop.done", true, nil, hid, b, mkInt(0))
	out = append(out, Outcome{st: none, res: []*Term{tNil}})
	cur := []*State{c.st}
	for round := 0; round < 2; round++ {
		var next []*State
		for _, st := range cur {
			n := *c
			n.st = st
			k := n.gen("ckey", fmt.Sprint("Each", round), types.NewSlice(types.Typ[types.Byte]), b)
			v := mk("cval", "", k.Type, k)
			n.emit(st, "bolt.Cursor", true, k, b, mkStr([]string{"First", "Next"}[round]))
			st.assume(mkEq(k, tNil), false)
			st.loops = append(st.loops, &loopCtx{id: hid, n: round, facts0: st.facts.m, over: b})
			st.facts.shared2()
			heap0 := st.heap.m
			st.heap.shared2()
			for _, o := range n.inline(st, f, fmt.Sprint("each", round), k, v) {
				if o.panic {
					out = append(out, o)
					continue
				}
				r := o.res[0]
				s2 := o.st
				pop := func(s *State, how string) *Iter {
					for len(s.loops) > 0 {
						l := s.loops[len(s.loops)-1]
						s.loops = s.loops[:len(s.loops)-1]
						if l.id == hid {
							return en.addIter(s, l, how)
						}
					}
					return nil
				}
				known, isNil := s2.decide(mkEq(r, tNil))
				if !known || !isNil {
					x := s2.clone()
					if x.assume(mkEq(r, tNil), false) {
						pop(x, "break")
						out = append(out, Outcome{st: x, res: []*Term{r}})
					}
					if known {
						continue
					}
					s2.assume(mkEq(r, tNil), true)
				}
				done := pop(s2, "next")
				// widen memory the callback changes
				for a, v := range s2.heap.m {
					ov := heap0[a]
					if ov == v {
						continue
					}
					if v.Op == "seq" || isIntType(v.Type) || ov != nil && v.contains(ov) {
						w := mk("W", hid.Aux+".heap:"+a.String(), v.Type)
						if li.contrib[w] == nil {
							li.contrib[w], li.init[w] = map[*Term]bool{}, map[*Term]bool{}
						}
						if ov != nil && ov != w {
							li.init[w][ov] = true
						}
						li.contrib[w][v] = true
						if done != nil {
							if done.next[w] == nil {
								done.next[w] = map[*Term]bool{}
							}
							done.next[w][v] = true
						}
						if round > 0 || true {
							s2.heap.set(a, w)
						}
					}
				}
				d := s2.clone()
				nn := *c
				nn.st = d
				nn.emit(d, "loop.done", true, nil, hid, b, mkInt(1))
				out = append(out, Outcome{st: d, res: []*Term{tNil}})
				next = append(next, s2)
			}
		}
		cur = next
	}
	return out
}

// ---- redis ----

func redisRecv(t *Term) *Term {
	for {
		switch {
		case t.Op == "iface":
			t = t.Args[0]
		case (t.Op == "load" || t.Op == "field") && len(t.Args) > 0 && t.Args[0].Op == "faddr" && redisEmbedded(t.Args[0].Aux):
			t = t.Args[0].Args[0]
		case t.Op == "faddr" && redisEmbedded(t.Aux):
			t = t.Args[0]
		case t.Op == "field" && redisEmbedded(t.Aux):
			t = t.Args[0]
		default:
			return t
		}
	}
}
func redisEmbedded(n string) bool {
	switch n {
	case "cmdable", "statefulCmdable", "baseClient", "Cmdable", "StatefulCmdable", "hooks", "baseCmd":
		return true
	}
	return false
}
func (c *callCtx) flat(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		s := c.en.snap(c.st, t)
		if s.Op == "seq" {
			out = append(out, c.flat(s.Args)...)
			continue
		}
		if s.Op == "spread" {
			x := c.en.snap(c.st, s.Args[0])
			if x.Op == "seq" {
				out = append(out, c.flat(x.Args)...)
				continue
			}
			out = append(out, mkSpread(x))
			continue
		}
		out = append(out, s)
	}
	return out
}
func (c *callCtx) redis() []Outcome {
	en, st := c.en, c.st
	name := c.name
	m := name[strings.LastIndex(name, ".")+1:]
	rt := func(i int) types.Type { return c.sig.Results().At(i).Type() }
	if !strings.HasPrefix(name, "(") {
		switch m {
		case "ParseURL":
			return c.fallible("redis.ParseURL", c.args, func(s *State) []*Term { return []*Term{en.gen(s, c.fr, c.instr, "obj", "opt", rt(0))} }, 2)
		case "NewClient":
			t := c.genr("obj", "client")
			c.emit(st, "redis.NewClient", true, t, c.args...)
			return c.ret(t)
		}
		return c.generic()
	}
	recv := redisRecv(c.args[0])
	var args []*Term
	for i, x := range c.args[1:] {
		p := c.sig.Params()
		j := i
		if p.Len() > j {
			if types.TypeString(p.At(j).Type(), nil) == "context.Context" {
				continue
			}
		}
		args = append(args, x)
	}
	isCmd := recv.Op == "cmd"
	if isCmd {
		err := mk("cmderr", "", types.Universe.Lookup("error").Type(), recv)
		if known, v := st.decide(mkEq(err, tNil)); known && v {
			err = tNil
		}
		switch m {
		case "Err":
			return c.ret(err)
		case "Val":
			return c.ret(mk("cmdval", "", rt(0), recv))
		case "Result":
			return c.ret(mk("cmdval", "", rt(0), recv), err)
		}
		n := c.sig.Results().Len()
		var res []*Term
		for i := 0; i < n; i++ {
			if isErrType(rt(i)) {
				res = append(res, err)
			} else {
				res = append(res, mk("cmdval", m+fmt.Sprint(i), rt(i), recv))
			}
		}
		return c.ret(res...)
	}
	pipe := recv.Op == "pipe"
	switch m {
	case "TxPipeline", "Pipeline":
		return c.ret(mk("iface", redisPkg+".Pipeliner", nil, c.gen("pipe", m, nil, recv)))
	case "TxPipelined", "Pipelined":
		kind := strings.TrimSuffix(m, "d")
		p := c.gen("pipe", kind, nil, recv)
		var out []Outcome
		for _, o := range c.inline(st, args[0], "pipe", mk("iface", redisPkg+".Pipeliner", nil, p)) {
			if o.panic {
				out = append(out, o)
				continue
			}
			r := o.res[0]
			known, isNil := o.st.decide(mkEq(r, tNil))
			if !known || !isNil {
				x := o.st.clone()
				if x.assume(mkEq(r, tNil), false) {
					out = append(out, Outcome{st: x, res: []*Term{tNil, r}})
				}
				if known {
					continue
				}
				o.st.assume(mkEq(r, tNil), true)
			}
			n := *c
			n.st = o.st
			out = append(out, n.redisExec(p)...)
		}
		return out
	case "Exec":
		if pipe {
			return c.redisExec(recv)
		}
	case "Discard":
		if pipe {
			c.emit(st, "redis.Discard", true, nil, recv)
			return c.ret(tNil)
		}
	case "Close":
		if pipe {
			c.emit(st, "redis.pipeClose", true, nil, recv)
			return c.ret(tNil)
		}
		return c.fallible("redis.Close", []*Term{recv}, func(s *State) []*Term { return nil }, 1)
	case "Watch":
		fn := args[0]
		if fn.Op != "fn" && fn.Op != "closure" {
			// (*Tx).Watch(keys...)
			if recv.Op == "rtx" {
				keys := c.flat(args)
				t := c.gen("cmd", "Watch", nil, append([]*Term{recv}, keys...)...)
				c.emit(st, "redis.Watch", true, t, append([]*Term{recv}, keys...)...)
				return c.ret(t)
			}
		}
		keys := c.flat(args[1:])
		fail := st.clone()
		err := en.gen(fail, c.fr, c.instr, "errv", "watch", types.Universe.Lookup("error").Type())
		c.emit(fail, "redis.watchbegin", false, err, append([]*Term{recv}, keys...)...)
		out := []Outcome{{st: fail, res: []*Term{err}}}
		tx := c.gen("rtx", "", nil, append([]*Term{recv}, keys...)...)
		c.emit(st, "redis.watchbegin", true, tx, append([]*Term{tx}, keys...)...)
		for _, o := range c.inline(st, fn, "watch", tx) {
			if o.panic {
				out = append(out, o)
				continue
			}
			n := *c
			n.emit(o.st, "redis.watchend", true, o.res[0], tx)
			out = append(out, Outcome{st: o.st, res: o.res})
		}
		return out
	}
	if c.sig.Results().Len() == 1 && strings.HasSuffix(types.TypeString(rt(0), nil), "Cmd") {
		flat := append([]*Term{recv}, c.flat(args)...)
		if pipe {
			t := c.gen("cmd", m, rt(0), flat...)
			c.emit(st, "redisq."+m, true, t, flat...)
			return c.ret(t)
		}
		fst := st.clone()
		t := c.gen("cmd", m, rt(0), flat...)
		fst.gen.set(t, genRec{c.fr, c.instr.Block().Index})
		errT := mkEq(mk("cmderr", "", types.Universe.Lookup("error").Type(), t), tNil)
		c.emit(fst, "redis."+m, false, t, flat...)
		fst.facts.set(errT, false)
		c.emit(st, "redis."+m, true, t, flat...)
		st.facts.set(errT, true)
		return []Outcome{{st: st, res: []*Term{t}}, {st: fst, res: []*Term{t}}}
	}
	return c.generic()
}
func (c *callCtx) redisExec(p *Term) []Outcome {
	return c.fallible("redis.Exec", []*Term{p}, func(s *State) []*Term {
		return []*Term{c.en.gen(s, c.fr, c.instr, "res", "cmds", nil, p)}
	}, 2)
}

var _ ssa.Value
