package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (en *Engine) val(it *item, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(en.a, x)
	case *ssa.Global:
		return mkObj("global", x.String(), x, x.Type())
	case *ssa.Function:
		return mkObj("fn", x.String(), x, x.Type())
	case *ssa.Builtin:
		return mk("builtin", x.Name(), nil)
	}
	if t, ok := it.env[v]; ok {
		return t
	}
	return mk("undef", v.Name(), v.Type())
}
func constTerm(a *Program, x *ssa.Const) *Term {
	if x.Value == nil {
		return zero(a, x.Type())
	}
	if x.Value.Kind() == constant.Unknown {
		return mk("undef", x.String(), x.Type())
	}
	return mkConst(x.Value, x.Type())
}

func zero(a *Program, t types.Type) *Term {
	if s := a.repoStruct(t); s != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, zero(a, s.Field(i).Type()))
		}
		return mkStruct(t, fs)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return tNil
	case *types.Struct:
		return mk("zero", types.TypeString(t, nil), t)
	case *types.Array:
		return mk("zero", types.TypeString(t, nil), t)
	}
	return tNil
}

// mkStruct builds a struct value; a full set of fields of one value is that value.
func mkStruct(t types.Type, fs []*Term) *Term {
	if len(fs) > 0 && fs[0].Op == "field" {
		b := fs[0].Args[0]
		s := t.Underlying().(*types.Struct)
		all := b.Type != nil && types.Identical(b.Type, t)
		for i, f := range fs {
			if f.Op != "field" || f.Args[0] != b || f.Aux != fname(s.Field(i)) {
				all = false
			}
		}
		if all {
			return b
		}
	}
	return mk("struct", types.TypeString(t, nil), t, fs...)
}
func fieldOf(s *Term, t types.Type, i int) *Term {
	st := t.Underlying().(*types.Struct)
	if s.Op == "struct" && len(s.Args) == st.NumFields() {
		return s.Args[i]
	}
	return mk("field", fname(st.Field(i)), st.Field(i).Type(), s)
}

// structField finds a field of a struct value by name.
func structField(s *Term, name string) *Term {
	if s == nil {
		return nil
	}
	if s.Op == "struct" && s.Type != nil {
		if st, ok := s.Type.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if fname(st.Field(i)) == name {
					return s.Args[i]
				}
			}
		}
		return nil
	}
	return mk("field", name, nil, s)
}

func root(t *Term) *Term {
	for t.Op == "faddr" || t.Op == "idx" {
		t = t.Args[0]
	}
	return t
}
func (en *Engine) isLocal(st *State, r *Term) bool {
	switch r.Op {
	case "alloc", "mkslice":
		if en.a.initAlloc(r) && !en.noInit {
			return false
		}
		return true
	case "old":
		return r.Args[0].Op == "alloc" || r.Args[0].Op == "mkslice"
	}
	return false
}
func (a *Program) initAlloc(t *Term) bool {
	if a.initHeap == nil {
		return false
	}
	_, ok := a.initHeap[mk("initalloc", "", nil, t)]
	return ok
}

func (en *Engine) faddr(base *Term, t types.Type, i int) *Term {
	p := t.Underlying().(*types.Pointer)
	st := p.Elem().Underlying().(*types.Struct)
	k := fieldKey(t, i)
	return mkObj("faddr", fname(st.Field(i)), k, types.NewPointer(st.Field(i).Type()), base)
}

// immutable: some prefix of the address is a field that never changes.
func (en *Engine) immutableAddr(addr *Term) bool {
	for a := addr; a.Op == "faddr"; a = a.Args[0] {
		if k, ok := a.Obj.(string); ok && en.a.immut[k] {
			return true
		}
	}
	r := root(addr)
	if r.Op == "global" {
		if g, ok := r.Obj.(*ssa.Global); ok {
			if v, known := en.a.globImm[g]; known {
				return v
			}
		}
		return true // a variable of another package
	}
	return false
}

func (en *Engine) version(st *State, addr *Term) *Term {
	if en.immutableAddr(addr) {
		return nil
	}
	if k, ok := addr.Obj.(string); ok {
		if v, ok := st.ver.m[mk("fkey", k, nil)]; ok {
			return v
		}
	}
	return st.epoch
}

func (en *Engine) load(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.heap.m[addr]; ok {
		return v
	}
	if s := en.a.repoStruct(typ); s != nil {
		// a struct stored as one opaque value?
		if v := en.loadWhole(st, addr); v != nil {
			return v
		}
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fa := mkObj("faddr", fname(s.Field(i)), fieldKey(typ, i), types.NewPointer(s.Field(i).Type()), addr)
			fs = append(fs, en.load(st, fa, s.Field(i).Type()))
		}
		return mkStruct(typ, fs)
	}
	switch addr.Op {
	case "faddr":
		if v := en.loadWhole(st, addr.Args[0]); v != nil {
			return mk("field", addr.Aux, typ, v)
		}
	case "idx":
		if v := en.loadElem(st, addr.Args[0], addr.Args[1], typ); v != nil {
			return v
		}
	}
	r := root(addr)
	if at, ok := typ.Underlying().(*types.Array); ok && at.Len() <= 16 && r.Op == "alloc" && en.isLocal(st, r) {
		// an array whose places were filled one by one
		var vs []*Term
		for i := int64(0); i < at.Len(); i++ {
			v, ok := st.heap.m[mk("idx", "", types.NewPointer(at.Elem()), addr, mkInt(i))]
			if !ok {
				break
			}
			vs = append(vs, v)
		}
		_, hav := st.heap.m[mk("havoc", "", nil, r)]
		if int64(len(vs)) == at.Len() && len(vs) > 0 && !hav {
			return mk("seq", "", typ, vs...)
		}
	}
	if en.isLocal(st, r) {
		if h, ok := st.heap.m[mk("havoc", "", nil, r)]; ok {
			return mk("hv", "", typ, addr, h)
		}
		if r.Op != "old" {
			if _, ok := st.heap.m[dirty(r)]; ok && indexed(addr) {
				return elemRead(addr, typ)
			}
			return zero(en.a, typ)
		}
	}
	if r.Op == "global" || en.a.initAlloc(r) {
		if en.noInit {
			return zero(en.a, typ)
		}
		if en.immutableAddr(addr) {
			if r == addr && isErrType(typ) {
				return mk("load", "", typ, addr)
			}
			if v, ok := en.a.initHeap[addr]; ok {
				return v
			}
		}
	}
	if v := en.version(st, addr); v != nil {
		en.access(st, addr)
		return mk("load", "", typ, addr, v)
	}
	return mk("load", "", typ, addr)
}

// Access is a read of memory that is not local and may change.
type Access struct {
	addr  *Term
	locks map[*Term]string
	pos   token.Pos
	chain string
}

func (en *Engine) access(st *State, addr *Term) {
	if en.atomic || en.cur == nil {
		return
	}
	k := fmt.Sprintf("%d@%d", addr.id, en.cur.Pos())
	for l, m := range st.locks.m {
		k += fmt.Sprintf(";%d%s", l.id, m)
	}
	if en.accesses[k] == nil {
		en.accesses[k] = &Access{addr: addr, locks: copyStr(st.locks.m), pos: en.cur.Pos(), chain: en.chain(en.curFr)}
	}
}

// loadWhole finds an aggregate stored as a single value at addr or above it.
func (en *Engine) loadWhole(st *State, addr *Term) *Term {
	if v, ok := st.heap.m[addr]; ok {
		return v
	}
	switch addr.Op {
	case "faddr":
		if v := en.loadWhole(st, addr.Args[0]); v != nil {
			return mk("field", addr.Aux, nil, v)
		}
	case "idx":
		t := elemType(addr.Args[0].Type)
		return en.loadElem(st, addr.Args[0], addr.Args[1], t)
	}
	return nil
}
func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}
func dirty(t *Term) *Term   { return mk("dirty", "", nil, t) }
func content(t *Term) *Term { return mk("content", "", nil, t) }

// loadElem reads an element of a slice or array that is not in the heap.
func (en *Engine) loadElem(st *State, s, i *Term, typ types.Type) *Term {
	if s.Op == "asl" {
		s = s.Args[0]
		if v, ok := st.heap.m[mk("idx", "", nil, s, i)]; ok {
			return v
		}
	}
	if c, ok := st.heap.m[content(s)]; ok {
		return elemOf(c, i, typ)
	}
	if v, ok := st.heap.m[s]; ok && s.Op == "alloc" {
		return elemOf(v, i, typ)
	}
	if en.isLocal(st, s) {
		return nil
	}
	return elemOf(s, i, typ)
}
func elemOf(s, i *Term, typ types.Type) *Term {
	if s.Op == "seq" {
		if n, ok := i.intVal(); ok {
			pre := true
			for k := 0; k < len(s.Args) && pre; k++ {
				if s.Args[k].Op == "spread" {
					pre = false
				} else if int64(k) == n {
					return s.Args[k]
				}
			}
		}
		if len(s.Args) == 1 && s.Args[0].Op == "spread" {
			return elemOf(s.Args[0].Args[0], i, typ)
		}
	}
	if s.Op == "slice" {
		lo := s.Args[1]
		return elemOf(s.Args[0], mkAdd(i, lo, 1, i.Type), typ)
	}
	return mk("elem", "", typ, s, i)
}

// indexed: the address is within an element of a list.
func indexed(addr *Term) bool {
	for addr.Op == "faddr" {
		addr = addr.Args[0]
	}
	return addr.Op == "idx"
}

// elemRead is what a list built here has at an address.
func elemRead(addr *Term, typ types.Type) *Term {
	if addr.Op == "faddr" {
		return mk("field", addr.Aux, typ, elemRead(addr.Args[0], nil))
	}
	return mk("elem", "", typ, addr.Args[0], addr.Args[1])
}

// elemApart: two places within one list that are not the same for sure.
func (en *Engine) elemApart(st *State, a, b *Term) bool {
	if a == b {
		return false
	}
	for a.Op == "faddr" && b.Op == "faddr" {
		if a.Obj != b.Obj {
			return true
		}
		a, b = a.Args[0], b.Args[0]
	}
	if a.Op == "idx" && b.Op == "idx" && a.Args[0] == b.Args[0] {
		kn, eq := st.decide(mkEq(a.Args[1], b.Args[1]))
		return kn && !eq
	}
	return false
}

func (en *Engine) store(st *State, fr *Frame, instr ssa.Instruction, addr, v *Term, typ types.Type) {
	if s := en.a.repoStruct(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			fa := mkObj("faddr", fname(s.Field(i)), fieldKey(typ, i), types.NewPointer(s.Field(i).Type()), addr)
			en.store(st, fr, instr, fa, fieldOf(v, typ, i), s.Field(i).Type())
		}
		if root(addr).Op == "mkslice" || addr.Op == "idx" {
			en.emit(st, fr, instr.Pos(), "store", true, nil, addr, v)
			st.heap.set(dirty(root(addr)), tTrue)
		}
		return
	}
	r := root(addr)
	local := en.isLocal(st, r)
	switch addr.Op {
	case "faddr":
		for k := range st.heap.m {
			if k.Op == "faddr" && k != addr && k.Obj == addr.Obj && !distinctAddr(k, addr) && !(local && en.isLocal(st, root(k))) {
				st.heap.del(k)
			}
		}
		if indexed(addr) {
			for k := range st.heap.m {
				if k.Op == "faddr" && k != addr && root(k) == r && !en.elemApart(st, k, addr) {
					st.heap.del(k)
				}
			}
			st.heap.set(dirty(r), tTrue)
		}
		if !local {
			if k, ok := addr.Obj.(string); ok {
				st.ver.set(mk("fkey", k, nil), en.gen(st, fr, instr, "wr", "", nil))
			}
		}
	case "idx":
		for k := range st.heap.m {
			if k.Op == "idx" && k.Args[0] == addr.Args[0] && k != addr {
				if kn, eq := st.decide(mkEq(k.Args[1], addr.Args[1])); !kn || eq {
					st.heap.del(k)
				}
			}
		}
		st.heap.set(dirty(r), tTrue)
	}
	st.heap.set(addr, v)
	if !local || r.Op == "mkslice" {
		isSlot := en.noInit
		if !isSlot || r.Op != "global" {
			en.emit(st, fr, instr.Pos(), "store", true, nil, addr, v)
		}
	}
}
func distinctAddr(a, b *Term) bool {
	for a.Op == "faddr" && b.Op == "faddr" {
		if a.Obj != b.Obj {
			return true
		}
		a, b = a.Args[0], b.Args[0]
	}
	if a.Op == "global" && b.Op == "global" {
		return a != b
	}
	return distinctIdentity(a, b) || distinctIdentity(root(a), root(b))
}

// snap is the content of a value at this moment.
func (en *Engine) snap(st *State, t *Term) *Term {
	if t == nil {
		return nil
	}
	switch t.Op {
	case "iface":
		// a pointer to local memory is described by what it points to
		return en.snap(st, t.Args[0])
	case "asl":
		a := t.Args[0]
		if c, ok := st.heap.m[content(a)]; ok {
			return c
		}
		if v, ok := st.heap.m[a]; ok && a.Op == "alloc" {
			part := false
			for k := range st.heap.m {
				if k.Op == "idx" && k.Args[0] == a {
					part = true
				}
			}
			if !part {
				return mkSeq(t.Type, mkSpread(v))
			}
		}
		n, _ := t.Args[1].intVal()
		if _, hv := st.heap.m[mk("havoc", "", nil, a)]; hv || n > 40 {
			return t
		}
		var es []*Term
		et := elemType(a.Type)
		for i := int64(0); i < n; i++ {
			es = append(es, en.snap(st, en.load(st, mk("idx", "", nil, a, mkInt(i)), et)))
		}
		return mkSeq(t.Type, es...)
	case "mkslice":
		if c, ok := st.heap.m[content(t)]; ok {
			return c
		}
		if n, ok := t.Args[0].intVal(); ok && n <= 40 {
			var es []*Term
			et := elemType(t.Type)
			for i := int64(0); i < n; i++ {
				es = append(es, en.snap(st, en.load(st, mk("idx", "", nil, t, mkInt(i)), et)))
			}
			return mkSeq(t.Type, es...)
		}
		return t
	case "slice":
		if c, ok := st.heap.m[content(t.Args[0])]; ok {
			return mkSlice(c, t.Args[1], t.Args[2], t.Type)
		}
		return t
	case "alloc":
		if t.Type != nil {
			if p, ok := t.Type.Underlying().(*types.Pointer); ok && en.a.repoStruct(p.Elem()) != nil {
				return mk("ptrto", "", t.Type, en.load(st, t, p.Elem()))
			}
		}
	default:
		if c, ok := st.heap.m[content(t)]; ok {
			return c
		}
	}
	return t
}

// snapLen: the sequence whose length is asked.
func (en *Engine) snapLen(st *State, t *Term) *Term {
	return t
}
func (en *Engine) lenOf(st *State, t *Term) *Term {
	switch t.Op {
	case "asl":
		return t.Args[1]
	case "mkslice":
		return t.Args[0]
	case "slice":
		hi := t.Args[2]
		if hi.is("nil") {
			hi = en.lenOf(st, t.Args[0])
		}
		return mkAdd(hi, t.Args[1], -1, types.Typ[types.Int])
	case "makemap", "load", "lookup", "param", "field":
		if t.Type != nil {
			if _, ok := t.Type.Underlying().(*types.Map); ok {
				return en.mapLen(st, t)
			}
		}
	}
	if t.Type != nil {
		if _, ok := t.Type.Underlying().(*types.Map); ok {
			return en.mapLen(st, t)
		}
	}
	return mkLen(t)
}
func (en *Engine) mapLen(st *State, m *Term) *Term {
	ms := st.maps.m[m]
	if ms == nil {
		return mk("len", "", types.Typ[types.Int], m)
	}
	if ms.base == tEmpty && len(ms.writes) == 0 {
		return mkInt(0)
	}
	args := []*Term{m}
	if ms.base != nil {
		args = append(args, ms.base)
	}
	for _, w := range ms.writes {
		args = append(args, w.key)
		if w.del {
			args = append(args, tNil)
		}
	}
	return mk("len", "", types.Typ[types.Int], args...)
}
func mkSlice(s, lo, hi *Term, typ types.Type) *Term {
	if lo == nil || lo.is("nil") {
		lo = mkInt(0)
	}
	if hi == nil {
		hi = tNil
	}
	if hi.Op == "len" && len(hi.Args) == 1 && hi.Args[0] == s {
		hi = tNil
	}
	if lo.isInt(0) && hi.is("nil") {
		return s
	}
	// a slice of a slice
	if s.Op == "slice" {
		nlo := mkAdd(s.Args[1], lo, 1, types.Typ[types.Int])
		nhi := s.Args[2]
		if !hi.is("nil") {
			nhi = mkAdd(s.Args[1], hi, 1, types.Typ[types.Int])
		}
		return mkSlice(s.Args[0], nlo, nhi, typ)
	}
	if str, ok := s.strVal(); ok {
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if hi.is("nil") {
			h, ok2 = int64(len(str)), true
		}
		if ok1 && ok2 && l >= 0 && h >= l && h <= int64(len(str)) {
			return mkStr(str[l:h])
		}
	}
	return mk("slice", "", typ, s, lo, hi)
}

// ---- maps and buckets ----

func (en *Engine) mapGet(st *State, m, k *Term) (val, has *Term, unknown bool, vers *Term) {
	ms := st.maps.m[m]
	if ms == nil {
		return nil, nil, true, nil
	}
	for i := len(ms.writes) - 1; i >= 0; i-- {
		w := ms.writes[i]
		known, eq := st.decide(mkEq(w.key, k))
		if !known {
			return nil, nil, true, w.site
		}
		if eq {
			if w.del {
				return nil, tFalse, false, nil
			}
			return w.val, tTrue, false, nil
		}
	}
	if ms.base == tEmpty {
		return nil, tFalse, false, nil
	}
	return nil, nil, true, ms.base
}
func (en *Engine) mapLookup(st *State, m, k *Term, vt types.Type) (val, has *Term) {
	v, h, unk, ver := en.mapGet(st, m, k)
	if !unk {
		if h == tFalse {
			return zero(en.a, vt), tFalse
		}
		return v, tTrue
	}
	args := []*Term{m, k}
	if ver != nil {
		args = append(args, ver)
	}
	has = mk("has", "", types.Typ[types.Bool], args...)
	if known, b := st.decide(has); known && !b {
		return zero(en.a, vt), has
	}
	val = mk("lookup", "", vt, args...)
	return val, has
}
func (en *Engine) mapWrite(st *State, m, k, v, site *Term) {
	ms := st.maps.m[m]
	n := &mapState{}
	if ms != nil {
		n.base = ms.base
		for _, w := range ms.writes {
			if known, eq := st.decide(mkEq(w.key, k)); known && eq {
				continue
			}
			n.writes = append(n.writes, w)
		}
	}
	n.writes = append(n.writes, mwrite{key: k, val: v, del: v == nil, site: site})
	st.maps.set(m, n)
}

// ---- simple instructions ----

func (en *Engine) step(fr *Frame, it *item, instr ssa.Instruction) {
	st := it.st
	v := func(x ssa.Value) *Term { return en.val(it, x) }
	switch x := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := en.gen(st, fr, x, "alloc", "", x.Type())
		if en.noInit {
			st.heap.set(mk("initalloc", "", nil, t), tTrue)
		}
		it.set(x, t)
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
			en.risk(st, fr, x, "divide", v(x.Y))
		}
		it.set(x, en.binop(st, x, v(x.X), v(x.Y)))
	case *ssa.UnOp:
		a := v(x.X)
		switch x.Op {
		case token.MUL:
			en.deref(st, fr, x, a)
			it.set(x, en.load(st, a, x.Type()))
		case token.NOT:
			it.set(x, mkNot(a))
		case token.SUB:
			if isIntType(x.Type()) {
				it.set(x, mkAdd(mkInt(0), a, -1, x.Type()))
			} else {
				it.set(x, mk("neg", "", x.Type(), a))
			}
		case token.ARROW:
			if typeStr(elemOfChan(x.X.Type())) != "time.Time" {
				en.chanRisk(st, fr, x, a)
			}
			r := en.gen(st, fr, x, "recv", "", elemOfChan(x.X.Type()), a)
			en.emit(st, fr, x.Pos(), "recv", true, r, a)
			if x.CommaOk {
				it.set(x, mk("tuple", "", nil, r, en.gen(st, fr, x, "recvok", "", types.Typ[types.Bool])))
			} else {
				it.set(x, r)
			}
		default:
			it.set(x, mk("un", x.Op.String(), x.Type(), a))
		}
	case *ssa.ChangeInterface:
		it.set(x, v(x.X))
	case *ssa.ChangeType:
		it.set(x, v(x.X))
	case *ssa.Convert:
		en.touch(st, fr, x.Pos(), v(x.X))
		it.set(x, en.convert(st, v(x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		t := v(x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			it.set(x, t.Args[x.Index])
		} else {
			it.set(x, mk("ext", fmt.Sprint(x.Index), x.Type(), t))
		}
	case *ssa.Field:
		it.set(x, fieldOf(v(x.X), x.X.Type(), x.Field))
	case *ssa.FieldAddr:
		en.deref(st, fr, x, v(x.X))
		it.set(x, en.faddr(v(x.X), x.X.Type(), x.Field))
	case *ssa.Index:
		en.risk(st, fr, x, "index", v(x.X), v(x.Index))
		it.set(x, elemOf(v(x.X), v(x.Index), x.Type()))
	case *ssa.IndexAddr:
		b := v(x.X)
		i := v(x.Index)
		en.risk(st, fr, x, "index", b, i)
		if b.Op == "asl" {
			b = b.Args[0]
		} else if b.Op == "slice" {
			i = mkAdd(i, b.Args[1], 1, i.Type)
			b = b.Args[0]
			if b.Op == "asl" {
				b = b.Args[0]
			}
		}
		it.set(x, mk("idx", "", x.Type(), b, i))
	case *ssa.Lookup:
		m, k := v(x.X), v(x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			en.risk(st, fr, x, "index", m, k)
			it.set(x, elemOf(m, k, x.Type()))
			return
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		val, has := en.mapLookup(st, m, k, vt)
		en.emit(st, fr, x.Pos(), "mapget", true, val, m, k)
		if x.CommaOk {
			it.set(x, mk("tuple", "", nil, val, has))
		} else {
			it.set(x, val)
		}
	case *ssa.MakeChan:
		en.risk(st, fr, x, "make", mkInt(0), v(x.Size))
		it.set(x, en.gen(st, fr, x, "makechan", "", x.Type(), v(x.Size)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, v(b))
		}
		it.set(x, mkObj("closure", siteStr(fr, x), x.Fn, x.Type(), bs...))
	case *ssa.MakeInterface:
		a := v(x.X)
		it.set(x, mk("iface", types.TypeString(x.X.Type(), nil), x.X.Type(), a))
	case *ssa.MakeMap:
		t := en.gen(st, fr, x, "makemap", "", x.Type())
		st.maps.set(t, &mapState{base: tEmpty})
		it.set(x, t)
	case *ssa.MakeSlice:
		en.risk(st, fr, x, "make", v(x.Len), v(x.Cap))
		t := en.gen(st, fr, x, "mkslice", "", x.Type(), v(x.Len))
		if en.noInit {
			st.heap.set(mk("initalloc", "", nil, t), tTrue)
		}
		if isByteSlice(x.Type()) {
			en.emit(st, fr, x.Pos(), "bytes", true, nil, t)
		}
		it.set(x, t)
	case *ssa.MapUpdate:
		m, k, val := v(x.Map), v(x.Key), v(x.Value)
		if m.Op == "load" && m.Args[0].Op == "faddr" {
			en.risk(st, fr, x, "field", m)
		} else {
			en.risk(st, fr, x, "nilmap", m)
		}
		site := en.gen(st, fr, x, "wr", "", nil)
		en.emit(st, fr, x.Pos(), "mapset", true, nil, m, k, val, en.snap(st, val))
		en.mapWrite(st, m, k, val, site)
	case *ssa.Range:
		r := mk("range", siteStr(fr, x), nil, v(x.X))
		it.set(x, r)
	case *ssa.Send:
		en.chanRisk(st, fr, x, v(x.Chan))
		en.emit(st, fr, x.Pos(), "send", true, nil, v(x.Chan), v(x.X))
	case *ssa.Slice:
		en.sliceRisk(st, fr, x, v(x.X), opt(it, en, x.Low), opt(it, en, x.High))
		t := en.slice(st, v(x.X), x.X.Type(), opt(it, en, x.Low), opt(it, en, x.High), x.Type())
		if t.Op == "slice" && x.Max != nil {
			// nothing is appended to s[i:j:j] in place
			if m := en.val(it, x.Max); m == en.val(it, x.High) {
				t = mk("slice", "full", x.Type(), t.Args...)
			}
		}
		it.set(x, t)
	case *ssa.SliceToArrayPointer:
		it.set(x, mk("s2ap", "", x.Type(), v(x.X)))
	case *ssa.Store:
		typ := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		en.deref(st, fr, x, v(x.Addr))
		en.store(st, fr, x, v(x.Addr), v(x.Val), typ)
	case *ssa.MultiConvert:
		it.set(x, mk("conv", "", x.Type(), v(x.X)))
	default:
		en.undecided(st, fmt.Sprintf("unsupported instruction %T in %s", instr, fr.fn))
		if val, ok := instr.(ssa.Value); ok {
			it.set(val, en.gen(st, fr, instr, "unsup", "", val.Type()))
		}
	}
}
func opt(it *item, en *Engine, v ssa.Value) *Term {
	if v == nil {
		return nil
	}
	return en.val(it, v)
}
func elemOfChan(t types.Type) types.Type {
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

func (en *Engine) slice(st *State, s *Term, xt types.Type, lo, hi *Term, typ types.Type) *Term {
	if p, ok := xt.Underlying().(*types.Pointer); ok { // pointer to array
		arr := p.Elem().Underlying().(*types.Array)
		n := mkInt(arr.Len())
		whole := mk("asl", "", typ, s, n)
		l, h := mkInt(0), n
		if lo != nil {
			l = lo
		}
		if hi != nil {
			h = hi
		}
		if l.isInt(0) {
			if _, ok := h.intVal(); ok {
				return mk("asl", "", typ, s, h)
			}
		}
		return mkSlice(whole, l, hi, typ)
	}
	return mkSlice(s, lo, hi, typ)
}

func (en *Engine) convert(st *State, t *Term, from, to types.Type) *Term {
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8)
	}
	switch {
	case isStr(from) && isBytes(to):
		if t.Op == "b2s" {
			return mk("bcopy", "", to, t.Args[0])
		}
		return mk("s2b", "", to, t)
	case isBytes(from) && isStr(to):
		c := en.snap(st, t)
		for c.Op == "bcopy" {
			c = c.Args[0]
		}
		if c.Op == "s2b" {
			return c.Args[0]
		}
		return mk("b2s", "", to, c)
	case isStr(from) && isStr(to):
		return t
	}
	if t.isConst() {
		return mkConst(t.Val, to)
	}
	if isIntType(from) && isIntType(to) {
		return t
	}
	return mk("conv", types.TypeString(to, nil), to, t)
}

func (en *Engine) binop(st *State, x *ssa.BinOp, a, b *Term) *Term {
	switch x.Op {
	case token.EQL:
		return en.eq(a, b)
	case token.NEQ:
		return mkNot(en.eq(a, b))
	case token.LSS:
		return mkLtT(a, b, x.X.Type())
	case token.GTR:
		return mkLtT(b, a, x.X.Type())
	case token.LEQ:
		return mkNot(mkLtT(b, a, x.X.Type()))
	case token.GEQ:
		return mkNot(mkLtT(a, b, x.X.Type()))
	case token.ADD:
		if isIntType(x.Type()) {
			return mkAdd(a, b, 1, x.Type())
		}
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return mkCat(a, b)
		}
	case token.SUB:
		if isIntType(x.Type()) {
			return mkAdd(a, b, -1, x.Type())
		}
	}
	if a.isConst() && b.isConst() {
		switch x.Op {
		case token.MUL, token.AND, token.OR, token.XOR:
			return mkConst(constant.BinaryOp(a.Val, x.Op, b.Val), x.Type())
		case token.QUO:
			if !b.isInt(0) && isIntType(x.Type()) {
				return mkConst(constant.BinaryOp(a.Val, token.QUO_ASSIGN, b.Val), x.Type())
			}
		case token.SHL, token.SHR:
			if n, ok := b.intVal(); ok && n >= 0 && n < 64 {
				return mkConst(constant.Shift(a.Val, x.Op, uint(n)), x.Type())
			}
		}
	}
	if x.Op == token.MUL && (a.isInt(1) || b.isInt(1)) {
		if a.isInt(1) {
			return b
		}
		return a
	}
	return mk("bin", x.Op.String(), x.Type(), a, b)
}
func mkLtT(a, b *Term, t types.Type) *Term {
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger == 0 {
		return mk("lt", "", types.Typ[types.Bool], a, b)
	}
	return mkLt(a, b)
}
func (en *Engine) eq(a, b *Term) *Term {
	// interface holding a value compared with a value of that type
	if a.is("iface") && b.is("iface") {
		return mkEq(a.Args[0], b.Args[0])
	}
	// x.Compare(y) == 0 and friends are linear differences already
	return mkEq(a, b)
}

// ---- instructions that fork ----

func (en *Engine) doAssert(fr *Frame, it *item, x *ssa.TypeAssert) *item {
	a := en.val(it, x.X)
	st := it.st
	if a.Op == "iface" {
		if _, isIface := x.AssertedType.Underlying().(*types.Interface); isIface {
			ok := types.Implements(a.Type, x.AssertedType.Underlying().(*types.Interface))
			if x.CommaOk {
				v := a
				if !ok {
					v = tNil
				}
				it.set(x, mk("tuple", "", nil, v, mkBool(ok)))
				return nil
			}
			if !ok {
				en.risk(st, fr, x, "assert", tFalse)
				en.emit(st, fr, x.Pos(), "badassert", true, nil, a)
			}
			it.set(x, a)
			return nil
		}
		ok := types.Identical(a.Type, x.AssertedType)
		if x.CommaOk {
			v := a.Args[0]
			if !ok {
				v = zero(en.a, x.AssertedType)
			}
			it.set(x, mk("tuple", "", nil, v, mkBool(ok)))
			return nil
		}
		if !ok {
			en.risk(st, fr, x, "assert", tFalse)
			en.emit(st, fr, x.Pos(), "badassert", true, nil, a)
		}
		it.set(x, a.Args[0])
		return nil
	}
	v := mk("assert", types.TypeString(x.AssertedType, nil), x.AssertedType, a)
	is := mk("isT", types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], a)
	if !x.CommaOk {
		if !listValue(a, x.AssertedType) {
			en.risk(st, fr, x, "assert", is)
		}
		if known, ok := st.decide(is); !known || !ok {
			en.emit(st, fr, x.Pos(), "assert", true, nil, a, is)
		}
		it.set(x, v)
		return nil
	}
	known, ok := st.decide(is)
	if a == tNil {
		known, ok = true, false
	}
	if listValue(a, x.AssertedType) {
		known, ok = true, true
	}
	if known {
		if !ok {
			v = zero(en.a, x.AssertedType)
		}
		it.set(x, mk("tuple", "", nil, v, mkBool(ok)))
		return nil
	}
	o := it.fork()
	o.st.assume(is, false)
	o.set(x, mk("tuple", "", nil, zero(en.a, x.AssertedType), tFalse))
	it.st.assume(is, true)
	it.set(x, mk("tuple", "", nil, v, tTrue))
	return o
}

func (en *Engine) doNext(fr *Frame, it *item, x *ssa.Next) *item {
	r := en.val(it, x.Iter)
	if x.IsString {
		it.set(x, mk("tuple", "", nil, en.gen(it.st, fr, x, "nextok", "", types.Typ[types.Bool]), en.gen(it.st, fr, x, "nexti", "", types.Typ[types.Int]), en.gen(it.st, fr, x, "nextr", "", types.Typ[types.Int32])))
		return nil
	}
	m := r.Args[0]
	var kt, vt types.Type
	if m.Type != nil {
		if mt, ok := m.Type.Underlying().(*types.Map); ok {
			kt, vt = mt.Key(), mt.Elem()
		}
	}
	o := it.fork() // exhausted
	o.set(x, mk("tuple", "", nil, tFalse, mk("undef", "k", kt), mk("undef", "v", vt)))
	o.idx++
	if ms := it.st.maps.m[m]; ms != nil && ms.base == tEmpty && len(ms.writes) == 0 {
		it.set(x, mk("tuple", "", nil, tFalse, mk("undef", "k", kt), mk("undef", "v", vt)))
		return nil
	}
	k := en.gen(it.st, fr, x, "mkey", "", kt, m)
	var v *Term = tNil
	if vt != nil {
		var has *Term
		ms := it.st.maps.m[m]
		// the key is one the map holds
		if ms == nil || len(ms.writes) == 0 {
			v, has = en.mapLookup(it.st, m, k, vt)
			if has != nil && has.Op == "has" {
				it.st.assume(has, true)
				v, _ = en.mapLookup(it.st, m, k, vt)
			} else if has == tFalse {
				v = mk("lookup", "", vt, m, k)
			}
		} else {
			v = mk("lookup", "", vt, m, k)
		}
	}
	en.emit(it.st, fr, x.Pos(), "mapnext", true, v, m, k)
	it.set(x, mk("tuple", "", nil, tTrue, k, v))
	return o
}

func (en *Engine) doSelect(fr *Frame, it *item, x *ssa.Select) []*item {
	n := len(x.States)
	total := n
	if !x.Blocking {
		total++
	}
	var out []*item
	var chans []*Term
	for _, s := range x.States {
		c := en.val(it, s.Chan)
		dir := "recv"
		if s.Dir == types.SendOnly {
			dir = "send"
		}
		chans = append(chans, mk("case", dir, nil, c))
		if typeStr(elemOfChan(s.Chan.Type())) != "time.Time" {
			// without a timer there is no tick to wait for
			en.chanRisk(it.st, fr, x, c)
		}
	}
	for i := total - 1; i >= 0; i-- {
		c := it
		if i > 0 {
			c = it.fork()
		}
		idx := i
		if i == n {
			idx = -1
		}
		res := []*Term{mkInt(int64(idx)), tTrue}
		var recvd *Term
		for j, s := range x.States {
			if s.Dir == types.RecvOnly {
				r := en.gen(c.st, fr, x, "recv", fmt.Sprint(j), elemOfChan(s.Chan.Type()), en.val(c, s.Chan))
				if j == i {
					recvd = r
				}
				res = append(res, r)
			}
		}
		op := "select"
		if !x.Blocking {
			op = "selectnb"
		}
		args := []*Term{mkInt(int64(idx))}
		args = append(args, chans...)
		if i < n && x.States[i].Dir == types.SendOnly {
			args = append(args, mk("sent", "", nil, en.val(c, x.States[i].Send)))
		}
		en.emit(c.st, fr, x.Pos(), op, true, recvd, args...)
		c.set(x, mk("tuple", "", nil, res...))
		c.idx++
		out = append([]*item{c}, out...)
	}
	return out
}

// inBolt: memory of the database, which is there only during a transaction.
func inBolt(t *Term) bool {
	for t.Op == "slice" {
		t = t.Args[0]
	}
	return t.Op == "get" || t.Op == "ckey" || t.Op == "cval"
}

// touch records that memory of the database is read after its transaction.
func (en *Engine) touch(st *State, fr *Frame, pos token.Pos, t *Term) {
	if st.tx == nil && inBolt(t) {
		en.emit(st, fr, pos, "late", true, nil, t)
	}
}
