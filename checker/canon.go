package main

// Private names are no part of what a program does. Where the rules have a name
// for a setting or for a field of a session's record, the field that has that
// part gets the name, whatever it is called in the source; where a field is
// called that already, it keeps its name.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var canonical = map[*types.Var]string{}

// listTypes: the types of what the program puts into lists.
var listTypes map[string]bool

func onlyListed(t string) bool { return len(listTypes) == 1 && listTypes[t] }

// fname: the name of a field as the rules know it.
func fname(v *types.Var) string {
	if n, ok := canonical[v]; ok {
		return n
	}
	return v.Name()
}

// the settings the rules know, by how the exported option for it ends.
var settingNames = map[string]string{
	"Access": "access", "Refresh": "refresh", "MaxSize": "maxSize", "KeyPrefix": "keyPrefix", "MetadataKey": "metadataKey",
}

func hasField(s *types.Struct, name string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func fieldVar(x ssa.Value) (*types.Struct, *types.Var) {
	switch x := x.(type) {
	case *ssa.FieldAddr:
		s, _ := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if s != nil {
			return s, s.Field(x.Field)
		}
	case *ssa.Field:
		s, _ := x.X.Type().Underlying().(*types.Struct)
		if s != nil {
			return s, s.Field(x.Field)
		}
	case *ssa.UnOp:
		return fieldVar(x.X)
	}
	return nil, nil
}

// callers: the calls of a function.
func (a *Program) callers(fn *ssa.Function) (out []*ssa.CallCommon) {
	for _, g := range a.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					out = append(out, c.Common())
				}
			}
		}
	}
	return
}

// partOf tells what a value stored in a record is for, by where it comes from.
func (a *Program) partOf(fn *ssa.Function, v ssa.Value, depth int) string {
	if depth > 8 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		at := -1
		for i, p := range fn.Params {
			if p == x {
				at = i
			}
		}
		if fn.Name() == "Create" && fn.Signature.Recv() != nil {
			switch at {
			case 2:
				return "access"
			case 3:
				return "refresh"
			}
			return ""
		}
		for _, c := range a.callers(fn) {
			if at >= 0 && at < len(c.Args) {
				if p, ok := c.Args[at].(*ssa.Parameter); ok {
					if r := a.partOf(p.Parent(), p, depth+1); r != "" {
						return r
					}
					continue
				}
				if ins, ok := c.Args[at].(ssa.Instruction); ok {
					if r := a.partOf(ins.Parent(), c.Args[at], depth+1); r != "" {
						return r
					}
				}
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			if g := c.Call.StaticCallee(); g != nil && g.Name() == "Split" && a.inRepo(g) {
				return "id"
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.String() == "(time.Time).Add" {
			return a.partOf(fn, x.Call.Args[1], depth+1)
		}
	case *ssa.UnOp, *ssa.Field:
		if _, f := fieldVar(x); f != nil {
			return fname(f)
		}
		if u, ok := x.(*ssa.UnOp); ok {
			if al, ok := u.X.(*ssa.Alloc); ok {
				// a variable: what is put into it
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						return a.partOf(fn, s.Val, depth+1)
					}
				}
			}
		}
	}
	return ""
}

func (a *Program) findCanonical() {
	canonical = map[*types.Var]string{}
	give := func(s *types.Struct, f *types.Var, name string) {
		if f.Exported() || hasField(s, name) || canonical[f] != "" {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			if canonical[s.Field(i)] == name {
				return
			}
		}
		canonical[f] = name
	}
	for _, fn := range a.funcs {
		if !exported(fn) || fn.Signature.Recv() != nil || len(fn.Params) != 1 || !strings.HasPrefix(fn.Name(), "With") {
			continue
		}
		name := ""
		for k, n := range settingNames {
			if strings.HasSuffix(fn.Name(), k) {
				name = n
			}
		}
		if name == "" {
			continue
		}
		for _, g := range fn.AnonFuncs {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					v := st.Val
					if u, ok := v.(*ssa.UnOp); ok {
						v = u.X
					}
					if _, ok := v.(*ssa.FreeVar); !ok {
						continue
					}
					if s, f := fieldVar(st.Addr); f != nil && a.isRepoPath(pkgPath(f)) {
						give(s, f, name)
					}
				}
			}
		}
	}
	// what lists hold
	listTypes = map[string]bool{}
	records := map[*types.Struct]bool{}
	for _, fn := range a.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var v ssa.Value
				switch x := ins.(type) {
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if g == nil || !strings.HasPrefix(g.String(), "(*container/list.List).") || len(x.Common().Args) < 2 {
						continue
					}
					switch g.Name() {
					case "PushBack", "PushFront", "InsertBefore", "InsertAfter":
						v = x.Common().Args[1]
					case "PushBackList", "PushFrontList":
						listTypes["?"] = true
					}
				case *ssa.Store:
					if s, f := fieldVar(x.Addr); s != nil && f.Name() == "Value" && pkgPath(f) == "container/list" {
						v = x.Val
					}
				}
				if v == nil {
					continue
				}
				m, ok := v.(*ssa.MakeInterface)
				if !ok {
					if c, ok := v.(*ssa.Const); ok && c.Value == (constant.Value)(nil) {
						listTypes["nil"] = true
						continue
					}
					listTypes["?"] = true
					continue
				}
				t := m.X.Type()
				listTypes[typeStr(t)] = true
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if s, ok := t.Underlying().(*types.Struct); ok {
					records[s] = true
				}
			}
		}
	}
	for s := range records {
		has := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			has[roleOf(s.Field(i))] = true
		}
		if has["access"] && has["refresh"] && has["id"] && has["accessEnd"] && has["refreshEnd"] {
			continue
		}
		named := map[string]string{"string access": "access", "string refresh": "refresh", "string id": "id",
			"time.Time access": "accessDeadline", "time.Time refresh": "refreshDeadline"}
		for _, fn := range a.funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, ok := fa.X.(*ssa.Alloc); !ok {
						continue
					}
					if s1, f := fieldVar(fa); s1 == s && roleOf(f) == "" {
						if n := named[typeStr(f.Type())+" "+a.partOf(fn, st.Val, 0)]; n != "" {
							give(s, f, n)
						}
					}
				}
			}
		}
	}
}

func pkgPath(f *types.Var) string {
	if f.Pkg() == nil {
		return ""
	}
	return f.Pkg().Path()
}

// onlyInit: a function that runs only while the package is initialised.
func (a *Program) onlyInit(fn *ssa.Function, depth int) bool {
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return fn.Signature.Recv() == nil
	}
	if exported(fn) || depth > 4 {
		return false
	}
	n := 0
	for _, g := range a.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					c, ok := ins.(*ssa.Call)
					if !ok || c.Call.StaticCallee() != fn || g.Pkg != fn.Pkg || !a.onlyInit(g, depth+1) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// calls: f calls g itself.
func (a *Program) calls(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok && c.Call.StaticCallee() == g {
				return true
			}
		}
	}
	return false
}
