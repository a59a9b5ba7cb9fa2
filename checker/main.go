package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if f := os.Getenv("SID_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 1 && os.Args[1] == "dump" {
		dump(os.Args[2], os.Args[3:])
		return
	}
	os.Exit(realMain(os.Args[1:]))
}

// runEntry analyses one function from a symbolic state.
func (a *Program) runEntry(fn *ssa.Function, opaque map[string]bool, args ...*Term) (*Engine, []Outcome) {
	en := newEngine(a)
	en.opaque = opaque
	en.single = fn.Synthetic == "package initializer"
	st := newState()
	for k, v := range a.initMaps {
		st.maps.m[k] = v
	}
	if args == nil {
		for i, p := range fn.Params {
			aux := p.Name()
			if i == 0 && fn.Signature.Recv() != nil {
				aux = "recv " + aux
			}
			args = append(args, mk("param", aux, p.Type()))
		}
	}
	if res := fn.Signature.Results(); fn.Signature.Recv() == nil && fn.Parent() == nil && res.Len() > 0 && !en.single {
		switch res.At(0).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			st.facts.set(tMaking, true)
		}
	}
	return en, en.exec(en.frame(nil, fn, nil, ""), args, nil, st)
}

func dump(root string, names []string) {
	a, err := load(root)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	split := map[string]bool{a.mod + ".Split": true}
	for _, fn := range a.funcs {
		match := false
		for _, n := range names {
			if strings.HasPrefix(n, "=") && strings.HasSuffix(fn.String(), n[1:]) || strings.Contains(fn.String(), n) && !strings.Contains(fn.Name(), "$") || n == "all" && !strings.Contains(fn.Name(), "$") {
				match = true
			}
		}
		if !match {
			continue
		}
		op := split
		if strings.HasSuffix(fn.String(), ".Split") {
			op = nil
		}
		en, outs := a.runEntry(fn, op)
		fmt.Printf("== %s: steps %d outs %d und %v\n", fn, en.steps, len(outs), en.und)
		if names[0] == "all" {
			continue
		}
		if s := os.Getenv("SID_ITERS"); s != "" {
			for id, li := range en.loops {
				if !strings.Contains(id.String(), s) {
					continue
				}
				for w, vs := range li.contrib {
					fmt.Println("CONTRIB", w, "init", li.init[w])
					for v := range vs {
						fmt.Println("CONTRIB    ", v)
					}
				}
				for _, it := range li.iters {
					fmt.Printf("ITER %s n=%d %s\n", id, it.n, it.exit)
					it.st.log = it.events
					it.st.print(a, "   ")
				}
			}
			continue
		}
		for i, o := range outs {
			fmt.Printf("-- out %d panic=%v %s res=%v und=%s\n", i, o.panic, a.pos(o.pos), o.res, o.st.und)
			var fs []string
			for f, v := range o.st.facts.m {
				s := f.String()
				if !v {
					s = "!(" + s + ")"
				}
				fs = append(fs, s)
			}
			sort.Strings(fs)
			for _, f := range fs {
				fmt.Println("     fact", f)
			}
			for _, e := range o.st.log {
				fmt.Printf("     ev %s %s\n", a.pos(e.Pos), e)
			}
		}
	}
}
