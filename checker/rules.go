package main

// The rule layer: obligations over what the analysis found out.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Facts = map[*Term]bool

type Violation struct {
	Rule, Func, What, Pos string
	Detail                []string
}
type Report struct {
	prop       string
	rules      map[string]*RuleStat
	violations map[string]*Violation
	order      []string
	funcs      map[string]bool
	paths      int
	samples    []string
	notes      []string
}
type RuleStat struct {
	Text     string `json:"rule"`
	Checked  int    `json:"obligations"`
	Failed   int    `json:"failed"`
	Min      int    `json:"minimum_expected"`
	instance map[string]bool
	Sites    int `json:"distinct_instances"`
}

type Run struct {
	fn   *ssa.Function
	en   *Engine
	outs []Outcome
}
type Ctx struct {
	a     *Program
	rep   *Report
	runs  map[string]*Run
	provs []*Prov
}

// rule declares a rule with the least number of instances it must have.
func (c *Ctx) rule(id, text string, min int) {
	if c.rep.rules[id] == nil {
		c.rep.rules[id] = &RuleStat{Text: text, Min: min, instance: map[string]bool{}}
	}
}

// ob records an obligation of a rule.
func (c *Ctx) ob(rule string, r *Run, o *Outcome, pos token.Pos, ok bool, format string, args ...interface{}) bool {
	return c.obx(rule, r, o, pos, "", ok, format, args...)
}
func (c *Ctx) obx(rule string, r *Run, o *Outcome, pos token.Pos, inst string, ok bool, format string, args ...interface{}) bool {
	st := c.rep.rules[rule]
	if st == nil {
		panic("undeclared rule " + rule)
	}
	st.Checked++
	fn := "-"
	if r != nil {
		fn = shortName(r.fn.String())
	}
	st.instance[fn+"|"+inst] = true
	if ok {
		return true
	}
	st.Failed++
	what := fmt.Sprintf(format, args...)
	p := c.a.pos(pos)
	k := rule + "|" + fn + "|" + p + "|" + what
	if c.rep.violations[k] != nil {
		return false
	}
	v := &Violation{Rule: rule, Func: fn, What: what, Pos: p}
	if o != nil {
		v.Detail = c.describe(o)
	}
	c.rep.violations[k] = v
	c.rep.order = append(c.rep.order, k)
	return false
}
func (c *Ctx) describe(o *Outcome) []string {
	var d []string
	d = append(d, fmt.Sprintf("exit at %s with results %v", c.a.pos(o.pos), o.res))
	var fs []string
	for f, v := range o.st.facts.m {
		s := f.String()
		if !v {
			s = "not (" + s + ")"
		}
		fs = append(fs, "known: "+s)
	}
	sort.Strings(fs)
	d = append(d, fs...)
	for _, e := range o.st.log {
		d = append(d, fmt.Sprintf("step: %s %s (in %s)", c.a.pos(e.Pos), e, e.Chain))
	}
	return d
}
func (c *Ctx) fail(what string) {
	k := "anchor|" + what
	if c.rep.violations[k] == nil {
		c.rep.violations[k] = &Violation{Rule: "anchor", Func: "-", What: what, Pos: "-"}
		c.rep.order = append(c.rep.order, k)
	}
}

// run analyses a function of the repository from a symbolic state.
func (c *Ctx) run(fn *ssa.Function) *Run {
	return c.runWith(fn, fn.String(), nil)
}
func (c *Ctx) runWith(fn *ssa.Function, key string, args []*Term) *Run {
	if r := c.runs[key]; r != nil {
		c.note(r)
		return r
	}
	split := c.a.mod + ".Split"
	op := map[string]bool{split: true}
	if fn.String() == split {
		op = nil
	}
	en, outs := c.a.runEntry(fn, op, args...)
	r := &Run{fn: fn, en: en, outs: outs}
	c.runs[key] = r
	c.note(r)
	return r
}
func (c *Ctx) note(r *Run) {
	if r == nil {
		return
	}
	n := shortName(r.fn.String())
	if c.rep.funcs["entry "+n] {
		return
	}
	c.rep.funcs["entry "+n] = true
	for f := range r.en.visited {
		c.rep.funcs[shortName(f.String())] = true
	}
	c.rep.paths += len(r.outs)
	for w := range r.en.und {
		c.fail("undecided: " + w + " (analysing " + n + ")")
	}
	for i := range r.outs {
		if r.outs[i].st.und != "" {
			c.fail("undecided: " + r.outs[i].st.und + " (analysing " + n + ")")
		}
	}
	if len(r.outs) == 0 {
		// workers may run for ever, operations may not
		c.rep.notes = append(c.rep.notes, n+" has no exit")
	}
}

// ---- the providers ----

type Prov struct {
	kind    string // "memory", "bolt", "redis"
	pkg     *ssa.Package
	typ     *types.Named
	ctor    *ssa.Function
	m       map[string]*ssa.Function
	workers []*Worker
	done    map[string]bool // fields that tell the provider is closed
	st      *types.Struct
}
type Worker struct {
	fn    *ssa.Function
	args  []*Term
	pos   token.Pos
	run   *Run
	binds []*Term
	heap  map[*Term]*Term
}

var providerOps = []string{"Create", "Destroy", "DestroyByToken", "Check", "Put", "Get", "Keys", "Delete", "Refresh"}

func (c *Ctx) providers() []*Prov {
	if c.provs != nil {
		return c.provs
	}
	root := c.a.pkg("")
	if root == nil || root.Type("Provider") == nil {
		c.fail("the Provider interface is gone")
		return nil
	}
	iface, ok := root.Type("Provider").Type().Underlying().(*types.Interface)
	if !ok {
		c.fail("Provider is no interface")
		return nil
	}
	for _, k := range []struct{ kind, pkg, typ, ctor string }{
		{"memory", "", "MemoryProvider", "NewProvider"},
		{"bolt", "provider/bolt", "Provider", "New"},
		{"redis", "provider/redis", "Provider", "New"},
	} {
		p := c.a.pkg(k.pkg)
		if p == nil || p.Type(k.typ) == nil || p.Func(k.ctor) == nil {
			c.fail("no provider " + k.kind + " found")
			continue
		}
		t := p.Type(k.typ).Type()
		if !types.Implements(types.NewPointer(t), iface) {
			c.fail("the " + k.kind + " provider does not implement Provider")
			continue
		}
		pv := &Prov{kind: k.kind, pkg: p, typ: t.(*types.Named), ctor: p.Func(k.ctor), m: map[string]*ssa.Function{}, done: map[string]bool{}}
		pv.st, _ = t.Underlying().(*types.Struct)
		for _, n := range append(append([]string{}, providerOps...), "Close") {
			sel := c.a.prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(p.Pkg, n)
			var fn *ssa.Function
			if sel != nil {
				fn = c.a.prog.MethodValue(sel)
			}
			if fn == nil || len(fn.Blocks) == 0 {
				c.fail(k.kind + " provider has no method " + n)
				continue
			}
			pv.m[n] = fn
		}
		c.provs = append(c.provs, pv)
	}
	for _, p := range c.provs {
		c.findDone(p)
	}
	return c.provs
}
func (p *Prov) name(op string) string { return p.kind + "." + op }

// findDone: the fields of the provider Close sets to a constant.
func (c *Ctx) findDone(p *Prov) {
	fn := p.m["Close"]
	if fn == nil {
		return
	}
	r := c.run(fn)
	recv := recvOf(fn)
	for _, e := range r.en.events {
		if e.Op == "atomicstore" || e.Op == "store" {
			a := e.Args[0]
			if a.Op == "faddr" && a.Args[0] == recv && e.Args[1].isConst() {
				if k, ok := a.Obj.(string); ok {
					p.done[k] = true
				}
			}
			// a field of an embedded or nested atomic
			if a.Op == "faddr" && a.Args[0].Op == "faddr" && a.Args[0].Args[0] == recv && e.Args[1].isConst() {
				if k, ok := a.Obj.(string); ok {
					p.done[k] = true
				}
			}
		}
	}
	if len(p.done) == 0 {
		c.fail("no field found that tells the " + p.kind + " provider is closed")
	}
}
func recvOf(fn *ssa.Function) *Term {
	if fn.Signature.Recv() == nil || len(fn.Params) == 0 {
		return nil
	}
	return mk("param", "recv "+fn.Params[0].Name(), fn.Params[0].Type())
}

// par is the i-th parameter that is no context and no receiver.
func par(fn *ssa.Function, i int) *Term {
	n := 0
	for j, p := range fn.Params {
		if j == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if types.TypeString(p.Type(), nil) == "context.Context" {
			continue
		}
		if n == i {
			return mk("param", p.Name(), p.Type())
		}
		n++
	}
	return nil
}

// workersOf finds the goroutines the constructor starts and analyses each
// with the provider as a symbolic object.
func (c *Ctx) workersOf(p *Prov) []*Worker {
	if p.workers != nil {
		return p.workers
	}
	r := c.run(p.ctor)
	seen := map[*ssa.Function]bool{}
	recv := mk("param", "recv p", types.NewPointer(p.typ))
	for _, e := range r.en.gos {
		f := e.Args[0]
		fn, _ := f.Obj.(*ssa.Function)
		if fn == nil || seen[fn] {
			if fn == nil {
				c.fail("the " + p.kind + " provider starts a goroutine that cannot be resolved")
			}
			continue
		}
		seen[fn] = true
		w := &Worker{fn: fn, pos: e.Pos}
		isProv := func(t *Term) bool {
			return t != nil && t.Op == "alloc" && t.Type != nil && types.Identical(t.Type, types.NewPointer(p.typ))
		}
		for i, a := range e.Args[1:] {
			if isProv(a) {
				w.args = append(w.args, recv)
			} else {
				w.args = append(w.args, mk("param", fn.Params[i].Name(), fn.Params[i].Type()))
			}
		}
		w.heap = map[*Term]*Term{}
		if f.Op == "closure" {
			for i, b := range f.Args {
				if isProv(b) {
					w.binds = append(w.binds, recv)
					continue
				}
				fv := mk("freevar", fn.FreeVars[i].Name(), fn.FreeVars[i].Type())
				w.binds = append(w.binds, fv)
				// a captured variable that holds the provider
				if pt, ok := fn.FreeVars[i].Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), types.NewPointer(p.typ)) {
					w.heap[fv] = recv
				}
			}
		}
		key := "worker " + fn.String()
		if c.runs[key] == nil {
			en := newEngine(c.a)
			en.opaque = map[string]bool{c.a.mod + ".Split": true}
			st := newState()
			for k, v := range c.a.initMaps {
				st.maps.m[k] = v
			}
			for k, v := range w.heap {
				st.heap.m[k] = v
			}
			outs := en.exec(en.frame(nil, fn, nil, ""), w.args, w.binds, st)
			c.runs[key] = &Run{fn: fn, en: en, outs: outs}
		}
		w.run = c.runs[key]
		c.note(w.run)
		p.workers = append(p.workers, w)
	}
	return p.workers
}

// ---- facts ----

func fval(f Facts, t *Term) (known, v bool) { return decideUnder(f, t) }

// isDoneLoad: the value of a field that tells the provider is closed.
func (p *Prov) isDoneLoad(t *Term) bool {
	if t == nil || t.Op != "load" || t.Args[0].Op != "faddr" {
		return false
	}
	k, _ := t.Args[0].Obj.(string)
	return p.done[k]
}

// closedFacts: what is known about the provider being closed; the epochs in
// which it is known to be open / closed.
func (p *Prov) closedFacts(f Facts) (open, closed map[*Term]bool) {
	open, closed = map[*Term]bool{}, map[*Term]bool{}
	ep := func(t *Term) *Term {
		if len(t.Args) > 1 {
			return t.Args[1]
		}
		return nil
	}
	for k, v := range f {
		switch k.Op {
		case "eq":
			for i := 0; i < 2; i++ {
				if p.isDoneLoad(k.Args[i]) && k.Args[1-i].isInt(0) {
					if v {
						open[ep(k.Args[i])] = true
					} else {
						closed[ep(k.Args[i])] = true
					}
				}
				if p.isDoneLoad(k.Args[i]) && k.Args[1-i].isInt(1) {
					if v {
						closed[ep(k.Args[i])] = true
					} else {
						open[ep(k.Args[i])] = true
					}
				}
			}
		case "load":
			if p.isDoneLoad(k) {
				if v {
					closed[ep(k)] = true
				} else {
					open[ep(k)] = true
				}
			}
		}
	}
	return
}

// ---- results ----

// errOf classifies the error result of an exit: "nil", the name of a package
// variable, "fail" (the error of a failed step), "new" (made on the spot), or "?".
func (c *Ctx) errOf(o *Outcome) (class string, t *Term) {
	if len(o.res) == 0 {
		return "nil", tNil
	}
	t = o.res[len(o.res)-1]
	return c.errClass(o.st.facts.m, t), t
}
func (c *Ctx) errClass(f Facts, t *Term) string {
	switch {
	case t == tNil:
		return "nil"
	case t.Op == "load" && t.Args[0].Op == "global":
		n := t.Args[0].Aux
		return n[strings.LastIndex(n, ".")+1:]
	case t.Op == "call" && (t.Aux == "errors.New" || t.Aux == "fmt.Errorf"):
		return "new"
	case t.Op == "iface":
		return "new"
	}
	for k, v := range f {
		if v && k.Op == "eq" {
			var x *Term
			if k.Args[0] == t {
				x = k.Args[1]
			} else if k.Args[1] == t {
				x = k.Args[0]
			}
			if x == tNil {
				return "nil"
			}
			if x != nil && x.Op == "load" && x.Args[0].Op == "global" {
				n := x.Args[0].Aux
				return n[strings.LastIndex(n, ".")+1:]
			}
		}
	}
	switch {
	case t.Op == "errv", t.Op == "cmderr":
		return "fail"
	case t.Op == "ext" && t.Args[0].Op == "call":
		return "fail"
	}
	return "?"
}

// wraps: the error is x or made from x.
func wraps(t, x *Term) bool {
	return t == x || (t.Op == "call" && t.any(func(y *Term) bool { return y == x }))
}

// ---- running a check ----

type propFn func(c *Ctx)

var props = map[string]propFn{}

func realMain(args []string) int {
	if len(args) == 2 && args[0] == "all" {
		return checkAll(args[1])
	}
	if len(args) < 3 || args[0] != "check" {
		fmt.Println("usage: sidcheck check <property> <tier> [<repo> [<evidence dir>]]")
		return 2
	}
	id, tier := args[1], args[2]
	repo, evdir := "/repo", "evidence"
	if len(args) > 3 {
		repo = args[3]
	}
	if len(args) > 4 {
		evdir = args[4]
	}
	os.MkdirAll(evdir, 0755)
	start := time.Now()
	f := props[id]
	if f == nil {
		fmt.Println("no check for", id)
		return 2
	}
	c := &Ctx{rep: newReport(id), runs: map[string]*Run{}}
	func() {
		defer func() {
			if e := recover(); e != nil && os.Getenv("SID_PANIC") == "" {
				c.fail(fmt.Sprintf("the analysis could not handle this code: %v", e))
			} else if e != nil {
				panic(e)
			}
		}()
		a, err := load(repo)
		if err != nil {
			c.fail("the code cannot be analysed: " + err.Error())
			return
		}
		c.a = a
		f(c)
		if tier == "thorough" {
			c.everything()
		}
	}()
	return c.finish(id, tier, evdir, start)
}

// checkAll checks every property on one load of the code, and prints what is
// violated; it is for development, and writes no evidence.
func checkAll(repo string) int {
	a, err := load(repo)
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	runs := map[string]*Run{}
	var provs []*Prov
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	rc := 0
	for _, id := range ids {
		c := &Ctx{a: a, rep: newReport(id), runs: runs, provs: provs}
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.fail(fmt.Sprintf("the analysis could not handle this code: %v", e))
				}
			}()
			props[id](c)
		}()
		provs = c.provs
		if dir, err := os.MkdirTemp("", "sid"); err == nil {
			out := os.Stdout
			os.Stdout, _ = os.Open(os.DevNull)
			bad := c.finish(id, "quick", dir, time.Now())
			os.Stdout = out
			os.RemoveAll(dir)
			if bad != 0 {
				rc = 1
				var vs []string
				for k := range c.rep.violations {
					vs = append(vs, k)
				}
				sort.Strings(vs)
				for i, k := range vs {
					if i < 3 {
						fmt.Println(id, k)
					}
				}
				if len(vs) == 0 {
					fmt.Println(id, "fails")
				}
				if os.Getenv("SID_FIRST") != "" {
					return rc
				}
			}
		}
	}
	return rc
}
func newReport(id string) *Report {
	return &Report{prop: id, rules: map[string]*RuleStat{}, violations: map[string]*Violation{}, funcs: map[string]bool{}}
}

// everything analyses every function of the repository by itself, whatever
// calls it, and reports what the analysis cannot decide.
func (c *Ctx) everything() {
	for _, fn := range c.a.funcs {
		if strings.Contains(fn.Name(), "$") || fn.Parent() != nil {
			continue
		}
		hasFn := false
		for _, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				hasFn = true // analysed where it is called
			}
		}
		if !hasFn {
			c.run(fn)
		}
	}
}

func (c *Ctx) finish(id, tier, evdir string, start time.Time) int {
	rep := c.rep
	var ids []string
	for r := range rep.rules {
		ids = append(ids, r)
	}
	sort.Strings(ids)
	total, failed := 0, 0
	for _, r := range ids {
		st := rep.rules[r]
		st.Sites = len(st.instance)
		total += st.Checked
		failed += st.Failed
		if st.Checked < st.Min && len(rep.violations) == 0 {
			c.fail(fmt.Sprintf("rule %s (%s) found %d instances, at least %d expected", r, st.Text, st.Checked, st.Min))
		}
	}
	if total == 0 && len(rep.violations) == 0 {
		c.fail("nothing was checked")
	}
	replay := filepath.Join(evdir, id+".violations.txt")
	os.Remove(replay)
	code := 0
	if len(rep.violations) > 0 {
		code = 1
		var b strings.Builder
		for i, k := range rep.order {
			v := rep.violations[k]
			text := ""
			if st := rep.rules[v.Rule]; st != nil {
				text = " [" + st.Text + "]"
			}
			line := fmt.Sprintf("%s: %s: rule %s%s: %s", v.Pos, v.Func, v.Rule, text, v.What)
			if i < 12 {
				fmt.Println(line)
			}
			b.WriteString(line + "\n")
			for _, d := range v.Detail {
				b.WriteString("    " + d + "\n")
			}
		}
		os.WriteFile(replay, []byte(b.String()), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	}
	var funcs []string
	entries := 0
	for f := range rep.funcs {
		if strings.HasPrefix(f, "entry ") {
			entries++
		} else {
			funcs = append(funcs, f)
		}
	}
	sort.Strings(funcs)
	var samples []string
	for _, r := range ids {
		var in []string
		for k := range rep.rules[r].instance {
			in = append(in, k)
		}
		sort.Strings(in)
		if len(in) > 4 {
			in = in[:4]
		}
		samples = append(samples, r+": "+strings.Join(in, "; "))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation": "Static analysis of /repo's current source: every listed function is interpreted abstractly along all its paths (loops to a fixpoint), and each rule is an obligation on what the analysis knows at an exit, an effect or a loop iteration. Nothing is executed.",
			"rules":       rep.rules, "obligations": total, "discharged": total - failed,
			"entry_points": entries, "functions_analysed": funcs, "exit_paths": rep.paths,
			"samples": samples, "notes": rep.notes,
		},
		"assumptions": []string{
			"the models of the standard library, boltdb and go-redis in the checker describe those libraries",
			"memory of the caller is not changed by another goroutine during a call",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(rep.violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, id+".json"), b, 0644)
	if code == 0 {
		fmt.Printf("ok %s: %d obligations of %d rules over %d functions, %d exit paths\n", id, total, len(ids), len(funcs), rep.paths)
	}
	return code
}

// ops runs f over the named operations of the providers.
func (c *Ctx) ops(kinds, names []string, f func(p *Prov, op string, r *Run)) {
	for _, p := range c.providers() {
		in := false
		for _, k := range kinds {
			if k == p.kind {
				in = true
			}
		}
		if !in {
			continue
		}
		for _, n := range names {
			if fn := p.m[n]; fn != nil {
				f(p, n, c.run(fn))
			}
		}
	}
}

var allKinds = []string{"memory", "bolt", "redis"}
var localKinds = []string{"memory", "bolt"}

// method finds a method of a provider by name.
func (c *Ctx) method(p *Prov, name string) *ssa.Function {
	sel := c.a.prog.MethodSets.MethodSet(types.NewPointer(p.typ)).Lookup(p.pkg.Pkg, name)
	if sel == nil {
		return nil
	}
	fn := c.a.prog.MethodValue(sel)
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	return fn
}
func (c *Ctx) fieldOfType(p *Prov, typ string) bool {
	if p.st == nil {
		return false
	}
	for i := 0; i < p.st.NumFields(); i++ {
		if typeStr(p.st.Field(i).Type()) == typ {
			return true
		}
	}
	return false
}
