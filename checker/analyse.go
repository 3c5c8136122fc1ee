package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Analysis is the result of interpreting one entry point.
type Analysis struct {
	e     *Engine
	name  string
	fn    *ssa.Function
	entry *State
	args  []Value
	exits []Exit
	log   []Record
	err   string // the analysis gave up
	steps int
}

func newEngine(w *World) *Engine {
	return &Engine{w: w, opaque: map[string]bool{}, local: map[string]model{}, cmpKey: map[string]bool{}, cmps: map[*Term][]*Lin{}, seenFns: map[*ssa.Function]int{},
		unmod: map[string]token.Pos{}, globals: map[*ssa.Global]int{}, hooks: map[string]Value{}, watch: map[int]string{}, maxStep: 8000000}
}

// repoPkgs lists the packages of the repository, imported ones first.
func (w *World) repoPkgs() []*ssa.Package {
	var out []*ssa.Package
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] || p.Path() != modPath && !strings.HasPrefix(p.Path(), modPath+"/") {
			return
		}
		seen[p.Path()] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := w.by[p.Path()]; sp != nil {
			out = append(out, sp)
		}
	}
	var names []string
	for n := range w.by {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		visit(w.by[n].Pkg)
	}
	return out
}

// boot interprets the initialisation of the repository's packages, and makes
// the exported function variables replaceable hooks.
func (e *Engine) boot() {
	st := &State{heap: map[int]*Obj{}}
	for _, sp := range e.w.repoPkgs() {
		f := sp.Func("init")
		if f == nil || sp.Pkg.Name() == "main" {
			continue // see analyseFn
		}
		for _, x := range e.callFn(f, nil, nil, st.clone(), 0) {
			if x.kind == xRet {
				st = x.st
				st.trace = nil
				break
			}
		}
	}
	e.log = nil
	e.initSt = st
	st.trace = nil
	for g, id := range e.globals {
		if o := st.obj(id); o != nil && e.inRepo(g.Pkg.Pkg) && g.Object() != nil && g.Object().Exported() {
			if _, ok := under(o.typ).(*types.Signature); ok {
				n := *o
				e.hooks[g.String()] = o.v
				n.v = &Opq{t: mk("hook", g.String()), typ: o.typ, nonnil: true}
				st.setObj(id, &n)
			}
		}
	}
	st.freeze()
}

func (e *Engine) start() *State { return e.initSt.clone() }

// mainInit is the initialisation of fn's package if fn is the main function.
func mainInit(fn *ssa.Function) *ssa.Function {
	if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" || fn.Name() != "main" || fn.Parent() != nil {
		return nil
	}
	return fn.Pkg.Func("init")
}

// analyse interprets fn from st.
func (e *Engine) analyse(name string, fn *ssa.Function, st *State, args []Value) *Analysis {
	return e.analyseFn(name, &Fn{fn: fn}, st, args)
}

// analyseFn interprets a function with its captured variables from st.
func (e *Engine) analyseFn(name string, f *Fn, st *State, args []Value) (a *Analysis) {
	fn := f.fn
	a = &Analysis{e: e, name: name, fn: fn, entry: st.clone(), args: args}
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(giveUp); ok {
				a.err = g.msg
				return
			}
			if debug {
				panic(r)
			}
			a.err = fmt.Sprint("internal: ", r)
		}
	}()
	e.log = nil
	e.steps = 0
	e.stack = nil
	if ini := mainInit(fn); ini != nil {
		// the command defines its options, and may do more, before main
		for _, x := range e.callFn(ini, nil, nil, st, 0) {
			if x.kind == xRet {
				a.exits = append(a.exits, e.callFn(fn, args, f.binds, x.st, 0)...)
			} else {
				a.exits = append(a.exits, x)
			}
		}
	} else {
		a.exits = e.callFn(fn, args, f.binds, st, 0)
	}
	a.log = e.log
	a.steps = e.steps
	return a
}

var debug bool

// param makes an unknown argument.
func (e *Engine) param(st *State, name string, t types.Type) Value {
	return e.fromTerm(st, t, mk("param", name))
}

// object makes an unknown object of the type that t points to.
func (e *Engine) object(st *State, name string, t types.Type) *Ptr {
	el := t
	if p, ok := under(t).(*types.Pointer); ok {
		el = p.Elem()
	}
	return e.newObj(st, el, e.fromTerm(st, el, mk("object", name)), "object "+name)
}

func (w *World) place(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.prog.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, w.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// dump prints the exits of an analysis.
func (a *Analysis) dump() {
	w := a.e.w
	fmt.Printf("== %s: %d exits, %d steps %s\n", a.name, len(a.exits), a.e.steps, a.err)
	for i, x := range a.exits {
		v := "-"
		if x.val != nil {
			v = x.val.String()
		}
		fmt.Printf("-- exit %d kind=%d at %s = %s\n", i, x.kind, w.place(x.pos), trunc(v))
		for _, ev := range x.st.events() {
			s := ev.Name
			if ev.Loop {
				s = "*" + s
			}
			if ev.Part != "" {
				s += "/" + ev.Part
			}
			if ev.Fail {
				s += " FAIL"
			}
			for _, x := range ev.Args {
				s += " " + trunc(x.String())
			}
			if ev.Out != nil {
				s += " -> " + trunc(ev.Out.String())
			}
			fmt.Printf("     %s %s\n", w.place(ev.Pos), s)
		}
		for f := x.st.facts; f != nil; f = f.prev {
			fmt.Printf("       fact %v %s\n", f.true, trunc(f.p.String()))
		}
	}
	bad := map[string]int{}
	ok := 0
	for _, r := range a.log {
		switch r.kind {
		case "oblig":
			if r.ok {
				ok++
			} else {
				bad[w.place(r.pos)+" "+r.what+": "+trunc(r.msg)]++
			}
		case "note":
			bad[w.place(r.pos)+" NOTE "+r.msg]++
		case "loop":
			if os.Getenv("VERIF_LOOPS") != "" {
				a.dumpLoop(r.loop)
			}
			bad["loop "+r.fn.String()+" "+r.loop.header.String()]++
		}
	}
	fmt.Printf("   obligations ok %d\n", ok)
	var ks []string
	for k := range bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("   %s (%d)\n", k, bad[k])
	}
	for n, p := range a.e.unmod {
		fmt.Printf("   unmodelled %s at %s\n", n, w.place(p))
	}
}

func trunc(s string) string {
	if len(s) > 260 {
		return s[:260] + "..."
	}
	return s
}
