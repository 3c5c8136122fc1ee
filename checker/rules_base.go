package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// A run decides one property: it applies the property's rules to the abstract
// traces of the entry points and collects the violated obligations.

type Violation struct {
	rule, construct, place, msg string
}

type Run struct {
	w       *World
	prop    string
	tier    string
	viol    []Violation
	seenV   map[string]bool
	oblN    map[string]int // rule -> obligations
	oblOK   map[string]int
	an      map[string]*Analysis
	used    map[string]*Analysis
	notes   []string
	assume  map[string]bool
	sites   map[string]bool // call sites of interest
	clients map[string]*client
	prompts []*Analysis
	part    string // prefixes the rules of a composed property
}

func newRun(w *World, prop string) *Run {
	return &Run{w: w, prop: prop, seenV: map[string]bool{}, oblN: map[string]int{}, oblOK: map[string]int{},
		an: map[string]*Analysis{}, used: map[string]*Analysis{}, assume: map[string]bool{}, sites: map[string]bool{}}
}

// ob records an obligation of rule at a construct.
func (r *Run) ob(rule string, ok bool, fn *ssa.Function, pos token.Pos, msg string, a ...interface{}) bool {
	rule = r.part + rule
	r.oblN[rule]++
	if ok {
		r.oblOK[rule]++
		return true
	}
	name := "?"
	if fn != nil {
		name = fn.String()
	}
	m := fmt.Sprintf(msg, a...)
	k := rule + "|" + name + "|" + m
	if r.seenV[k] {
		return false
	}
	r.seenV[k] = true
	if len(r.viol) < 200 {
		r.viol = append(r.viol, Violation{rule, strings.ReplaceAll(name, modPath+"/", ""), r.w.place(pos), m})
	}
	return false
}

func (r *Run) site(e *Event) { r.sites[r.w.place(e.Pos)+" "+e.Name] = true }

// floor is a non-vacuity obligation: at least n instances were seen.
func (r *Run) floor(what string, got, n int) {
	r.ob("instances", got >= n, nil, token.NoPos, "only %d instances of %s were found, at least %d are expected: the rule would hold vacuously", got, what, n)
}

// ---------------------------------------------------------------------------
// Entry points.

type engKind int

const (
	kPlain  engKind = iota // the layer itself, nothing assumed
	kCrypto                // above the key and codec layers
	kMain                  // above the library
	kField                 // with exact field arithmetic, points inlined
	kLimbs                 // the field arithmetic itself
)

func (r *Run) engine(k engKind) *Engine {
	e := newEngine(r.w)
	switch k {
	case kCrypto:
		e.keyContracts()
		e.codecContracts()
	case kMain:
		e.libContracts()
	}
	if k != kLimbs {
		e.feModels(k != kField)
	}
	e.boot()
	return e
}

// analyse interprets an entry point with unknown arguments. mk may replace
// the arguments.
func (r *Run) analyse(k engKind, name string, mkArgs func(e *Engine, st *State, fn *ssa.Function) []Value) *Analysis {
	key := fmt.Sprint(k, name)
	if a := r.an[key]; a != nil {
		return a
	}
	fn := r.w.fn(name)
	if fn == nil || len(fn.Blocks) == 0 {
		r.ob("anchor", false, nil, token.NoPos, "%s does not exist any more", name)
		a := &Analysis{name: name, err: "missing"}
		r.an[key] = a
		return a
	}
	e := r.engine(k)
	st := e.start()
	var args []Value
	if mkArgs != nil {
		args = mkArgs(e, st, fn)
	} else {
		args = e.defaultArgs(st, fn)
	}
	a := e.analyse(name, fn, st, args)
	r.an[key] = a
	r.checkDone(a)
	return a
}

func (e *Engine) defaultArgs(st *State, fn *ssa.Function) []Value {
	var args []Value
	for i, p := range fn.Params {
		if _, isPtr := under(p.Type()).(*types.Pointer); isPtr && (i == 0 && fn.Signature.Recv() != nil || !optional(p.Type())) {
			o := e.object(st, p.Name(), p.Type())
			if i == 0 && fn.Signature.Recv() != nil {
				e.watch[o.obj] = "receiver"
			}
			args = append(args, o)
			continue
		}
		v := e.param(st, p.Name(), p.Type())
		switch under(p.Type()).(type) {
		case *types.Interface, *types.Signature:
			v = nonNil(v)
		}
		args = append(args, v)
	}
	return args
}

// optional: the pointer may be nil, which stands for the defaults.
func optional(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && strings.HasSuffix(n.Obj().Name(), "Options")
}

func (r *Run) checkDone(a *Analysis) {
	r.used[a.name] = a
	r.ob("analysed", a.err == "", a.fn, fnPos(a.fn), "the analysis of %s did not finish: %s", a.name, a.err)
	if a.err == "" {
		r.ob("analysed", len(a.exits) > 0, a.fn, fnPos(a.fn), "%s never returns", a.name)
	}
}

func fnPos(f *ssa.Function) token.Pos {
	if f == nil {
		return token.NoPos
	}
	return f.Pos()
}

// then continues each exit of a that satisfies sel with a call of method name
// on the value that pick chooses.
func (r *Run) then(a *Analysis, name string, sel func(Exit) bool, pick func(Exit) []Value) []*Analysis {
	fn := r.w.fn(name)
	if fn == nil || len(fn.Blocks) == 0 {
		r.ob("anchor", false, nil, token.NoPos, "%s does not exist any more", name)
		return nil
	}
	var out []*Analysis
	for _, x := range a.exits {
		if !sel(x) {
			continue
		}
		b := a.e.analyse(a.name+" then "+name, fn, x.st.clone(), pick(x))
		r.checkDone(b)
		out = append(out, b)
	}
	return out
}

// ---------------------------------------------------------------------------
// Leaves.

// errOf is the error result of an exit (nil if the function has none).
func errOf(a *Analysis, x Exit) Value {
	res := a.fn.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return nil
	}
	if t, ok := x.val.(*Tup); ok {
		return t.vs[len(t.vs)-1]
	}
	return x.val
}

// success reports whether the exit may report success.
func success(a *Analysis, x Exit) bool {
	if x.kind != xRet {
		return false
	}
	v := errOf(a, x)
	if v == nil {
		return true
	}
	return mayNil(x.st, v)
}

func mayNil(st *State, v Value) bool {
	switch o := v.(type) {
	case Nil:
		return true
	case *Opq:
		if o.nonnil {
			return false
		}
		return st.decide(eqPred(v, Nil{})) != 0
	case *Slice:
		if o.arr == nil {
			return true
		}
		return o.maybeNil != nil && st.decide(o.maybeNil) != 0
	}
	return false
}

// failure reports whether the exit may report failure.
func failure(a *Analysis, x Exit) bool {
	if x.kind != xRet {
		return false
	}
	v := errOf(a, x)
	if v == nil {
		return false
	}
	_, isNil := v.(Nil)
	return !isNil
}

func (r *Run) successes(a *Analysis) []Exit {
	var out []Exit
	for _, x := range a.exits {
		if success(a, x) {
			out = append(out, x)
		}
	}
	r.ob("instances", a.err != "" || len(out) > 0, a.fn, fnPos(a.fn), "%s can never succeed", a.name)
	return out
}

// ---------------------------------------------------------------------------
// Facts.

// eachFact visits the facts of st.
func eachFact(st *State, f func(p *Pred, truth bool)) {
	for n := st.facts; n != nil; n = n.prev {
		f(n.p, n.true)
	}
}

// holds reports whether the boolean term op(...) was decided with the truth.
func findTrue(st *State, op string, truth bool) []*Term {
	var out []*Term
	eachFact(st, func(p *Pred, t bool) {
		if p.op == "true" && t == truth {
			if x, ok := p.a.(*Term); ok && x.op == op {
				out = append(out, x)
			}
		}
	})
	return out
}

// cells lists the bytes of a rope of constant length.
func cells(st *State, rp *Rope, n int64) []*Lin {
	var out []*Lin
	for i := int64(0); i < n; i++ {
		out = append(out, st.simp(st.byteAt(rp, con(i))))
	}
	return out
}

// Closure is the equivalence of bytes that the facts of a path establish.
type Closure struct {
	st     *State
	parent map[string]string
}

func (c *Closure) find(k string) string {
	for c.parent[k] != "" && c.parent[k] != k {
		k = c.parent[k]
	}
	return k
}

func (c *Closure) union(a, b string) {
	x, y := c.find(a), c.find(b)
	if x != y {
		c.parent[x] = y
	}
}

func ropeOf(v Value) *Rope {
	switch x := v.(type) {
	case *Rope:
		return x
	case *Str:
		return x.r
	case *Bytes:
		return x.r
	}
	return nil
}

func closure(st *State) *Closure {
	c := &Closure{st: st, parent: map[string]string{}}
	eachFact(st, func(p *Pred, truth bool) {
		if p.op != "eq" || !truth {
			return
		}
		if a, ok := p.a.(*Lin); ok {
			if b, ok := p.b.(*Lin); ok {
				c.eqLin(a, b)
				c.eqLin(b, a)
			}
			return
		}
		a, b := ropeOf(p.a), ropeOf(p.b)
		if a == nil || b == nil {
			return
		}
		n := st.simp(a.len())
		if !n.isConst() {
			n = st.simp(b.len())
		}
		if n.isConst() && n.c <= 4096 {
			x, y := cells(st, a, n.c), cells(st, b, n.c)
			for i := range x {
				c.union(x[i].key(), y[i].key())
			}
		}
	})
	return c
}

// eqLin uses a == b, also when a combines several comparisons.
func (c *Closure) eqLin(a, b *Lin) {
	c.union(a.key(), b.key())
	if !b.isConst() || b.c != 0 {
		return
	}
	t := a.single()
	if t == nil {
		return
	}
	switch t.op {
	case "xor8":
		if len(t.args) == 2 {
			c.eqLin(t.args[0].(*Lin), t.args[1].(*Lin))
		}
	case "or":
		for _, x := range t.args {
			c.eqLin(x.(*Lin), con(0))
		}
	}
}

func (c *Closure) same(a, b *Rope, n int64) bool {
	x, y := cells(c.st, a, n), cells(c.st, b, n)
	for i := range x {
		if c.find(x[i].key()) != c.find(y[i].key()) {
			return false
		}
	}
	return true
}

// sub is r[lo:lo+n].
func sub(st *State, r *Rope, lo, n int64) *Rope { return st.sliceRope(r, con(lo), con(n)) }

// sameRope reports whether two ropes are the same value on the path.
func sameRope(st *State, a, b *Rope) bool {
	x, y := st.simpRope(a), st.simpRope(b)
	if x.key() == y.key() {
		return true
	}
	n := st.simp(x.len())
	if n.isConst() && st.simp(y.len()).equal(n) && n.c <= 512 {
		return closure(st).same(x, y, n.c)
	}
	return false
}

// whole returns the term of which the rope is all.
func whole(st *State, r *Rope) *Term {
	n := st.simpRope(r).canon()
	if len(n.segs) != 1 || n.segs[0].kind != sSub {
		return nil
	}
	s := n.segs[0]
	if s.off.isConst() && s.off.c == 0 && (s.n.equal(seqLen(s.t)) || s.n.equal(st.simp(seqLen(s.t)))) {
		return s.t
	}
	return nil
}

// pathOf is the path of the file that the term belongs to, if it is the whole
// content of a file.
func fileOf(t *Term) *Rope {
	if t == nil {
		return nil
	}
	if t.op == "read" && t.s == "all" && len(t.args) == 1 {
		if f, ok := t.args[0].(*Term); ok {
			t = f
		}
	}
	if t.op == "file" && len(t.args) == 1 {
		if s, ok := t.args[0].(*Str); ok {
			return s.r
		}
	}
	return nil
}

// wholeFile reports whether r is the complete content of the file at path.
func wholeFile(st *State, r, path *Rope) bool {
	if t := whole(st, r); t != nil {
		p := fileOf(t)
		return p != nil && sameRope(st, p, path)
	}
	// an empty rope is the whole of a file that is empty
	if n := st.simp(r.len()); n.isConst() && n.c == 0 {
		ok := false
		for _, e := range st.events() {
			if (e.Name == "readfile" || e.Name == "readall") && !e.Fail && e.Out != nil {
				o := e.Out.(*Rope)
				if l := st.simp(o.len()); l.isConst() && l.c == 0 && len(o.segs) == 1 {
					if p := fileOf(o.segs[0].t); p != nil && sameRope(st, p, path) {
						ok = true
					}
				}
			}
		}
		return ok
	}
	return false
}

// paramStr is the rope of a string parameter.
func paramStr(name string) *Rope { return rterm(mk("param", name)) }

// files lists the paths of the files that v is computed from.
func files(v Value) []string {
	m := map[string]bool{}
	walk(v, map[string]bool{}, func(x Value) bool {
		if t, ok := x.(*Term); ok && t.op == "file" && len(t.args) == 1 {
			if s, ok := t.args[0].(*Str); ok {
				m[s.r.key()] = true
			}
		}
		return true
	})
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// record is a decoded record and the file it comes from.
type record struct {
	path string
	r    *Rope
	ev   *Event
}

// records lists the base64 records decoded on the path.
func records(st *State) []record {
	var out []record
	for _, e := range st.events() {
		if e.Name == "b64decode" && !e.Fail && e.Out != nil {
			f := files(e.Args[0])
			if len(f) == 1 {
				out = append(out, record{f[0], e.Out.(*Rope), e})
			}
		}
	}
	return out
}

// recOf is the record decoded from the file at path.
func recOf(st *State, path *Rope) *Rope {
	var out *Rope
	for _, x := range records(st) {
		if x.path == path.key() || x.path == st.simpRope(path).key() {
			out = x.r
		}
	}
	return out
}

func short(v interface{}) string {
	s := fmt.Sprint(v)
	s = strings.ReplaceAll(s, "global:encoding/base64.StdEncoding", "Std")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return trunc(s)
}

// pathIs reports whether p is the path that the parameter names, or the
// default if the parameter is empty on this path.
func pathIs(st *State, p, param, def *Rope) bool {
	switch st.decide(eqPred(param.len(), con(0))) {
	case 1:
		return sameRope(st, p, def)
	case 0:
		return sameRope(st, p, param)
	}
	return false
}

// OutFile is a file that a path writes.
type OutFile struct {
	path    *Rope
	flags   *Lin
	perm    *Lin
	content *Rope
	open    *Event
	id      *Term
	whole   bool // written by one call that creates, writes and closes
	closed  bool
	failed  bool // some operation on it failed
	loop    bool // written to in a loop: the content is not exact
	writes  []*Event
	emptied bool // truncated before anything was written
}

// replaced: nothing of what the file held before is left.
func (o *OutFile) replaced() bool {
	if o.whole {
		return true
	}
	return o.flags.isConst() && o.flags.c&oCREATE != 0 && (o.flags.c&(oTRUNC|oEXCL) != 0 || o.emptied)
}

// startsEmpty: each file that the path writes is created or emptied first.
func (r *Run) startsEmpty(a *Analysis, x Exit) {
	for _, o := range outFiles(x.st) {
		r.ob("output replaced", o.replaced(), o.open.Fn, o.open.Pos, "%s writes a file that it neither creates nor empties first, so that older contents may remain after what it writes (exit at %s)", a.name, r.leaf(x))
	}
}

// outFiles lists the files that the path opened for writing or wrote.
func outFiles(st *State) []*OutFile {
	var out []*OutFile
	by := map[*Term]*OutFile{}
	for _, e := range st.events() {
		switch e.Name {
		case "writefile":
			if e.Part == "none" {
				continue
			}
			p, _ := e.Args[0].(*Str)
			d, _ := e.Args[1].(*Str)
			perm, _ := e.Args[2].(*Lin)
			if p == nil || d == nil {
				continue
			}
			out = append(out, &OutFile{path: p.r, flags: con(oWRONLY | oCREATE | oTRUNC), perm: perm, content: d.r, open: e, whole: true, closed: !e.Fail, failed: e.Fail})
		case "open":
			p, _ := e.Args[0].(*Str)
			fl, _ := e.Args[1].(*Lin)
			perm, _ := e.Args[2].(*Lin)
			if p == nil || fl == nil || perm == nil {
				continue
			}
			if fl.isConst() && fl.c&3 == 0 && fl.c&(oCREATE|oTRUNC) == 0 {
				continue // read only
			}
			f := &OutFile{path: p.r, flags: fl, perm: perm, content: &Rope{}, open: e, failed: e.Fail}
			if t, ok := e.Out.(*Term); ok {
				f.id = t
				by[t] = f
			}
			out = append(out, f)
		case "write", "close", "seek", "file.Truncate", "file.Sync", "file.Chmod":
			if len(e.Args) == 0 {
				continue
			}
			t, _ := e.Args[0].(*Term)
			f := by[t]
			if f == nil {
				continue
			}
			if e.Fail {
				f.failed = true
			}
			switch e.Name {
			case "write":
				f.writes = append(f.writes, e)
				if e.Loop {
					f.loop = true
				}
				if s, ok := e.Args[1].(*Str); ok && !e.Fail {
					f.content = cat(f.content, s.r)
				}
			case "close":
				if !e.Fail {
					f.closed = true
				}
			case "file.Truncate":
				if n, ok := e.Args[1].(*Lin); ok && !e.Loop && n.isConst() && n.c == 0 && len(f.writes) == 0 {
					f.emptied = f.emptied || !e.Fail
				} else {
					f.loop = true
				}
			case "file.Sync", "file.Chmod":
			default:
				f.loop = true
			}
		}
	}
	return out
}

// stdB64 decodes the rope as text of the form line + newline + base64 + newline.
func splitDataFile(r *Rope) (comment, rec *Rope, ok bool) {
	n := r.canon()
	var pre []Seg
	for i, s := range n.segs {
		if s.kind == sSub && s.t.op == "b64enc" {
			if !s.off.isConst() || s.off.c != 0 || !s.n.equal(seqLen(s.t)) {
				return nil, nil, false
			}
			if !strings.HasSuffix(s.t.s, "base64.StdEncoding") {
				return nil, nil, false
			}
			rest := (&Rope{segs: append([]Seg(nil), n.segs[i+1:]...)}).norm()
			l, isLit := rest.lit()
			if !isLit || l != "\n" {
				return nil, nil, false
			}
			c := (&Rope{segs: append([]Seg(nil), pre...)}).norm()
			if len(c.segs) == 0 {
				return nil, nil, false
			}
			last := c.segs[len(c.segs)-1]
			if last.kind != sLit || !strings.HasSuffix(last.lit, "\n") {
				return nil, nil, false
			}
			return c, s.t.args[0].(*Rope), true
		}
		pre = append(pre, s)
	}
	return nil, nil, false
}

// commentLine reports whether the text is one untrusted comment line: it
// starts with the prefix, and its only constant newline is the last byte.
func commentLine(c *Rope) bool {
	if len(c.segs) == 0 || c.segs[0].kind != sLit || !strings.HasPrefix(c.segs[0].lit, "untrusted comment: ") {
		return false
	}
	nl := 0
	for _, s := range c.segs {
		if s.kind == sLit {
			nl += strings.Count(s.lit, "\n")
		}
	}
	return nl == 1
}

// exitPos describes an exit.
func (r *Run) leaf(x Exit) string { return r.w.place(x.pos) }

// lastFn is the innermost function that matters at the exit: the entry.
func evFn(e *Event, a *Analysis) *ssa.Function {
	if e != nil && e.Fn != nil {
		return e.Fn
	}
	return a.fn
}
