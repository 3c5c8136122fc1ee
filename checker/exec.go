package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine is the abstract interpreter.
type Engine struct {
	w       *World
	opaque  map[string]bool // functions of the repository treated as contracts
	local   map[string]model
	nobj    int
	steps   int
	log     []Record
	cmps    map[*Term][]*Lin // integer comparisons seen (candidate invariants), by what they mention
	cmpKey  map[string]bool
	stack   []*ssa.Function
	seenFns map[*ssa.Function]int
	unmod   map[string]token.Pos // external functions without a model
	globals map[*ssa.Global]int
	initSt  *State
	maxStep int
	hooks   map[string]Value // replaceable functions, by variable
	watch   map[int]string   // objects whose stores are recorded
	warm    map[*ssa.BasicBlock][]*fixLeaf
}

// Record is an observation of a final (stable) analysis round.
type Record struct {
	kind string // "oblig", "leaf", "note"
	// obligation
	what string
	ok   bool
	msg  string
	pos  token.Pos
	fn   *ssa.Function
	st   *State
	// loop back edge
	loop *LoopLeaf
}

// LoopLeaf relates the state at a loop head to the one at a back edge.
type LoopLeaf struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	head   *State
	back   *State
	phis   []*ssa.Phi
	hphi   []Value
	bphi   []Value
	entry  *State
	ephi   []Value
	base   int // terms up to here exist before the loop
}

type exitKind int

const (
	xRet exitKind = iota
	xPanic
	xHalt // os.Exit
)

type Exit struct {
	kind exitKind
	st   *State
	val  Value
	pos  token.Pos
}

type Outcome struct {
	st  *State
	ret Value
	hlt *Exit
}

type fnInfo struct {
	idx   map[ssa.Value]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	in    map[*ssa.BasicBlock][]*ssa.BasicBlock        // block -> headers, innermost first
}

type LoopCtl struct {
	fix    bool
	probe  bool
	visits int
	from   int // steps before it
	back   *[]backState
}

type backState struct {
	st   *State
	fr   *Frame
	phi  map[*ssa.Phi]Value
	phis []Value
}

type deferred struct {
	call *ssa.Defer
	fn   Value
	args []Value
}

type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	regs    []Value
	binds   []Value
	defers  []deferred
	loops   map[*ssa.BasicBlock]*LoopCtl
	decided map[*ssa.BasicBlock]bool
	depth   int

	preDefer *Why
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	n.loops = map[*ssa.BasicBlock]*LoopCtl{}
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.decided = map[*ssa.BasicBlock]bool{}
	for k, v := range f.decided {
		n.decided[k] = v
	}
	return &n
}

type abortUnroll struct{ ctl *LoopCtl }
type giveUp struct{ msg string }

func (e *Engine) oblig(fr *Frame, pos token.Pos, what string, ok bool, msg string, st *State) {
	e.log = append(e.log, Record{kind: "oblig", what: what, ok: ok, msg: msg, pos: pos, fn: fr.fn, st: st})
}

func (e *Engine) note(fn *ssa.Function, pos token.Pos, msg string) {
	e.log = append(e.log, Record{kind: "note", msg: msg, pos: pos, fn: fn})
}

var infos = map[*ssa.Function]*fnInfo{}

func info(fn *ssa.Function) *fnInfo {
	if i := infos[fn]; i != nil {
		return i
	}
	in := &fnInfo{idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, in: map[*ssa.BasicBlock][]*ssa.BasicBlock{}}
	add := func(v ssa.Value) { in.idx[v] = len(in.idx) }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := in.loops[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					in.loops[h] = body
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	for h, body := range in.loops {
		for b := range body {
			in.in[b] = append(in.in[b], h)
		}
	}
	for b, hs := range in.in {
		sort.Slice(hs, func(i, j int) bool { return len(in.loops[hs[i]]) < len(in.loops[hs[j]]) })
		in.in[b] = hs
	}
	infos[fn] = in
	return in
}

// ---------------------------------------------------------------------------
// Values by type.

func under(t types.Type) types.Type { return t.Underlying() }

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32:
		return math.MinInt32, math.MaxInt32, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, maxI, true
	}
	return minI, maxI, true
}

// unsigned64: values of the type may exceed those of int64.
func unsigned64(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr)
}

func isErrorType(t types.Type) bool { return t.String() == "error" }

func (e *Engine) newObj(st *State, typ types.Type, v Value, site string) *Ptr {
	e.nobj++
	st.setObj(e.nobj, &Obj{typ: typ, v: v, site: site})
	return &Ptr{obj: e.nobj}
}

func namedOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func (e *Engine) inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (e *Engine) zero(t types.Type) Value {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !e.inRepo(n.Obj().Pkg()) {
		if m := zeroMod(namedOf(t)); m != nil {
			return m
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return con(0)
		case u.Info()&types.IsBoolean != 0:
			return bconst(false)
		case u.Info()&types.IsString != 0:
			return &Str{rlit("")}
		}
		return &Opq{t: mk("zerovalue", t.String()), typ: t}
	case *types.Slice:
		return &Slice{off: con(0), n: con(0), c: con(0), elem: u.Elem()}
	case *types.Struct:
		s := &Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return &Bytes{rzero(con(u.Len()))}
		}
		if u.Len() <= 64 {
			a := &Arr{}
			for i := int64(0); i < u.Len(); i++ {
				a.es = append(a.es, e.zero(u.Elem()))
			}
			return a
		}
		return &Opq{t: mk("zerovalue", t.String()), typ: t}
	case *types.Tuple:
		tp := &Tup{}
		for i := 0; i < u.Len(); i++ {
			tp.vs = append(tp.vs, e.zero(u.At(i).Type()))
		}
		return tp
	}
	return Nil{}
}

// fromTerm is an unknown value of type t identified by term tm.
func (e *Engine) fromTerm(st *State, t types.Type, tm *Term) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			if tm.lo < lo {
				tm.lo = lo
			}
			if tm.hi > hi {
				tm.hi = hi
			}
			return lin(tm)
		}
		if u.Info()&types.IsBoolean != 0 {
			return &Bool{known: -1, p: &Pred{op: "true", a: tm}}
		}
		if u.Info()&types.IsString != 0 {
			return &Str{rterm(tm)}
		}
		return &Opq{t: tm, typ: t, nonnil: true}
	case *types.Slice:
		if isByte(u.Elem()) {
			r := rterm(tm)
			p := e.newObj(st, nil, &Bytes{r}, tm.op)
			return &Slice{arr: p, off: con(0), n: r.len(), c: r.len(), elem: u.Elem(), maybeNil: &Pred{op: "true", a: mk("isnil", "", tm)}}
		}
		n := lin(mkIv("len", "", 0, maxLen, tm))
		p := e.newObj(st, nil, &Opq{t: tm, typ: t}, tm.op)
		return &Slice{arr: p, off: con(0), n: n, c: n, elem: u.Elem(), maybeNil: &Pred{op: "true", a: mk("isnil", "", tm)}}
	case *types.Array:
		if isByte(u.Elem()) {
			return &Bytes{rtermN(tm, con(u.Len()))}
		}
		if u.Len() <= 64 {
			a := &Arr{}
			for i := int64(0); i < u.Len(); i++ {
				a.es = append(a.es, e.fromTerm(st, u.Elem(), mk("elem", fmt.Sprint(i), tm)))
			}
			return a
		}
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && !e.inRepo(n.Obj().Pkg()) {
			break
		}
		s := &Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, e.fromTerm(st, u.Field(i).Type(), mk("field", u.Field(i).Name(), tm)))
		}
		return s
	case *types.Tuple:
		tp := &Tup{}
		for i := 0; i < u.Len(); i++ {
			tp.vs = append(tp.vs, e.fromTerm(st, u.At(i).Type(), mk("res", fmt.Sprint(i), tm)))
		}
		return tp
	}
	return &Opq{t: tm, typ: t}
}

// ---------------------------------------------------------------------------
// Memory.

func (e *Engine) globalObj(st *State, g *ssa.Global) *Ptr {
	id, ok := e.globals[g]
	if !ok {
		e.nobj++
		id = e.nobj
		e.globals[g] = id
	}
	if st.obj(id) == nil {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		var v Value
		if e.inRepo(g.Pkg.Pkg) && (e.initSt == nil || g.Pkg.Pkg.Name() == "main" && e.initSt.obj(id) == nil) {
			v = e.zero(t)
		} else if e.inRepo(g.Pkg.Pkg) && e.initSt.obj(id) != nil {
			v = e.initSt.obj(id).v
		} else {
			tm := mk("global", g.String())
			if isErrorType(t) || !e.inRepo(g.Pkg.Pkg) {
				if _, isI := under(t).(*types.Interface); isI {
					v = &Opq{t: tm, typ: t, nonnil: true}
				} else if _, isP := under(t).(*types.Pointer); isP {
					v = &Opq{t: tm, typ: t, nonnil: true}
				}
			}
			if v == nil {
				v = e.fromTerm(st, t, tm)
			}
			if sl, ok := v.(*Slice); ok && g.String() == "os.Args" {
				sl.maybeNil = nil
				st.addIneq(sl.n.addc(-1)) // the program's name
			}
		}
		st.setObj(id, &Obj{typ: t, v: v, site: "global " + g.String(), global: g})
	}
	return &Ptr{obj: id}
}

func typeAt(t types.Type, path []Step) types.Type {
	for _, s := range path {
		if t == nil {
			return nil
		}
		switch u := under(t).(type) {
		case *types.Struct:
			if s.idx != nil || s.field >= u.NumFields() {
				return nil
			}
			t = u.Field(s.field).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (e *Engine) loadPath(st *State, v Value, path []Step, t types.Type) Value {
	for i, s := range path {
		switch x := v.(type) {
		case *Struct:
			v = x.fs[s.field]
		case *Arr:
			if s.idx.isConst() && s.idx.c >= 0 && s.idx.c < int64(len(x.es)) {
				v = x.es[s.idx.c]
			} else {
				tm := mk("elem", "", &Term{id: -1, op: "arr", s: x.key()}, s.idx)
				v = e.fromTerm(st, t, tm)
				if i+1 < len(path) {
					return e.fromTerm(st, t, fresh("ext", "nested"))
				}
				return v
			}
		case *Bytes:
			v = st.byteAt(x.r, s.idx)
		case *Opq:
			nm := fmt.Sprint(s.field)
			var tm *Term
			if s.idx != nil {
				tm = mk("elem", "", x.t, s.idx)
			} else {
				tm = mk("field", nm, x.t)
			}
			if i == len(path)-1 {
				return e.fromTerm(st, t, tm)
			}
			v = &Opq{t: tm}
		default:
			return e.fromTerm(st, t, fresh("ext", "load"))
		}
	}
	return v
}

func (e *Engine) storePath(st *State, v Value, path []Step, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch x := v.(type) {
	case *Struct:
		n := &Struct{typ: x.typ, fs: append([]Value(nil), x.fs...)}
		n.fs[s.field] = e.storePath(st, x.fs[s.field], path[1:], nv)
		return n
	case *Arr:
		n := &Arr{es: append([]Value(nil), x.es...)}
		if s.idx.isConst() && s.idx.c >= 0 && s.idx.c < int64(len(x.es)) {
			n.es[s.idx.c] = e.storePath(st, x.es[s.idx.c], path[1:], nv)
			return n
		}
		for i := range n.es {
			n.es[i] = e.havoc(st, n.es[i], nil, "weakstore")
		}
		return n
	case *Bytes:
		c, ok := nv.(*Lin)
		if !ok {
			return &Bytes{rtermN(fresh("ext", "store"), x.r.len())}
		}
		return &Bytes{st.writeRope(x.r, s.idx, rcell(c))}
	}
	return &Opq{t: fresh("ext", "store", v, nv)}
}

func (e *Engine) load(st *State, p *Ptr, t types.Type) Value {
	o := st.obj(p.obj)
	if o == nil {
		return e.fromTerm(st, t, fresh("ext", "load"))
	}
	v := e.loadPath(st, o.v, p.path, t)
	return v
}

func (e *Engine) store(fr *Frame, st *State, p *Ptr, v Value, pos token.Pos) {
	o := st.obj(p.obj)
	if o == nil {
		return
	}
	if e.initSt != nil && (o.global != nil || e.initSt.base[p.obj] != nil) {
		name := o.site
		if o.global != nil {
			name = o.global.String()
		}
		st.emit(&Event{Name: "globalstore", Args: []Value{&Str{rlit(name)}, v}, Pos: pos, Fn: fr.fn})
	}
	if w := e.watch[p.obj]; w != "" {
		st.emit(&Event{Name: "watchstore", Args: []Value{&Str{rlit(w)}, v}, Pos: pos, Fn: fr.fn})
	}
	n := *o
	n.v = e.storePath(st, o.v, p.path, v)
	st.setObj(p.obj, &n)
}

// content is the rope of a byte slice, or of a string.
func (e *Engine) content(st *State, v Value) *Rope {
	switch x := v.(type) {
	case *Str:
		return x.r
	case *Bytes:
		return x.r
	case *Slice:
		if x.arr == nil {
			return &Rope{}
		}
		b := e.loadPath(st, st.obj(x.arr.obj).v, x.arr.path, nil)
		if bb, ok := b.(*Bytes); ok {
			return st.sliceRope(bb.r, x.off, x.n)
		}
		return rtermN(mk("bytesof", "", b, x.off, x.n), x.n)
	case *Ptr:
		b := e.loadPath(st, st.obj(x.obj).v, x.path, nil)
		if bb, ok := b.(*Bytes); ok {
			return bb.r
		}
		return rterm(mk("bytesof", "", b))
	case *Opq:
		return rterm(mk("bytesof", "", x.t))
	}
	return rterm(fresh("ext", "content"))
}

func (e *Engine) setContent(fr *Frame, st *State, s *Slice, off *Lin, r *Rope, pos token.Pos) {
	if s.arr == nil {
		return
	}
	o := st.obj(s.arr.obj)
	if o == nil {
		return
	}
	b := e.loadPath(st, o.v, s.arr.path, nil)
	if bb, ok := b.(*Bytes); ok {
		e.store(fr, st, s.arr, &Bytes{st.writeRope(bb.r, s.off.add(off), r)}, pos)
		return
	}
	e.store(fr, st, s.arr, &Opq{t: fresh("ext", "write", b, r)}, pos)
}

// havoc replaces v by an unknown of the same shape.
func (e *Engine) havoc(st *State, v Value, t types.Type, why string) Value {
	tm := func() *Term { x := fresh("phi", why); x.addDep(v); return x }
	switch x := v.(type) {
	case *Lin:
		y := tm()
		if t != nil {
			if lo, hi, ok := intRange(t); ok {
				y.lo, y.hi = lo, hi
			}
		}
		return lin(y)
	case *Bool:
		return &Bool{known: -1, p: &Pred{op: "true", a: tm()}}
	case *Str:
		return &Str{rterm(tm())}
	case *Bytes:
		return &Bytes{rtermN(tm(), x.r.len())}
	case *Struct:
		n := &Struct{typ: x.typ}
		for i, f := range x.fs {
			var ft types.Type
			if x.typ != nil {
				ft = typeAt(x.typ, []Step{{field: i}})
			}
			n.fs = append(n.fs, e.havoc(st, f, ft, why))
		}
		return n
	case *Arr:
		n := &Arr{}
		for _, f := range x.es {
			n.es = append(n.es, e.havoc(st, f, typeAt(t, []Step{{idx: con(0)}}), why))
		}
		return n
	case *Slice:
		if x.elem != nil && isByte(x.elem) {
			y := tm()
			y.addDep(e.content(st, x))
			r := rterm(y)
			c := mkIv("cap", "", 0, maxLen, y)
			p := e.newObj(st, nil, &Bytes{cat(r, rtermN(mk("spare", "", y), lin(c).sub(r.len())))}, "phi")
			st.addIneq(lin(c).sub(r.len()))
			return &Slice{arr: p, off: con(0), n: r.len(), c: lin(c), elem: x.elem, maybeNil: &Pred{op: "true", a: mk("isnil", "", y)}}
		}
		y := tm()
		n := lin(mkIv("len", "", 0, maxLen, y))
		p := e.newObj(st, nil, &Opq{t: y}, "phi")
		return &Slice{arr: p, off: con(0), n: n, c: n, elem: x.elem, maybeNil: &Pred{op: "true", a: mk("isnil", "", y)}}
	case *Mod:
		n := &Mod{kind: x.kind, f: map[string]Value{}}
		for k, f := range x.f {
			n.f[k] = e.havoc(st, f, nil, why)
		}
		return n
	case *Tup:
		n := &Tup{}
		for _, f := range x.vs {
			n.vs = append(n.vs, e.havoc(st, f, nil, why))
		}
		return n
	case *Rope:
		return rtermN(tm(), x.len())
	}
	return &Opq{t: tm(), typ: t}
}

// ---------------------------------------------------------------------------
// Interpretation.

func (e *Engine) val(fr *Frame, st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalObj(st, x)
	case *ssa.Function:
		return &Fn{fn: x}
	case *ssa.Builtin:
		return &Opq{t: mk("builtin", x.Name()), nonnil: true}
	}
	i, ok := fr.info.idx[v]
	if !ok || fr.regs[i] == nil {
		return e.fromTerm(st, v.Type(), fresh("ext", "undef "+v.Name()))
	}
	return fr.regs[i]
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return bconst(constant.BoolVal(c.Value))
	case constant.String:
		return &Str{rlit(constant.StringVal(c.Value))}
	case constant.Int:
		if _, _, ok := intRange(t); ok {
			if n, exact := constant.Int64Val(c.Value); exact && n > minI && n < maxI {
				return con(n)
			}
			return lin(mkIv("bigconst", c.Value.ExactString(), 0, maxI))
		}
	}
	return &Opq{t: mk("const", c.String()), typ: t, nonnil: true}
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.regs[fr.info.idx[v]] = x }

// callFn interprets fn on args.
func (e *Engine) callFn(fn *ssa.Function, args, binds []Value, st *State, depth int) []Exit {
	e.seenFns[fn]++
	inf := info(fn)
	fr := &Frame{fn: fn, info: inf, regs: make([]Value, len(inf.idx)), binds: binds, depth: depth,
		loops: map[*ssa.BasicBlock]*LoopCtl{}, decided: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.set(p, args[i])
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.set(p, binds[i])
		}
	}
	e.stack = append(e.stack, fn)
	n := len(e.stack)
	defer func() { e.stack = e.stack[:n-1] }()
	return e.run(fr, st, fn.Blocks[0], nil, 0)
}

func (e *Engine) enter(fr *Frame, st *State, b, prev *ssa.BasicBlock) []Exit {
	if prev != nil {
		for _, h := range fr.info.in[prev] {
			if c := fr.loops[h]; c != nil && c.probe && !fr.info.loops[h][b] {
				return nil // leaves a loop that is being abstracted
			}
		}
	}
	if body := fr.info.loops[b]; body != nil {
		ctl := fr.loops[b]
		inside := prev != nil && body[prev]
		switch {
		case inside && ctl != nil && ctl.fix:
			phi := map[*ssa.Phi]Value{}
			for _, i := range b.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				phi[p] = e.val(fr, st, p.Edges[predIndex(b, prev)])
			}
			*ctl.back = append(*ctl.back, backState{st: st, fr: fr, phi: phi})
			return nil
		case inside && ctl != nil:
			ctl.visits++
			if !fr.decided[b] || ctl.visits > 400 || e.steps-ctl.from > unrollSteps {
				panic(abortUnroll{ctl})
			}
			fr.decided[b] = false
		case !inside:
			return e.loop(fr, st, b, prev)
		}
	}
	return e.run(fr, st, b, prev, 0)
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (e *Engine) run(fr *Frame, st *State, b, prev *ssa.BasicBlock, idx int) []Exit {
	if idx == 0 {
		// phis are evaluated together
		var ps []*ssa.Phi
		var vs []Value
		for _, i := range b.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			ps = append(ps, p)
			vs = append(vs, e.val(fr, st, p.Edges[predIndex(b, prev)]))
		}
		for i, p := range ps {
			fr.set(p, vs[i])
		}
		idx = len(ps)
	}
	return e.runFrom(fr, st, b, idx)
}

func (e *Engine) runFrom(fr *Frame, st *State, b *ssa.BasicBlock, idx int) []Exit {
	for ; idx < len(b.Instrs); idx++ {
		e.steps++
		if e.steps > e.maxStep {
			panic(giveUp{"analysis budget exceeded in " + fr.fn.String()})
		}
		in := b.Instrs[idx]
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			return e.enter(fr, st, b.Succs[0], b)
		case *ssa.If:
			return e.branch(fr, st, b, x)
		case *ssa.Return:
			var v Value
			switch len(x.Results) {
			case 0:
				v = Nil{}
			case 1:
				v = e.val(fr, st, x.Results[0])
			default:
				t := &Tup{}
				for _, r := range x.Results {
					t.vs = append(t.vs, e.val(fr, st, r))
				}
				v = t
			}
			e.noteWhy(fr, st, x, v)
			return []Exit{{xRet, st, v, x.Pos()}}
		case *ssa.Panic:
			return e.unwind(fr, Exit{xPanic, st, e.val(fr, st, x.X), x.Pos()})
		case *ssa.Call:
			outs := e.call(fr, st, &x.Call, x)
			return e.cont(fr, b, idx, x, outs)
		case *ssa.Go:
			e.note(fr.fn, x.Pos(), "go statement")
			st.emit(&Event{Name: "go", Pos: x.Pos(), Fn: fr.fn})
			outs := e.call(fr, st, &x.Call, x)
			return e.cont(fr, b, idx, nil, outs)
		case *ssa.Defer:
			d := deferred{call: x}
			if x.Call.IsInvoke() {
				d.fn = e.val(fr, st, x.Call.Value)
			} else {
				d.fn = e.val(fr, st, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				if fr.preDefer == nil {
					fr.preDefer = &Why{facts: st.facts, trace: st.trace}
				}
				d := fr.defers[len(fr.defers)-1]
				fr.defers = append([]deferred(nil), fr.defers[:len(fr.defers)-1]...)
				outs := e.callVals(fr, st, &d.call.Call, d.fn, d.args, d.call)
				var ex []Exit
				for i, o := range outs {
					f := fr
					if i < len(outs)-1 {
						f = fr.clone()
					}
					if o.hlt != nil {
						ex = append(ex, e.unwind(f, *o.hlt)...)
						continue
					}
					ex = append(ex, e.runFrom(f, o.st, b, idx)...) // again
				}
				return ex
			}
		case *ssa.Store:
			e.doStore(fr, st, e.val(fr, st, x.Addr), e.val(fr, st, x.Val), x.Pos())
		case *ssa.MapUpdate:
			m := e.val(fr, st, x.Map)
			if o, ok := m.(*Opq); !ok || o.t.op != "ext" || o.t.s != "make" {
				st.emit(&Event{Name: "opaquestore", Args: []Value{m, e.val(fr, st, x.Value)}, Pos: x.Pos(), Fn: fr.fn})
			}
		case *ssa.Send:
			e.note(fr.fn, in.Pos(), fmt.Sprintf("%T not modelled", in))
		case ssa.Value:
			outs := e.instr(fr, st, x)
			if len(outs) == 1 && outs[0].hlt == nil {
				st = outs[0].st
				fr.set(x, outs[0].ret)
				continue
			}
			return e.cont(fr, b, idx, x, outs)
		default:
			e.note(fr.fn, in.Pos(), fmt.Sprintf("instruction %T not modelled", in))
		}
	}
	return nil
}

// unwind runs the deferred calls of a function that panics. If one of them
// recovers, the function returns.
func (e *Engine) unwind(fr *Frame, x Exit) []Exit {
	if x.kind != xPanic || len(fr.defers) == 0 {
		return []Exit{x}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = append([]deferred(nil), fr.defers[:len(fr.defers)-1]...)
	before := x.st.panicking
	x.st.panicking = &Panicking{val: x.val, depth: fr.depth + 1}
	if x.val == nil {
		x.st.panicking.val = &Opq{t: fresh("ext", "panic"), nonnil: true}
	}
	var ex []Exit
	outs := e.callVals(fr, x.st, &d.call.Call, d.fn, d.args, d.call)
	for i, o := range outs {
		f := fr
		if i < len(outs)-1 {
			f = fr.clone()
		}
		if o.hlt != nil {
			ex = append(ex, e.unwind(f, *o.hlt)...)
			continue
		}
		p := o.st.panicking
		o.st.panicking = before
		if p != nil {
			ex = append(ex, e.unwind(f, Exit{xPanic, o.st, x.val, x.pos})...)
			continue
		}
		ex = append(ex, e.recovered(f, o.st, x.pos)...)
	}
	return ex
}

// recovered runs what is left of a function that has recovered from a panic.
func (e *Engine) recovered(fr *Frame, st *State, pos token.Pos) []Exit {
	if len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = append([]deferred(nil), fr.defers[:len(fr.defers)-1]...)
		var ex []Exit
		outs := e.callVals(fr, st, &d.call.Call, d.fn, d.args, d.call)
		for i, o := range outs {
			f := fr
			if i < len(outs)-1 {
				f = fr.clone()
			}
			if o.hlt != nil {
				ex = append(ex, e.unwind(f, *o.hlt)...)
				continue
			}
			ex = append(ex, e.recovered(f, o.st, pos)...)
		}
		return ex
	}
	if fr.fn.Recover != nil {
		return e.run(fr, st, fr.fn.Recover, nil, 0)
	}
	rs := fr.fn.Signature.Results()
	var v Value = Nil{}
	switch rs.Len() {
	case 0:
	case 1:
		v = e.zero(rs.At(0).Type())
	default:
		t := &Tup{}
		for i := 0; i < rs.Len(); i++ {
			t.vs = append(t.vs, e.zero(rs.At(i).Type()))
		}
		v = t
	}
	return []Exit{{xRet, st, v, pos}}
}

// cont continues after instruction idx for each outcome.
func (e *Engine) cont(fr *Frame, b *ssa.BasicBlock, idx int, v ssa.Value, outs []Outcome) []Exit {
	var ex []Exit
	for i, o := range outs {
		f := fr
		if i < len(outs)-1 {
			f = fr.clone()
		}
		if o.hlt != nil {
			ex = append(ex, e.unwind(f, *o.hlt)...)
			continue
		}
		if v != nil {
			f.set(v, o.ret)
		}
		ex = append(ex, e.runFrom(f, o.st, b, idx+1)...)
	}
	return ex
}

// counts: a decided condition that may bound the iterations of a loop, other
// than an error check or a comparison that just happens to be known.
func (e *Engine) counts(fr *Frame, st *State, v ssa.Value) bool {
	w := v
	if x, ok := w.(*ssa.UnOp); ok && x.Op == token.NOT {
		w = x.X
	}
	if x, ok := w.(*ssa.Extract); ok {
		w = x.Tuple
	}
	if c, ok := w.(*ssa.Call); ok {
		// the outcome of a call that is not followed
		if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
			f := c.Call.StaticCallee()
			return f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
		}
	}
	x, ok := v.(*ssa.BinOp)
	if !ok {
		return true
	}
	a, b := e.val(fr, st, x.X), e.val(fr, st, x.Y)
	la, oka := a.(*Lin)
	lb, okb := b.(*Lin)
	if oka && okb {
		return st.simp(la.sub(lb)).isConst()
	}
	_, nila := a.(Nil)
	_, nilb := b.(Nil)
	return !nila && !nilb
}

// sameEitherWay: the two ways on from b do nothing and join with the same
// values, as where a flag that is already down is taken down again.
func (e *Engine) sameEitherWay(fr *Frame, st *State, b *ssa.BasicBlock) (join, prev *ssa.BasicBlock) {
	var j, p [2]*ssa.BasicBlock
	for k := range j {
		j[k], p[k] = b.Succs[k], b
		for n := 0; n < 8 && len(j[k].Instrs) == 1 && len(j[k].Succs) == 1 && fr.info.loops[j[k]] == nil; n++ {
			p[k], j[k] = j[k], j[k].Succs[0]
		}
	}
	if j[0] != j[1] || p[0] == p[1] {
		return nil, nil
	}
	for _, i := range j[0].Instrs {
		x, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		v, w := e.val(fr, st, x.Edges[predIndex(j[0], p[0])]), e.val(fr, st, x.Edges[predIndex(j[0], p[1])])
		if v != w && (v == nil || w == nil || v.key() != w.key()) {
			return nil, nil
		}
	}
	return j[0], p[0]
}

func (e *Engine) branch(fr *Frame, st *State, b *ssa.BasicBlock, x *ssa.If) []Exit {
	c, ok := e.val(fr, st, x.Cond).(*Bool)
	if !ok {
		c = &Bool{known: -1, p: &Pred{op: "true", a: fresh("ext", "cond")}}
	}
	k := c.known
	if k < 0 {
		if d := st.decide(c.p); d >= 0 {
			k = d
			if c.neg {
				k = 1 - k
			}
		}
	}
	if k >= 0 {
		s := b.Succs[0]
		if k == 0 {
			s = b.Succs[1]
		}
		for _, h := range fr.info.in[b] {
			body := fr.info.loops[h]
			if (!body[b.Succs[0]] || !body[b.Succs[1]]) && e.counts(fr, st, x.Cond) {
				fr.decided[h] = true
			}
		}
		return e.enter(fr, st, s, b)
	}
	if c.p.op == "lt" || c.p.op == "eq" {
		if la, ok := c.p.a.(*Lin); ok {
			if lb, ok := c.p.b.(*Lin); ok {
				d := lb.sub(la)
				for _, l := range []*Lin{d, d.addc(-1), d.addc(1), d.scale(-1), d.scale(-1).addc(-1), d.scale(-1).addc(1)} {
					if !e.cmpKey[l.key()] {
						e.cmpKey[l.key()] = true
						if len(l.ts) <= 4 {
							for _, x := range l.ts {
								e.cmps[x.t] = append(e.cmps[x.t], l)
							}
						}
					}
				}
			}
		}
	}
	if j, prev := e.sameEitherWay(fr, st, b); j != nil {
		return e.enter(fr, st, j, prev)
	}
	order := []int{0, 1}
	if hs := fr.info.in[b]; len(hs) > 0 {
		if body := fr.info.loops[hs[0]]; !body[b.Succs[0]] && body[b.Succs[1]] {
			order = []int{1, 0} // stay in the loop first
		}
	}
	var ex []Exit
	for i, k := range order {
		f, s := fr, st
		if i == 0 {
			f, s = fr.clone(), st.clone()
		}
		if !s.assume(c, k == 0) {
			continue
		}
		ex = append(ex, e.enter(f, s, b.Succs[k], b)...)
	}
	return ex
}

func one(st *State, v Value) []Outcome { return []Outcome{{st: st, ret: v}} }

func (e *Engine) doStore(fr *Frame, st *State, addr, v Value, pos token.Pos) {
	switch a := addr.(type) {
	case *Ptr:
		e.store(fr, st, a, v, pos)
	case Nil:
		e.oblig(fr, pos, "nil dereference", false, "store through nil pointer", st)
	case *Opq:
		if a.t.op == "global" {
			st.emit(&Event{Name: "globalstore", Args: []Value{&Str{rlit(a.t.s)}, v}, Pos: pos, Fn: fr.fn})
			return
		}
		e.needNonNil(fr, st, a, "store through a pointer that may be nil: ", pos)
		st.emit(&Event{Name: "opaquestore", Args: []Value{addr, v}, Pos: pos, Fn: fr.fn})
	default:
		e.note(fr.fn, pos, fmt.Sprintf("store through %T", addr))
	}
}

// needNonNil states the obligation that an opaque pointer is not nil.
func (e *Engine) needNonNil(fr *Frame, st *State, a *Opq, msg string, pos token.Pos) {
	isn := e.equal(st, a, Nil{})
	if isn.known != 0 {
		msg += a.String()
	}
	e.oblig(fr, pos, "nil dereference", isn.known == 0, msg, st)
	if isn.known < 0 {
		st.assume(isn, false)
	}
}

func (e *Engine) deref(fr *Frame, st *State, p Value, t types.Type, pos token.Pos) Value {
	switch a := p.(type) {
	case *Ptr:
		e.oblig(fr, pos, "nil dereference", true, "", st)
		return e.load(st, a, t)
	case Nil:
		e.oblig(fr, pos, "nil dereference", false, "load through nil pointer", st)
	case *Opq:
		e.needNonNil(fr, st, a, "load through a pointer that may be nil: ", pos)
		return e.fromTerm(st, t, mk("deref", "", a.t))
	}
	return e.fromTerm(st, t, fresh("ext", "deref"))
}

func (e *Engine) instr(fr *Frame, st *State, in ssa.Value) []Outcome {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return one(st, e.newObj(st, t, e.zero(t), fr.fn.Name()+":"+x.Comment))
	case *ssa.BinOp:
		return e.binop(fr, st, x)
	case *ssa.UnOp:
		v := e.val(fr, st, x.X)
		switch x.Op {
		case token.MUL:
			return one(st, e.deref(fr, st, v, x.Type(), x.Pos()))
		case token.NOT:
			if b, ok := v.(*Bool); ok {
				return one(st, b.not())
			}
		case token.SUB:
			if l, ok := v.(*Lin); ok {
				return one(st, e.inRange(st, x.Type(), l.scale(-1), "neg", l))
			}
		case token.XOR:
			if l, ok := v.(*Lin); ok {
				if isByte(x.Type()) {
					return one(st, xor8(l, con(255)))
				}
				return one(st, e.fromTerm(st, x.Type(), mk("not", "", l)))
			}
		case token.ARROW:
			e.note(fr.fn, x.Pos(), "channel receive not modelled")
		}
		return one(st, e.fromTerm(st, x.Type(), fresh("ext", "unop")))
	case *ssa.ChangeType:
		return one(st, e.val(fr, st, x.X))
	case *ssa.ChangeInterface:
		return one(st, e.val(fr, st, x.X))
	case *ssa.MakeInterface:
		return one(st, &Iface{x.X.Type(), e.val(fr, st, x.X)})
	case *ssa.MakeClosure:
		f := &Fn{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, e.val(fr, st, b))
		}
		return one(st, f)
	case *ssa.Convert:
		return one(st, e.convert(fr, st, e.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeSlice:
		n, _ := e.val(fr, st, x.Len).(*Lin)
		c, _ := e.val(fr, st, x.Cap).(*Lin)
		el := under(x.Type()).(*types.Slice).Elem()
		if n == nil || c == nil {
			return one(st, e.fromTerm(st, x.Type(), fresh("ext", "make")))
		}
		e.oblig(fr, x.Pos(), "make length", st.prove(n) && st.prove(c.sub(n)), "length "+n.String()+" may be negative or exceed the capacity "+c.String(), st)
		// lengths of objects and files are below maxLen; anything that could be
		// much more stems from the contents of the input
		e.oblig(fr, x.Pos(), "make size", st.prove(con(maxLen<<5).sub(c)), "the size "+c.String()+" has no bound that could be allocated", st)
		var v Value
		if isByte(el) {
			v = &Bytes{rzero(c)}
		} else if c.isConst() && c.c >= 0 && c.c <= 64 {
			a := &Arr{}
			for i := int64(0); i < c.c; i++ {
				a.es = append(a.es, e.zero(el))
			}
			v = a
		} else {
			v = &Opq{t: fresh("ext", "make")}
		}
		p := e.newObj(st, nil, v, fr.fn.Name()+":make")
		return one(st, &Slice{arr: p, off: con(0), n: n, c: c, elem: el})
	case *ssa.MakeMap, *ssa.MakeChan:
		how := "make"
		if e.initSt == nil {
			how = "make at init" // may be shared
		}
		return one(st, &Opq{t: fresh("ext", how), typ: in.Type(), nonnil: true})
	case *ssa.FieldAddr:
		switch p := e.val(fr, st, x.X).(type) {
		case *Ptr:
			return one(st, p.with(Step{field: x.Field}))
		case *Opq:
			e.needNonNil(fr, st, p, "field of a pointer that may be nil: ", x.Pos())
			return one(st, &Opq{t: mk("fieldaddr", fmt.Sprint(x.Field), p.t), typ: x.Type(), nonnil: true})
		case Nil:
			e.oblig(fr, x.Pos(), "nil dereference", false, "field of nil pointer", st)
		}
		return one(st, e.fromTerm(st, x.Type(), fresh("ext", "fieldaddr")))
	case *ssa.Field:
		return one(st, e.loadPath(st, e.val(fr, st, x.X), []Step{{field: x.Field}}, x.Type()))
	case *ssa.IndexAddr:
		i, ok := e.val(fr, st, x.Index).(*Lin)
		if !ok {
			i = lin(fresh("ext", "index"))
		}
		base := e.val(fr, st, x.X)
		switch p := base.(type) {
		case *Slice:
			e.index(fr, st, x.Pos(), i, p.n)
			if p.arr == nil {
				return nil // always panics
			}
			return one(st, p.arr.with(Step{idx: p.off.add(i)}))
		case *Ptr:
			e.index(fr, st, x.Pos(), i, con(arrayLen(x.X.Type())))
			return one(st, p.with(Step{idx: i}))
		case *Opq:
			if n := arrayLen(x.X.Type()); n >= 0 {
				e.index(fr, st, x.Pos(), i, con(n))
			} else {
				e.index(fr, st, x.Pos(), i, lin(mkIv("len", "", 0, maxLen, p.t)))
			}
			return one(st, &Opq{t: mk("elemaddr", "", p.t, i), typ: x.Type(), nonnil: true})
		}
		return one(st, e.fromTerm(st, x.Type(), fresh("ext", "indexaddr")))
	case *ssa.Index:
		i, ok := e.val(fr, st, x.Index).(*Lin)
		if !ok {
			i = lin(fresh("ext", "index"))
		}
		base := e.val(fr, st, x.X)
		if s, ok := base.(*Str); ok {
			e.index(fr, st, x.Pos(), i, s.r.len())
			return one(st, st.byteAt(s.r, i))
		}
		if n := arrayLen(x.X.Type()); n >= 0 {
			e.index(fr, st, x.Pos(), i, con(n))
		}
		return one(st, e.loadPath(st, base, []Step{{idx: i}}, x.Type()))
	case *ssa.Lookup:
		if s, ok := e.val(fr, st, x.X).(*Str); ok {
			if i, ok := e.val(fr, st, x.Index).(*Lin); ok {
				e.index(fr, st, x.Pos(), i, s.r.len())
				return one(st, st.byteAt(s.r, i))
			}
		}
		return one(st, e.fromTerm(st, x.Type(), fresh("ext", "lookup")))
	case *ssa.Slice:
		return e.slice(fr, st, x)
	case *ssa.SliceToArrayPointer:
		if s, ok := e.val(fr, st, x.X).(*Slice); ok && s.arr != nil {
			n := arrayLen(x.Type())
			e.oblig(fr, x.Pos(), "slice to array", st.prove(s.n.addc(-n)), "slice of length "+s.n.String()+" converted to an array of "+fmt.Sprint(n), st)
			if s.off.isConst() && s.off.c == 0 && len(s.arr.path) == 0 && s.c.isConst() && s.c.c == n {
				return one(st, s.arr)
			}
			// a view: approximated by a copy
			p := e.newObj(st, x.Type().Underlying().(*types.Pointer).Elem(), &Bytes{st.sliceRope(e.content(st, s), con(0), con(n))}, "arrayptr")
			return one(st, p)
		}
		return one(st, e.fromTerm(st, x.Type(), fresh("ext", "arrayptr")))
	case *ssa.Extract:
		if t, ok := e.val(fr, st, x.Tuple).(*Tup); ok && x.Index < len(t.vs) {
			return one(st, t.vs[x.Index])
		}
		return one(st, e.fromTerm(st, x.Type(), fresh("ext", "extract")))
	case *ssa.TypeAssert:
		v := e.val(fr, st, x.X)
		if i, ok := v.(*Iface); ok {
			match := types.Identical(i.typ, x.AssertedType)
			if it, isI := under(x.AssertedType).(*types.Interface); isI {
				match = types.Implements(i.typ, it)
			}
			var r Value = i.v
			if _, isI := under(x.AssertedType).(*types.Interface); isI {
				r = i
			}
			if x.CommaOk {
				if !match {
					r = e.zero(x.AssertedType)
				}
				return one(st, &Tup{[]Value{r, bconst(match)}})
			}
			e.oblig(fr, x.Pos(), "type assertion", match, "type assertion fails", st)
			return one(st, r)
		}
		if !x.CommaOk {
			e.oblig(fr, x.Pos(), "type assertion", false, "type assertion may fail", st)
			return one(st, e.fromTerm(st, x.AssertedType, fresh("ext", "assert", v)))
		}
		st2 := st.clone()
		return []Outcome{
			{st: st, ret: &Tup{[]Value{e.fromTerm(st, x.AssertedType, fresh("ext", "assert", v)), bconst(true)}}},
			{st: st2, ret: &Tup{[]Value{e.zero(x.AssertedType), bconst(false)}}},
		}
	case *ssa.Range:
		if s, ok := e.val(fr, st, x.X).(*Str); ok {
			return one(st, &Opq{t: mk("strrange", "", s.r), nonnil: true})
		}
		return one(st, &Opq{t: fresh("ext", "range"), nonnil: true})
	case *ssa.Next:
		// string or map iteration
		tt := x.Type().(*types.Tuple)
		st2 := st.clone()
		var vs []Value
		src := e.val(fr, st, x.Iter)
		vs = append(vs, bconst(true))
		for i := 1; i < 3; i++ {
			vs = append(vs, e.unknown(st, tt.At(i).Type(), "next", src))
		}
		return []Outcome{{st: st, ret: &Tup{vs}}, {st: st2, ret: &Tup{[]Value{bconst(false), e.zero(tt.At(1).Type()), e.zero(tt.At(2).Type())}}}}
	case *ssa.Phi:
		return one(st, e.val(fr, st, x)) // set already
	}
	e.note(fr.fn, in.Pos(), fmt.Sprintf("%T not modelled", in))
	return one(st, e.fromTerm(st, in.Type(), fresh("ext", "instr")))
}

func (e *Engine) unknown(st *State, t types.Type, why string, deps ...Value) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Nil{}
	}
	return e.fromTerm(st, t, fresh("ext", why, deps...))
}

func arrayLen(t types.Type) int64 {
	u := under(t)
	if p, ok := u.(*types.Pointer); ok {
		u = under(p.Elem())
	}
	if a, ok := u.(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func (e *Engine) index(fr *Frame, st *State, pos token.Pos, i, n *Lin) {
	ok := st.prove(i) && st.prove(n.sub(i).addc(-1))
	msg := ""
	if !ok {
		msg = "index " + i.String() + " not shown to be within length " + n.String()
	}
	e.oblig(fr, pos, "index", ok, msg, st)
	// on the surviving path it is in range
	st.addIneq(i)
	st.addIneq(n.sub(i).addc(-1))
}

func (e *Engine) slice(fr *Frame, st *State, x *ssa.Slice) []Outcome {
	get := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		if l, ok := e.val(fr, st, v).(*Lin); ok {
			return l
		}
		return lin(fresh("ext", "bound"))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = con(0)
	}
	chk := func(lo, hi, mx *Lin) {
		if lo.isConst() && hi.isConst() && mx.isConst() && 0 <= lo.c && lo.c <= hi.c && hi.c <= mx.c {
			e.oblig(fr, x.Pos(), "slice bounds", true, "", st)
			return
		}
		ok := st.prove(lo) && st.prove(hi.sub(lo)) && st.prove(mx.sub(hi))
		msg := ""
		if !ok {
			msg = "bounds [" + lo.String() + ":" + hi.String() + "] not shown to be within " + mx.String()
		}
		e.oblig(fr, x.Pos(), "slice bounds", ok, msg, st)
		st.addIneq(lo)
		st.addIneq(hi.sub(lo))
		st.addIneq(mx.sub(hi))
	}
	switch b := e.val(fr, st, x.X).(type) {
	case *Str:
		n := b.r.len()
		if hi == nil {
			hi = n
		}
		chk(lo, hi, n)
		return one(st, &Str{st.sliceRope(b.r, lo, hi.sub(lo))})
	case *Slice:
		if hi == nil {
			hi = b.n
		}
		if x.High == nil {
			chk(lo, hi, b.n)
		} else {
			chk(lo, hi, b.c)
		}
		c := b.c.sub(lo)
		if mx != nil {
			c = mx.sub(lo)
		}
		if b.arr == nil {
			return one(st, b)
		}
		return one(st, &Slice{arr: b.arr, off: b.off.add(lo), n: hi.sub(lo), c: c, elem: b.elem, maybeNil: b.maybeNil})
	case *Ptr:
		n := con(arrayLen(x.X.Type()))
		if hi == nil {
			hi = n
		}
		chk(lo, hi, n)
		c := n.sub(lo)
		if mx != nil {
			c = mx.sub(lo)
		}
		return one(st, &Slice{arr: b, off: lo, n: hi.sub(lo), c: c, elem: under(x.Type()).(*types.Slice).Elem()})
	case *Opq:
		n := lin(mkIv("len", "", 0, maxLen, b.t))
		if k := arrayLen(x.X.Type()); k >= 0 {
			n = con(k)
		}
		if hi == nil {
			hi = n
		}
		chk(lo, hi, n)
		return one(st, e.fromTerm(st, x.Type(), mk("subslice", "", b.t, lo, hi)))
	}
	return one(st, e.fromTerm(st, x.Type(), fresh("ext", "slice")))
}

// inRange returns l if it is within the range of t, else an opaque term.
func (e *Engine) inRange(st *State, t types.Type, l *Lin, op string, args ...Value) Value {
	lo, hi, ok := intRange(t)
	if !ok {
		return &Opq{t: fresh("ext", op), typ: t}
	}
	if hi >= maxI && lo <= minI { // int, int64: lengths and counters, assumed not to overflow
		return l
	}
	if (lo <= minI || st.prove(l.addc(-lo))) && (hi >= maxI || st.prove(con(hi).sub(l))) {
		return l
	}
	return lin(mkIv(op, t.String(), lo, hi, args...))
}

func (e *Engine) convert(fr *Frame, st *State, v Value, from, to types.Type) Value {
	if l, ok := v.(*Lin); ok {
		if _, _, isInt := intRange(to); isInt {
			if isByte(to) && l.isConst() {
				return con(l.c & 255)
			}
			if isByte(to) && st.prove(l) && (isQuotient(l) || !st.prove(con(255).sub(l))) {
				return lowByte(l)
			}
			if unsigned64(from) && !unsigned64(to) && !st.prove(con(1<<60).sub(l)) {
				if lo, hi, _ := intRange(to); hi >= maxI {
					return lin(mkIv("conv", to.String(), lo, hi, l))
				}
			}
			return e.inRange(st, to, l, "conv", l)
		}
		if b, ok := under(to).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return &Str{rterm(mk("runestr", "", l))}
		}
	}
	switch u := under(to).(type) {
	case *types.Slice:
		if s, ok := v.(*Str); ok && isByte(u.Elem()) {
			p := e.newObj(st, nil, &Bytes{s.r}, "convert")
			return &Slice{arr: p, off: con(0), n: s.r.len(), c: s.r.len(), elem: u.Elem()}
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if s, ok := v.(*Slice); ok && s.elem != nil && isByte(s.elem) {
				return &Str{e.content(st, s)}
			}
			if s, ok := v.(*Str); ok {
				return s
			}
		}
	case *types.Array:
		if s, ok := v.(*Slice); ok && isByte(u.Elem()) {
			e.oblig(fr, token.NoPos, "slice to array", st.prove(s.n.addc(-u.Len())), "slice too short for the array", st)
			return &Bytes{st.sliceRope(e.content(st, s), con(0), con(u.Len()))}
		}
	}
	return e.fromTerm(st, to, mk("convert", to.String(), v))
}

func (e *Engine) binop(fr *Frame, st *State, x *ssa.BinOp) []Outcome {
	a, b := e.val(fr, st, x.X), e.val(fr, st, x.Y)
	t := x.Type()
	switch x.Op {
	case token.EQL:
		return one(st, e.equal(st, a, b))
	case token.NEQ:
		return one(st, e.equal(st, a, b).not())
	}
	la, oka := a.(*Lin)
	lb, okb := b.(*Lin)
	if oka && okb {
		switch x.Op {
		case token.LSS:
			return one(st, e.less(st, la, lb))
		case token.GTR:
			return one(st, e.less(st, lb, la))
		case token.LEQ:
			return one(st, e.less(st, lb, la).not())
		case token.GEQ:
			return one(st, e.less(st, la, lb).not())
		}
		return one(st, e.arith(fr, st, x, la, lb, t))
	}
	if sa, ok := a.(*Str); ok {
		if sb, ok := b.(*Str); ok {
			switch x.Op {
			case token.ADD:
				return one(st, &Str{cat(sa.r, sb.r)})
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return one(st, &Bool{known: -1, p: &Pred{op: "true", a: mk("strcmp", x.Op.String(), sa, sb)}})
			}
		}
	}
	return one(st, e.fromTerm(st, t, mk("binop", x.Op.String()+t.String(), a, b)))
}

func (e *Engine) less(st *State, a, b *Lin) *Bool {
	p := &Pred{op: "lt", a: a, b: b}
	if k := st.decide(p); k >= 0 {
		return &Bool{known: k}
	}
	return &Bool{known: -1, p: p}
}

func (e *Engine) arith(fr *Frame, st *State, x *ssa.BinOp, a, b *Lin, t types.Type) Value {
	byteT := isByte(t)
	switch x.Op {
	case token.ADD:
		if byteT {
			if b.isConst() || a.isConst() {
				if a.isConst() {
					a, b = b, a
				}
				if st.prove(con(255).sub(a.add(b))) && st.prove(a.add(b)) && (a.single() == nil || a.single().op != "at" && a.single().op != "add8") {
					return a.add(b)
				}
				return add8(a, b.c)
			}
			return e.inRange(st, t, a.add(b), "wrapadd", a, b)
		}
		if unsigned64(t) {
			if v := joinDigits(a, b, 8); v != nil {
				return v
			}
		}
		return e.inRange(st, t, a.add(b), "wrapadd", a, b)
	case token.SUB:
		if byteT && b.isConst() {
			return add8(a, -b.c)
		}
		return e.inRange(st, t, a.sub(b), "wrapsub", a, b)
	case token.MUL:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			return e.inRange(st, t, a.scale(b.c), "wrapmul", a, b)
		}
		var lo, hi int64 = minI, maxI
		al, ah := a.iv()
		bl, bh := b.iv()
		if al >= 0 && bl >= 0 {
			lo = satMul(al, bl)
			if ah < maxI && bh < maxI {
				hi = satMul(ah, bh)
			}
		}
		if l, h, ok := intRange(t); ok && (lo < l || hi > h) {
			lo, hi = l, h
		}
		return lin(mkIv("mul", "", lo, hi, a, b))
	case token.QUO, token.REM:
		if b.isConst() && b.c != 0 {
			e.oblig(fr, x.Pos(), "division", true, "", st)
		} else {
			nz := st.decide(eqPred(b, con(0))) == 0
			e.oblig(fr, x.Pos(), "division", nz, "divisor "+b.String()+" may be zero", st)
		}
		if b.isConst() && b.c > 0 && st.prove(a) {
			if a.isConst() {
				if x.Op == token.QUO {
					return con(a.c / b.c)
				}
				return con(a.c % b.c)
			}
			lo, hi := st.bounds(a)
			if lo < 0 {
				lo = 0
			}
			h := int64(maxI)
			if hi < maxI {
				h = hi / b.c
			}
			q := lin(mkIv("div", "", lo/b.c, h, a, b))
			st.addIneq(a.sub(q.scale(b.c)))
			st.addIneq(q.scale(b.c).addc(b.c - 1).sub(a))
			if x.Op == token.QUO {
				return q
			}
			return a.sub(q.scale(b.c))
		}
		return e.fromTerm(st, t, mk("arith", x.Op.String()+t.String(), a, b))
	case token.AND:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if a.isConst() {
				return con(a.c & b.c)
			}
			if byteT {
				return mask8(a, b.c, 0)
			}
			if b.c == 255 && st.prove(a) && (isQuotient(a) || !st.prove(con(255).sub(a))) {
				return lowByte(a)
			}
			if b.c >= 0 {
				if b.c&(b.c+1) == 0 && st.prove(a) && st.prove(con(b.c).sub(a)) {
					return a
				}
				return lin(mkIv("and", "", 0, b.c, a, b))
			}
		}
	case token.OR:
		if a.isConst() {
			a, b = b, a
		}
		if a.isConst() && b.isConst() {
			return con(a.c | b.c)
		}
		if byteT && b.isConst() {
			return mask8(a, 255, b.c)
		}
		if a.equal(b) {
			return a
		}
		if n := intBytes(t); n > 1 {
			if v := joinDigits(a, b, n); v != nil {
				return v
			}
		}
		if _, hi := a.iv(); byteT || hi <= 255 {
			if _, hi := b.iv(); byteT || hi <= 255 {
				if b.isConst() && b.c == 0 {
					return a
				}
				return lin(mkIv("or", "", 0, 255, a, b))
			}
		}
	case token.AND_NOT:
		if b.isConst() {
			if a.isConst() {
				return con(a.c &^ b.c)
			}
			if byteT {
				return mask8(a, 255&^b.c, 0)
			}
		}
	case token.XOR:
		if a.isConst() && b.isConst() {
			return con(a.c ^ b.c)
		}
		if a.equal(b) {
			return con(0)
		}
		if byteT {
			return xor8(a, b)
		}
		if n := intBytes(t); n > 1 {
			if v := joinDigits(a, b, n); v != nil {
				return v
			}
		}
	case token.SHL:
		if n := intBytes(t); n > 1 && b.isConst() && b.c > 0 && b.c%8 == 0 && int(b.c/8) < n {
			if lo, _, _ := intRange(t); lo == 0 && !a.isConst() {
				if d := digits(a, n); d != nil {
					return intOf(append(zeros(int(b.c/8)), d[:n-int(b.c/8)]...))
				}
			}
		}
		if b.isConst() && b.c >= 0 && b.c < 62 {
			return e.inRange(st, t, a.scale(1<<uint(b.c)), "wrapshl", a, b)
		}
	case token.SHR:
		if n := intBytes(t); n > 1 && b.isConst() && b.c > 0 && b.c%8 == 0 && int(b.c/8) < n && !a.isConst() {
			if d := digits(a, n); d != nil {
				return intOf(append(append([]*Lin(nil), d[b.c/8:]...), zeros(int(b.c/8))...))
			}
		}
		if b.isConst() && b.c >= 0 && b.c < 62 && st.prove(a) {
			d := con(1 << uint(b.c))
			if a.isConst() {
				return con(a.c >> uint(b.c))
			}
			if b.c == 0 {
				return a
			}
			if t := a.single(); t != nil && t.op == "div" && len(t.args) == 2 {
				x, ok := t.args[0].(*Lin)
				d2, ok2 := t.args[1].(*Lin)
				if ok && ok2 && d2.isConst() && d2.c > 0 && d2.c&(d2.c-1) == 0 {
					if satMul(d2.c, d.c) >= maxI {
						return con(0)
					}
					a, d = x, con(d2.c*d.c)
				}
			}
			_, hi := st.bounds(a)
			if hi < maxI {
				hi /= d.c
			}
			q := lin(mkIv("div", "", 0, hi, a, d))
			st.addIneq(a.sub(q.scale(d.c)))
			st.addIneq(q.scale(d.c).addc(d.c - 1).sub(a))
			return q
		}
	}
	return e.fromTerm(st, t, mk("arith", x.Op.String()+t.String(), a, b))
}

// equal compares two values of the same type.
func (e *Engine) equal(st *State, a, b Value) *Bool {
	if i, ok := a.(*Iface); ok {
		if j, ok := b.(*Iface); ok {
			if !types.Identical(i.typ, j.typ) {
				return bconst(false)
			}
			return e.equal(st, i.v, j.v)
		}
	}
	na, nb := e.nilness(a), e.nilness(b)
	if na == 1 && nb == 1 {
		return bconst(true)
	}
	if na == 1 && nb == 0 || na == 0 && nb == 1 {
		return bconst(false)
	}
	switch x := a.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			p := eqPred(x, y)
			if k := st.decide(p); k >= 0 {
				return &Bool{known: k}
			}
			if r, ok := numBytes(x); ok {
				if q, ok := numBytes(y); ok {
					return e.ropeEq(st, r, q)
				}
			}
			return &Bool{known: -1, p: p}
		}
	case *Bool:
		if y, ok := b.(*Bool); ok {
			if y.known >= 0 {
				x, y = y, x
			}
			if x.known == 1 {
				return y
			}
			if x.known == 0 {
				return y.not()
			}
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			return e.ropeEq(st, x.r, y.r)
		}
	case *Bytes:
		if y, ok := b.(*Bytes); ok {
			return e.ropeEq(st, x.r, y.r)
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			return bconst(x.key() == y.key())
		}
	case *Struct:
		if y, ok := b.(*Struct); ok {
			if x.key() == y.key() {
				return bconst(true)
			}
			return &Bool{known: -1, p: eqPred(a, b)}
		}
	case *Opq:
		if y, ok := b.(*Opq); ok {
			if x.t == y.t {
				return bconst(true)
			}
			if errClass(x.t) != "" && errClass(y.t) != "" || notEOF(x.t, y.t) || notEOF(y.t, x.t) {
				return bconst(false)
			}
		}
		if _, ok := b.(*Iface); ok && errClass(x.t) != "" {
			return bconst(false)
		}
	case *Iface:
		if y, ok := b.(*Opq); ok && errClass(y.t) != "" {
			return bconst(false)
		}
	}
	if s, ok := a.(*Slice); ok && nb == 1 && s.maybeNil != nil {
		return e.known(st, s.maybeNil)
	}
	if s, ok := b.(*Slice); ok && na == 1 && s.maybeNil != nil {
		return e.known(st, s.maybeNil)
	}
	return e.known(st, eqPred(a, b))
}

func (e *Engine) known(st *State, p *Pred) *Bool {
	if k := st.decide(p); k >= 0 {
		return &Bool{known: k}
	}
	return &Bool{known: -1, p: p}
}

// numBytes are the bytes of a number that was read from eight bytes.
func numBytes(l *Lin) (*Rope, bool) {
	if t := l.single(); t != nil && t.op == "be" && t.s == "8" {
		r, ok := t.args[0].(*Rope)
		return r, ok
	}
	return nil, false
}

// anyErr: the operations whose errors may be sentinels that are not told apart
// as failures of their own.
var anyErr = map[string]bool{"lib": true, "prompt": true, "readpassword": true, "rand": true, "keygen": true, "boxgen": true,
	"loadpub": true, "loadpriv": true, "pubbox": true, "privbox": true, "decoder": true, "unmodelled": true}

// notEOF: the end of a stream is an outcome of its own.
func notEOF(err, s *Term) bool {
	return err.op == "err" && err.s == "decoder" && s.op == "global" && s.s == "io.EOF"
}

// errClass distinguishes error values that are certainly different objects.
func errClass(t *Term) string {
	switch t.op {
	case "err":
		if anyErr[t.s] {
			return ""
		}
		return t.op
	case "global":
		return t.op
	}
	return ""
}

func (e *Engine) ropeEq(st *State, a, b *Rope) *Bool {
	if a.key() == b.key() {
		return bconst(true)
	}
	if x, ok := a.lit(); ok {
		if y, ok := b.lit(); ok {
			return bconst(x == y)
		}
	}
	if st.decide(&Pred{op: "lt", a: a.len(), b: b.len()}) == 1 || st.decide(&Pred{op: "lt", a: b.len(), b: a.len()}) == 1 {
		return bconst(false)
	}
	// s == "" is len(s) == 0
	if x, ok := b.lit(); ok && x == "" {
		return e.known(st, eqPred(a.len(), con(0)))
	}
	if x, ok := a.lit(); ok && x == "" {
		return e.known(st, eqPred(b.len(), con(0)))
	}
	return e.known(st, eqPred(a, b))
}

// nilness: 1 nil, 0 not nil, -1 unknown.
func (e *Engine) nilness(v Value) int {
	switch x := v.(type) {
	case Nil:
		return 1
	case *Slice:
		if x.arr == nil {
			return 1
		}
		if x.maybeNil != nil {
			return -1
		}
		return 0
	case *Opq:
		if x.nonnil {
			return 0
		}
		return -1
	case *Ptr, *Iface, *Fn, *Struct, *Bytes, *Str, *Lin, *Bool, *Arr, *Mod:
		return 0
	}
	return -1
}

// noteWhy records the path of an error to its first return.
func (e *Engine) noteWhy(fr *Frame, st *State, x *ssa.Return, v Value) {
	n := len(x.Results)
	if n == 0 || !isErrorType(x.Results[n-1].Type()) {
		return
	}
	if t, ok := v.(*Tup); ok {
		v = t.vs[n-1]
	}
	if _, isNil := v.(Nil); isNil {
		return
	}
	k := v.key()
	if st.why != nil && st.why.key == k && !arises(x.Results[n-1]) {
		return
	}
	w := &Why{key: k, facts: st.facts, trace: st.trace, pos: x.Pos(), fn: fr.fn}
	if p := fr.preDefer; p != nil {
		w.facts, w.trace = p.facts, p.trace
	}
	st.why = w
}

// arises: the error arises here, rather than in a function that was called.
func arises(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok
	case *ssa.MakeInterface:
		switch y := x.X.(type) {
		case *ssa.Const, *ssa.Alloc:
			return true
		case *ssa.UnOp:
			_, ok := y.X.(*ssa.Alloc)
			return ok
		}
	case *ssa.ChangeInterface:
		return arises(x.X)
	}
	return false
}

// intBytes is the size of an integer type, or 0.
func intBytes(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return 8
	}
	return 0
}
