package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// The interpreter over the limb domain. Control flow that depends on the data
// forks; loops run with their concrete counters.

type lval interface{}

type lint struct {
	p      LPoly
	lo, hi *big.Int
	bits   []bitset // bit i is the disjunction of these bits of other values
}

// bitset: bit j of a value, as "key#j".
type bitset map[string]bitRef

type bitRef struct {
	p LPoly
	j int
}

type lbool struct {
	known int // 1, 0, -1: see cond
	cond  *lcond
	neg   bool
}

type lcond struct {
	op   string // "zero": p is 0; "neg": p < 0; "none": all bits are 0; "true": unknown
	p    LPoly
	bits bitset
	what string
}

type lptr struct {
	obj  int
	path string // of steps ".i"
	idx  []int
}

type lslice struct {
	arr      *lptr
	off, len int
}
type lagg struct{ es []lval } // arrays and structs
type lnil struct{}
type lopq struct {
	what   string
	nonnil bool
}
type ltuple []lval
type lfn struct {
	fn    *ssa.Function
	binds []lval
}

type lfact struct {
	c     *lcond
	truth bool
}

type lstate struct {
	mem   map[int]lval
	typ   map[int]types.Type
	facts []lfact
}

func (s *lstate) clone() *lstate {
	n := &lstate{mem: make(map[int]lval, len(s.mem)), typ: s.typ, facts: s.facts[:len(s.facts):len(s.facts)]}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

type lexit struct {
	st    *lstate
	vals  []lval
	pos   token.Pos
	panic bool
}

type limbEng struct {
	*limbCtx
	w       *World
	globals map[*ssa.Global]int
	nobj    int
	steps   int
	seen    map[*ssa.Function]int
	memo    map[string]*limbMemo
	stack   []string
	inds    map[int32]*lbool // the variables that are 1 if this holds, and 0 otherwise
	ob      func(rule string, ok bool, fn *ssa.Function, pos token.Pos, msg string, a ...interface{}) bool
	post    func(fn *ssa.Function, in []Poly, alias []int, out []Poly, pos token.Pos)
	ret     func(fn *ssa.Function, st *lstate, in []Poly, args, vals []lval)
	opens   map[string]bool // functions whose result could not be expressed
	isInit  bool
}

func newLimbEng(w *World) *limbEng {
	return &limbEng{limbCtx: newLimbCtx(), w: w, globals: map[*ssa.Global]int{}, seen: map[*ssa.Function]int{}, memo: map[string]*limbMemo{}, opens: map[string]bool{},
		ob: func(string, bool, *ssa.Function, token.Pos, string, ...interface{}) bool { return true }}
}

func (e *limbEng) fail(msg string, a ...interface{}) { panic(giveUp{fmt.Sprintf(msg, a...)}) }

func lcint(n int64) *lint { return &lint{p: lconst(n), lo: big.NewInt(n), hi: big.NewInt(n)} }

func lcbig(n *big.Int) *lint { return &lint{p: lbig(n), lo: n, hi: n} }

func (e *limbEng) unknown(name string, lo, hi *big.Int) *lint {
	v := e.fresh(name, lo, hi)
	return &lint{p: lv(v), lo: lo, hi: hi}
}

func (e *limbEng) mk(p LPoly, lo, hi *big.Int) *lint {
	l, h := e.iv(p)
	if lo != nil {
		l, h = bmax(l, lo), bmin(h, hi)
	}
	if l.Cmp(h) == 0 && !e.hasLimb(p) {
		return lcbig(l)
	}
	return &lint{p: p, lo: l, hi: h}
}

// hasLimb: p depends on limbs, which have to stay together.
func (e *limbEng) hasLimb(p LPoly) bool {
	for m := range p {
		for _, v := range m {
			if v != 0 && e.vars[v].grp != nil {
				return true
			}
		}
	}
	return false
}

func typeRange(t types.Type) (lo, hi *big.Int, w uint, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return nil, nil, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		w, signed = 8, true
	case types.Int16:
		w, signed = 16, true
	case types.Int32:
		w, signed = 32, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		w, signed = 64, true
	case types.Uint8:
		w = 8
	case types.Uint16:
		w = 16
	case types.Uint32:
		w = 32
	case types.Uint, types.Uint64, types.Uintptr:
		w = 64
	default:
		return nil, nil, 0, false
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Lsh(one, w-1)
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
	}
	return
}

func (e *limbEng) zero(t types.Type) lval {
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsInteger != 0:
			return lcint(0)
		case x.Info()&types.IsBoolean != 0:
			return &lbool{known: 0}
		}
		return &lopq{what: "zero " + t.String()}
	case *types.Array:
		a := &lagg{}
		if x.Len() > 100000 {
			e.fail("an array of %d elements", x.Len())
		}
		z := e.zero(x.Elem())
		for i := int64(0); i < x.Len(); i++ {
			a.es = append(a.es, z)
		}
		return a
	case *types.Struct:
		a := &lagg{}
		for i := 0; i < x.NumFields(); i++ {
			a.es = append(a.es, e.zero(x.Field(i).Type()))
		}
		return a
	}
	return lnil{}
}

// havoc is an unknown value of type t.
func (e *limbEng) havoc(name string, t types.Type) lval {
	switch x := under(t).(type) {
	case *types.Basic:
		if lo, hi, _, _ := typeRange(t); lo != nil {
			return e.unknown(name, lo, hi)
		}
		if x.Info()&types.IsBoolean != 0 {
			return &lbool{known: -1, cond: &lcond{op: "true", what: fmt.Sprint(name, len(e.vars))}}
		}
	case *types.Array:
		if x.Len() <= 4096 {
			a := &lagg{}
			for i := int64(0); i < x.Len(); i++ {
				a.es = append(a.es, e.havoc(fmt.Sprintf("%s[%d]", name, i), x.Elem()))
			}
			return a
		}
	case *types.Struct:
		a := &lagg{}
		for i := 0; i < x.NumFields(); i++ {
			a.es = append(a.es, e.havoc(name+"."+x.Field(i).Name(), x.Field(i).Type()))
		}
		return a
	case *types.Tuple:
		var r ltuple
		for i := 0; i < x.Len(); i++ {
			r = append(r, e.havoc(fmt.Sprint(name, i), x.At(i).Type()))
		}
		return r
	}
	return &lopq{what: name}
}

func (e *limbEng) alloc(st *lstate, t types.Type, v lval) *lptr {
	e.nobj++
	st.mem[e.nobj] = v
	st.typ[e.nobj] = t
	return &lptr{obj: e.nobj}
}

func (p *lptr) with(i int) *lptr {
	return &lptr{obj: p.obj, path: fmt.Sprintf("%s.%d", p.path, i), idx: append(p.idx[:len(p.idx):len(p.idx)], i)}
}

func (e *limbEng) load(st *lstate, p *lptr) lval {
	v := st.mem[p.obj]
	for _, i := range p.idx {
		a, ok := v.(*lagg)
		if !ok || i < 0 || i >= len(a.es) {
			e.fail("a load from an unknown place")
		}
		v = a.es[i]
	}
	return v
}

func (e *limbEng) store(st *lstate, p *lptr, v lval) {
	var set func(old lval, idx []int) lval
	set = func(old lval, idx []int) lval {
		if len(idx) == 0 {
			return v
		}
		a, ok := old.(*lagg)
		if !ok || idx[0] < 0 || idx[0] >= len(a.es) {
			e.fail("a store to an unknown place")
		}
		if e.isInit {
			a.es[idx[0]] = set(a.es[idx[0]], idx[1:])
			return a
		}
		n := &lagg{es: append([]lval(nil), a.es...)}
		n.es[idx[0]] = set(a.es[idx[0]], idx[1:])
		return n
	}
	st.mem[p.obj] = set(st.mem[p.obj], p.idx)
}

func deepCopy(v lval) lval {
	if a, ok := v.(*lagg); ok {
		n := &lagg{es: make([]lval, len(a.es))}
		for i := range a.es {
			n.es[i] = deepCopy(a.es[i])
		}
		return n
	}
	return v
}

type lframe struct {
	fn  *ssa.Function
	env map[ssa.Value]lval
	// blocks entered by this frame
	n map[*ssa.BasicBlock]int
}

func (f *lframe) clone() *lframe {
	n := &lframe{fn: f.fn, env: make(map[ssa.Value]lval, len(f.env)), n: map[*ssa.BasicBlock]int{}}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.n {
		n.n[k] = v
	}
	return n
}

func (e *limbEng) global(st *lstate, g *ssa.Global) *lptr {
	id, ok := e.globals[g]
	t := g.Type().(*types.Pointer).Elem()
	if !ok {
		e.nobj++
		id = e.nobj
		e.globals[g] = id
	}
	if _, ok := st.mem[id]; !ok {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), edPkg) {
			v := e.zero(t)
			if e.isInit {
				v = deepCopy(v)
			}
			st.mem[id] = v
		} else {
			st.mem[id] = e.havoc(g.Name(), t)
		}
		st.typ[id] = t
	}
	return &lptr{obj: id}
}

func (e *limbEng) val(f *lframe, st *lstate, v ssa.Value) lval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zero(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(x.Value) {
				return &lbool{known: 1}
			}
			return &lbool{known: 0}
		case constant.Int:
			if n, ok := new(big.Int).SetString(x.Value.ExactString(), 10); ok && isInt(x.Type()) {
				return lcbig(n)
			}
		}
		return &lopq{what: x.String(), nonnil: true}
	case *ssa.Global:
		return e.global(st, x)
	case *ssa.Function:
		return &lfn{fn: x}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	e.fail("%s has no value", v.Name())
	return nil
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *limbEng) ptr(v lval) *lptr {
	p, ok := v.(*lptr)
	if !ok {
		e.fail("an unknown pointer is used")
	}
	return p
}

func (e *limbEng) constInt(v lval) (int, bool) {
	x, ok := v.(*lint)
	if !ok || x.lo.Cmp(x.hi) != 0 || !x.lo.IsInt64() {
		return 0, false
	}
	return int(x.lo.Int64()), true
}

func (e *limbEng) call(fn *ssa.Function, args, binds []lval, st *lstate) []lexit {
	if len(fn.Blocks) == 0 {
		e.fail("%s has no body", fn)
	}
	if len(e.stack) > 60 {
		e.fail("the calls nest too deeply")
	}
	if !e.isInit {
		e.seen[fn]++
	}
	e.stack = append(e.stack, fn.String())
	f := &lframe{fn: fn, env: map[ssa.Value]lval{}, n: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = binds[i]
	}
	out := e.run(f, st, fn.Blocks[0], nil, 0)
	e.stack = e.stack[:len(e.stack)-1]
	return out
}

func (e *limbEng) run(f *lframe, st *lstate, b, prev *ssa.BasicBlock, at int) []lexit {
	for {
		if at == 0 {
			f.n[b]++
			if f.n[b] > 5000 {
				e.fail("a loop of %s does not end", f.fn)
			}
			// phis read the old values
			var phis []*ssa.Phi
			var vs []lval
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, q := range b.Preds {
					if q == prev {
						phis, vs = append(phis, p), append(vs, e.val(f, st, p.Edges[i]))
						break
					}
				}
			}
			for i, p := range phis {
				f.env[p] = vs[i]
			}
		}
		next := -1
		for i := at; i < len(b.Instrs); i++ {
			e.steps++
			if e.steps > 40000000 {
				e.fail("too many steps")
			}
			switch x := b.Instrs[i].(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				next = 0
			case *ssa.Return:
				var vs []lval
				for _, r := range x.Results {
					vs = append(vs, e.val(f, st, r))
				}
				return []lexit{{st: st, vals: vs, pos: x.Pos()}}
			case *ssa.Panic:
				return []lexit{{st: st, pos: x.Pos(), panic: true}}
			case *ssa.If:
				c, ok := e.val(f, st, x.Cond).(*lbool)
				if !ok {
					c = &lbool{known: -1, cond: &lcond{op: "true", what: x.Cond.Name() + fmt.Sprint(e.steps)}}
				}
				k := e.decide(st, c)
				if k < 0 {
					st2, f2 := st.clone(), f.clone()
					st.facts = append(st.facts, lfact{c.cond, !c.neg})
					st2.facts = append(st2.facts, lfact{c.cond, c.neg})
					out := e.run(f, st, b.Succs[0], b, 0)
					return append(out, e.run(f2, st2, b.Succs[1], b, 0)...)
				}
				next = 1 - k
			case *ssa.Call:
				outs := e.doCall(f, st, &x.Call, x)
				if len(outs) == 1 && !outs[0].panic {
					st = outs[0].st
					f.env[x] = single(outs[0].vals)
					continue
				}
				var res []lexit
				for j, o := range outs {
					if o.panic {
						res = append(res, o)
						continue
					}
					g := f
					if j < len(outs)-1 {
						g = f.clone()
					}
					g.env[x] = single(o.vals)
					res = append(res, e.run(g, o.st, b, prev, i+1)...)
				}
				return res
			default:
				e.instr(f, st, b.Instrs[i])
			}
		}
		if next < 0 {
			e.fail("a block of %s does not end", f.fn)
		}
		b, prev, at = b.Succs[next], b, 0
	}
}

func single(vs []lval) lval {
	if len(vs) == 1 {
		return vs[0]
	}
	return ltuple(vs)
}

func (e *limbEng) instr(f *lframe, st *lstate, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		f.env[x] = e.alloc(st, t, e.zero(t))
	case *ssa.Store:
		e.store(st, e.ptr(e.val(f, st, x.Addr)), e.val(f, st, x.Val))
	case *ssa.FieldAddr:
		f.env[x] = e.ptr(e.val(f, st, x.X)).with(x.Field)
	case *ssa.Field:
		if a, ok := e.val(f, st, x.X).(*lagg); ok {
			f.env[x] = a.es[x.Field]
		} else {
			f.env[x] = e.havoc("field", x.Type())
		}
	case *ssa.IndexAddr:
		i := e.index(f, st, x, x.X, x.Index)
		switch b := e.val(f, st, x.X).(type) {
		case *lptr:
			f.env[x] = b.with(i)
		case *lslice:
			f.env[x] = b.arr.with(b.off + i)
		default:
			e.fail("an unknown array is indexed in %s", f.fn)
		}
	case *ssa.Index:
		i := e.index(f, st, x, x.X, x.Index)
		a, ok := e.val(f, st, x.X).(*lagg)
		if !ok {
			e.fail("an unknown array is indexed in %s", f.fn)
		}
		f.env[x] = a.es[i]
	case *ssa.Slice:
		f.env[x] = e.slice(f, st, x)
	case *ssa.UnOp:
		f.env[x] = e.unop(f, st, x)
	case *ssa.BinOp:
		f.env[x] = e.binop(f, st, x)
	case *ssa.Convert:
		f.env[x] = e.convert(f, x, e.val(f, st, x.X))
	case *ssa.ChangeType:
		f.env[x] = e.val(f, st, x.X)
	case *ssa.ChangeInterface:
		f.env[x] = e.val(f, st, x.X)
	case *ssa.SliceToArrayPointer:
		if s, ok := e.val(f, st, x.X).(*lslice); ok && s.off == 0 && len(s.arr.idx) == 0 {
			f.env[x] = s.arr
		} else {
			e.fail("a slice is converted to an array in %s", f.fn)
		}
	case *ssa.MakeInterface:
		f.env[x] = &lopq{what: "interface", nonnil: true}
	case *ssa.MakeClosure:
		c := &lfn{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, e.val(f, st, b))
		}
		f.env[x] = c
	case *ssa.MakeSlice:
		n, ok := e.constInt(e.val(f, st, x.Len))
		if !ok || n > 100000 {
			e.fail("a slice of unknown length in %s", f.fn)
		}
		at := types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), int64(n))
		f.env[x] = &lslice{e.alloc(st, at, e.zero(at)), 0, n}
	case *ssa.Extract:
		t, ok := e.val(f, st, x.Tuple).(ltuple)
		if !ok || x.Index >= len(t) {
			f.env[x] = e.havoc("extract", x.Type())
		} else {
			f.env[x] = t[x.Index]
		}
	case *ssa.TypeAssert:
		f.env[x] = e.havoc("assert", x.Type())
	case *ssa.Defer, *ssa.RunDefers:
		// the functions of the key conversion defer nothing that computes
		if d, ok := x.(*ssa.Defer); ok && e.inEd(f.fn) {
			e.fail("a deferred call at %s", e.w.place(d.Pos()))
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = e.havoc("?", v.Type())
			return
		}
		e.fail("%s in %s is not modelled", in, f.fn)
	}
}

func (e *limbEng) inEd(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return p != nil && strings.HasPrefix(p.Path(), edPkg)
}

func (e *limbEng) inRepoFn(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (e *limbEng) index(f *lframe, st *lstate, in ssa.Instruction, base, idx ssa.Value) int {
	i, ok := e.constInt(e.val(f, st, idx))
	if !ok {
		e.ob("index", false, f.fn, in.Pos(), "an index that depends on the data")
		e.fail("an index that depends on the data in %s", f.fn)
	}
	n := -1
	switch b := e.val(f, st, base).(type) {
	case *lptr:
		if a, ok := e.load(st, b).(*lagg); ok {
			n = len(a.es)
		}
	case *lslice:
		n = b.len
	case *lagg:
		n = len(b.es)
	}
	if !e.ob("index", i >= 0 && i < n, f.fn, in.Pos(), "the index %d is outside an array of %d", i, n) {
		e.fail("an index outside its array in %s", f.fn)
	}
	return i
}

func (e *limbEng) slice(f *lframe, st *lstate, x *ssa.Slice) lval {
	lo, hi := 0, -1
	get := func(v ssa.Value, d int) int {
		if v == nil {
			return d
		}
		n, ok := e.constInt(e.val(f, st, v))
		if !ok {
			e.fail("a slice bound that depends on the data in %s", f.fn)
		}
		return n
	}
	switch b := e.val(f, st, x.X).(type) {
	case *lptr:
		a, ok := e.load(st, b).(*lagg)
		if !ok {
			break
		}
		lo, hi = get(x.Low, 0), get(x.High, len(a.es))
		if !e.ob("index", 0 <= lo && lo <= hi && hi <= len(a.es), f.fn, x.Pos(), "the slice [%d:%d] of an array of %d", lo, hi, len(a.es)) {
			e.fail("a slice outside its array in %s", f.fn)
		}
		return &lslice{b, lo, hi - lo}
	case *lslice:
		lo, hi = get(x.Low, 0), get(x.High, b.len)
		if !e.ob("index", 0 <= lo && lo <= hi && hi <= b.len, f.fn, x.Pos(), "the slice [%d:%d] of %d elements", lo, hi, b.len) {
			e.fail("a slice outside its array in %s", f.fn)
		}
		return &lslice{b.arr, b.off + lo, hi - lo}
	}
	return &lopq{what: "slice"}
}

func (e *limbEng) unop(f *lframe, st *lstate, x *ssa.UnOp) lval {
	v := e.val(f, st, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(*lptr)
		if !ok {
			return e.havoc("load", x.Type())
		}
		return e.load(st, p)
	case token.NOT:
		if b, ok := v.(*lbool); ok {
			if b.known >= 0 {
				return &lbool{known: 1 - b.known}
			}
			return &lbool{known: -1, cond: b.cond, neg: !b.neg}
		}
	case token.SUB:
		if a, ok := v.(*lint); ok {
			return e.fit(f, x, e.mk(a.p.scale(big.NewInt(-1)), new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo)), x.Type())
		}
	case token.XOR: // ^a = -1-a, modulo the width
		if a, ok := v.(*lint); ok {
			r := lconst(-1).plus(a.p, big.NewInt(-1))
			if _, hi, _, signed := typeRange(x.Type()); !signed && hi != nil {
				r = lbig(hi).plus(a.p, big.NewInt(-1))
			}
			return e.mk(r, nil, nil)
		}
	}
	return e.havoc("?", x.Type())
}

// fit brings the exact result of an operation into the type: the value must
// fit a signed type, and wraps around in an unsigned one.
func (e *limbEng) fit(f *lframe, in ssa.Instruction, a *lint, t types.Type) *lint {
	lo, hi, w, signed := typeRange(t)
	if lo == nil {
		return a
	}
	ok := a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0
	if b, isB := in.(*ssa.BinOp); signed && !ok && isB && b.Op == token.SHL {
		// bits shifted out: well defined, and often meant
		return e.mk(a.p.plus(e.floorDiv(a.p.plus(lbig(new(big.Int).Neg(lo)), bigOne), w), new(big.Int).Neg(new(big.Int).Lsh(bigOne, w))), lo, hi)
	}
	if signed {
		if !e.isInit {
			e.ob("overflow", ok, f.fn, in.Pos(), "the result may lie between %s and %s, outside %s (%s)", a.lo, a.hi, t, e.show(a.p))
		}
		if ok {
			return a
		}
		return e.unknown("overflow", lo, hi)
	}
	if ok {
		return a
	}
	r := e.mk(e.mod2(a.p, w), lo, hi)
	if a.bits != nil && len(a.bits) >= int(w) {
		r.bits = a.bits[:w]
	}
	return r
}

func (e *limbEng) convert(f *lframe, x *ssa.Convert, v lval) lval {
	a, ok := v.(*lint)
	lo, hi, w, signed := typeRange(x.Type())
	if !ok || lo == nil {
		return e.havoc("convert", x.Type())
	}
	_, _, wf, _ := typeRange(x.X.Type())
	fits := a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0
	switch {
	case fits:
		return a
	case signed && wf > w:
		// a limb that is narrowed keeps its value
		e.ob("overflow", false, f.fn, x.Pos(), "a value between %s and %s does not fit %s (%s)", a.lo, a.hi, x.Type(), e.show(a.p))
		return e.unknown("narrowed", lo, hi)
	case signed:
		return e.unknown("converted", lo, hi)
	}
	return e.fit(f, x, a, x.Type())
}

var bigOne = big.NewInt(1)

func isMask(n *big.Int) (uint, bool) { // 2^k-1
	m := new(big.Int).Add(n, bigOne)
	if n.Sign() >= 0 && new(big.Int).And(n, m).Sign() == 0 {
		return uint(n.BitLen()), true
	}
	return 0, false
}

// and is p & m for a constant m >= 0.
func (e *limbEng) and(p LPoly, m *big.Int) LPoly {
	r := LPoly{}
	for i := 0; i < m.BitLen(); {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < m.BitLen() && m.Bit(j) == 1 {
			j++
		}
		part := e.mod2(e.floorDiv(p, uint(i)), uint(j-i))
		r = r.plus(part, new(big.Int).Lsh(bigOne, uint(i)))
		i = j
	}
	return r
}

// bitsOf describes the bits of a small non-negative value.
func (e *limbEng) bitsOf(a *lint, w uint) []bitset {
	if a.bits != nil {
		return a.bits
	}
	if a.lo.Sign() < 0 || w > 64 {
		return nil
	}
	out := make([]bitset, w)
	n := a.hi.BitLen()
	if c, ok := a.p.constant(); ok {
		for i := range out {
			if c.Bit(i) == 1 {
				out[i] = bitset{"1": {lconst(1), 0}}
			} else {
				out[i] = bitset{}
			}
		}
		return out
	}
	k := a.p.key()
	for i := range out {
		out[i] = bitset{}
		if i < n {
			out[i][fmt.Sprintf("%s#%d", k, i)] = bitRef{a.p, i}
		}
	}
	return out
}

func (e *limbEng) binop(f *lframe, st *lstate, x *ssa.BinOp) lval {
	a, b := e.val(f, st, x.X), e.val(f, st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return e.compare(x.Op, a, b)
	}
	la, oka := a.(*lint)
	lb, okb := b.(*lint)
	if !oka || !okb {
		return e.havoc("?", x.Type())
	}
	cb, bConst := lb.p.constant()
	ca, aConst := la.p.constant()
	switch x.Op {
	case token.ADD:
		r := e.mk(la.p.plus(lb.p, bigOne), new(big.Int).Add(la.lo, lb.lo), new(big.Int).Add(la.hi, lb.hi))
		return e.fit(f, x, r, x.Type())
	case token.SUB:
		r := e.mk(la.p.plus(lb.p, big.NewInt(-1)), new(big.Int).Sub(la.lo, lb.hi), new(big.Int).Sub(la.hi, lb.lo))
		return e.fit(f, x, r, x.Type())
	case token.MUL:
		lo, hi := mulIv(la.lo, la.hi, lb.lo, lb.hi)
		return e.fit(f, x, e.mk(la.p.times(lb.p), lo, hi), x.Type())
	case token.SHL:
		if bConst && cb.IsUint64() && cb.Uint64() < 64 {
			k := new(big.Int).Lsh(bigOne, uint(cb.Uint64()))
			r := e.mk(la.p.scale(k), new(big.Int).Mul(la.lo, k), new(big.Int).Mul(la.hi, k))
			return e.fit(f, x, r, x.Type())
		}
	case token.SHR:
		if bConst && cb.IsUint64() && cb.Uint64() < 64 {
			k := uint(cb.Uint64())
			if la.bits != nil {
				r := e.unknown("bits", new(big.Int), new(big.Int).Rsh(la.hi, k))
				r.bits = make([]bitset, len(la.bits))
				for i := range r.bits {
					r.bits[i] = bitset{}
					if i+int(k) < len(la.bits) {
						r.bits[i] = la.bits[i+int(k)]
					}
				}
				return r
			}
			return e.mk(e.floorDiv(la.p, k), new(big.Int).Rsh(la.lo, k), new(big.Int).Rsh(la.hi, k))
		}
	case token.QUO, token.REM:
		if k, ok := pow2(cb); bConst && ok && la.lo.Sign() >= 0 {
			if x.Op == token.QUO {
				return e.mk(e.floorDiv(la.p, k), nil, nil)
			}
			return e.mk(e.mod2(la.p, k), nil, nil)
		}
		if aConst && bConst && cb.Sign() != 0 {
			if x.Op == token.QUO {
				return lcbig(new(big.Int).Quo(ca, cb))
			}
			return lcbig(new(big.Int).Rem(ca, cb))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return e.bitop(f, x, la, lb)
	}
	return e.havoc("?", x.Type())
}

func pow2(n *big.Int) (uint, bool) {
	if n == nil || n.Sign() <= 0 {
		return 0, false
	}
	k := uint(n.BitLen() - 1)
	return k, new(big.Int).Lsh(bigOne, k).Cmp(n) == 0
}

func (e *limbEng) bitop(f *lframe, x *ssa.BinOp, a, b *lint) lval {
	_, _, w, _ := typeRange(x.Type())
	if _, ok := a.p.constant(); ok && x.Op != token.AND_NOT {
		a, b = b, a
	}
	cb, bConst := b.p.constant()
	if bConst && a.bits == nil {
		if cb.Sign() < 0 { // a mask of high bits: a & ^m = a - a&m
			switch x.Op {
			case token.AND:
				m := new(big.Int).Not(cb)
				return e.mk(a.p.plus(e.and(a.p, m), big.NewInt(-1)), nil, nil)
			}
			return e.havoc("?", x.Type())
		}
		m := e.and(a.p, cb)
		switch x.Op {
		case token.AND:
			return e.mk(m, new(big.Int), cb)
		case token.OR:
			return e.mk(a.p.plus(b.p, bigOne).plus(m, big.NewInt(-1)), nil, nil)
		case token.XOR:
			return e.mk(a.p.plus(b.p, bigOne).plus(m, big.NewInt(-2)), nil, nil)
		case token.AND_NOT:
			return e.mk(a.p.plus(m, big.NewInt(-1)), nil, nil)
		}
	}
	if (x.Op == token.OR || x.Op == token.XOR) && a.bits == nil && b.bits == nil {
		// bits that do not meet
		for i, p := range []*lint{a, b} {
			q := b
			if i == 1 {
				q = a
			}
			if p.lo.Sign() >= 0 && e.multiple(q.p, uint(p.hi.BitLen())) {
				return e.mk(a.p.plus(b.p, bigOne), nil, nil)
			}
		}
	}
	ba, bb := e.bitsOf(a, w), e.bitsOf(b, w)
	if ba == nil || bb == nil || len(ba) != len(bb) || x.Op == token.XOR || x.Op == token.AND_NOT || x.Op == token.AND && !bConst {
		return e.havoc("?", x.Type())
	}
	lo, hi, _, _ := typeRange(x.Type())
	r := &lint{}
	r.bits = make([]bitset, len(ba))
	top := 0
	for i := range ba {
		s := bitset{}
		if x.Op == token.AND {
			if cb.Bit(i) == 1 {
				s = ba[i]
			}
		} else {
			for k, v := range ba[i] {
				s[k] = v
			}
			for k, v := range bb[i] {
				s[k] = v
			}
		}
		r.bits[i] = s
		if len(s) > 0 {
			top = i + 1
		}
	}
	if lo.Sign() == 0 || top < int(w) {
		lo, hi = new(big.Int), bmin(hi, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(top)), bigOne))
	}
	u := e.unknown("bits", lo, hi)
	r.p, r.lo, r.hi = u.p, lo, hi
	if top == 0 {
		return lcint(0)
	}
	return r
}

func (e *limbEng) multiple(p LPoly, k uint) bool {
	m := new(big.Int).Sub(new(big.Int).Lsh(bigOne, k), bigOne)
	for _, c := range p {
		if new(big.Int).And(new(big.Int).Abs(c), m).Sign() != 0 {
			return false
		}
	}
	return true
}

func (e *limbEng) compare(op token.Token, a, b lval) lval {
	known := func(t bool) lval {
		if t {
			return &lbool{known: 1}
		}
		return &lbool{known: 0}
	}
	switch x := a.(type) {
	case *lint:
		y, ok := b.(*lint)
		if !ok {
			break
		}
		switch op {
		case token.EQL, token.NEQ:
			neg := op == token.NEQ
			if x.hi.Cmp(y.lo) < 0 || y.hi.Cmp(x.lo) < 0 {
				return known(neg)
			}
			if x.lo.Cmp(x.hi) == 0 && y.lo.Cmp(y.hi) == 0 && x.lo.Cmp(y.lo) == 0 {
				return known(!neg)
			}
			if y.bits != nil {
				x, y = y, x
			}
			if t, ok := e.indicator(x.p.plus(y.p, big.NewInt(-1))); ok {
				if t.known >= 0 {
					return known((t.known == 1) != neg)
				}
				return &lbool{known: -1, cond: t.cond, neg: t.neg != neg}
			}
			if x.bits != nil {
				all := bitset{}
				n, last := 0, 0
				for i, s := range x.bits {
					if len(s) > 0 {
						n, last = n+1, i
					}
					for k, v := range s {
						all[k] = v
					}
				}
				if c, ok := y.p.constant(); ok {
					if c.Sign() == 0 {
						return &lbool{known: -1, cond: &lcond{op: "none", bits: all}, neg: neg}
					}
					if n == 1 && c.Cmp(new(big.Int).Lsh(bigOne, uint(last))) == 0 {
						return &lbool{known: -1, cond: &lcond{op: "none", bits: all}, neg: !neg}
					}
				}
			}
			return &lbool{known: -1, cond: &lcond{op: "zero", p: x.p.plus(y.p, big.NewInt(-1))}, neg: neg}
		}
		// x < y: x-y < 0
		l, r, neg := x, y, false
		switch op {
		case token.GTR:
			l, r = y, x
		case token.GEQ:
			neg = true
		case token.LEQ:
			l, r, neg = y, x, true
		}
		if l.hi.Cmp(r.lo) < 0 {
			return known(!neg)
		}
		if l.lo.Cmp(r.hi) >= 0 {
			return known(neg)
		}
		return &lbool{known: -1, cond: &lcond{op: "neg", p: l.p.plus(r.p, big.NewInt(-1))}, neg: neg}
	case *lagg:
		y, ok := b.(*lagg)
		if !ok || len(x.es) != len(y.es) {
			break
		}
		// equal arrays of bytes: when one is zero, the bits of the other
		all := bitset{}
		same := true
		for i := range x.es {
			p, ok1 := x.es[i].(*lint)
			q, ok2 := y.es[i].(*lint)
			if !ok1 || !ok2 {
				return e.havoc("?", types.Typ[types.Bool])
			}
			d := e.mk(p.p.plus(q.p, big.NewInt(-1)), nil, nil)
			if c, ok := d.p.constant(); ok {
				if c.Sign() != 0 {
					return known(op == token.NEQ)
				}
				continue
			}
			same = false
			if d.lo.Sign() < 0 {
				d = e.mk(q.p.plus(p.p, big.NewInt(-1)), nil, nil)
			}
			bs := e.bitsOf(d, 64)
			if bs == nil {
				return e.havoc("?", types.Typ[types.Bool])
			}
			for _, s := range bs {
				for k, v := range s {
					all[k] = v
				}
			}
		}
		if same {
			return known(op == token.EQL)
		}
		return &lbool{known: -1, cond: &lcond{op: "none", bits: all}, neg: op == token.NEQ}
	case lnil:
		switch y := b.(type) {
		case lnil:
			return known(op == token.EQL)
		case *lopq:
			if y.nonnil {
				return known(op == token.NEQ)
			}
		case *lptr, *lslice, *lfn:
			return known(op == token.NEQ)
		}
	default:
		if _, ok := b.(lnil); ok {
			switch y := a.(type) {
			case *lopq:
				if y.nonnil {
					return known(op == token.NEQ)
				}
			case *lptr, *lslice, *lfn:
				return known(op == token.NEQ)
			}
		}
	}
	return &lbool{known: -1, cond: &lcond{op: "true", what: fmt.Sprint("compare", e.steps)}}
}

// indicator: whether p is zero, where p depends only on a variable that says
// 1 for a condition that holds and 0 for one that does not.
func (e *limbEng) indicator(p LPoly) (*lbool, bool) {
	c0, c1 := new(big.Int), new(big.Int)
	v := int32(0)
	for m, c := range p {
		switch {
		case m == mono{}:
			c0 = c
		case m.degree() == 1 && v == 0:
			v, c1 = m[0], c
		default:
			return nil, false
		}
	}
	t := e.inds[v]
	if v == 0 || t == nil {
		return nil, false
	}
	switch {
	case c0.Sign() == 0:
		return &lbool{known: -1, cond: t.cond, neg: !t.neg}, true
	case new(big.Int).Add(c0, c1).Sign() == 0:
		return t, true
	}
	return &lbool{known: 0}, true
}

func (c *lcond) key() string {
	switch c.op {
	case "none":
		s := bitset(c.bits)
		return "none|" + strings.Join(sortedKeys(s), ",")
	case "true":
		return "true|" + c.what
	}
	return c.op + "|" + c.p.key()
}

func sortedKeys(s bitset) []string {
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func (e *limbEng) decide(st *lstate, b *lbool) int {
	if b.known >= 0 {
		return b.known
	}
	k := b.cond.key()
	for _, f := range st.facts {
		if f.c.key() == k {
			if f.truth != b.neg {
				return 1
			}
			return 0
		}
	}
	return -1
}
