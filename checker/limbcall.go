package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

// ---------------------------------------------------------------------------
// Calls.

func (e *limbEng) doCall(f *lframe, st *lstate, c *ssa.CallCommon, x *ssa.Call) []lexit {
	one := func(v lval) []lexit { return []lexit{{st: st, vals: []lval{v}}} }
	var args []lval
	for _, a := range c.Args {
		args = append(args, e.val(f, st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return one(e.builtin(f, st, b.Name(), args, x))
	}
	var fn *ssa.Function
	var binds []lval
	if !c.IsInvoke() {
		if g, ok := e.val(f, st, c.Value).(*lfn); ok {
			fn, binds = g.fn, g.binds
		}
	}
	if fn != nil && e.isInit && fn.Name() == "init" && fn != f.fn && !e.inEd(fn) {
		return one(ltuple(nil))
	}
	if fn != nil && (e.inEd(fn) || e.inRepoFn(fn)) && len(fn.Blocks) > 0 {
		return e.invoke(fn, args, binds, st, x.Pos())
	}
	return one(e.external(f, st, fn, c, args, x))
}

// invoke calls a function of the repository.
func (e *limbEng) invoke(fn *ssa.Function, args, binds []lval, st *lstate, pos token.Pos) []lexit {
	if outs := e.memoised(fn, args, st, pos); outs != nil {
		return outs
	}
	in := make([]Poly, len(args))
	for i, a := range args {
		if p, ok := a.(*lptr); ok && isLimbs(e.typeAt(st, p)) {
			in[i], _ = e.valueOf(st, p)
		}
	}
	outs := e.call(fn, args, binds, st)
	for i := range outs {
		if outs[i].panic {
			continue
		}
		e.reduceArgs(fn, outs[i].st, args)
		if e.ret != nil {
			e.ret(fn, outs[i].st, in, args, outs[i].vals)
		}
		for j, v := range outs[i].vals {
			outs[i].vals[j] = e.reduceVal(fn, outs[i].st, v)
		}
	}
	return outs
}

func (e *limbEng) builtin(f *lframe, st *lstate, name string, args []lval, x *ssa.Call) lval {
	switch name {
	case "len", "cap":
		switch s := args[0].(type) {
		case *lslice:
			return lcint(int64(s.len))
		case lnil:
			return lcint(0)
		case *lagg:
			return lcint(int64(len(s.es)))
		case *lptr:
			if a, ok := e.load(st, s).(*lagg); ok {
				return lcint(int64(len(a.es)))
			}
		}
	case "copy":
		d, ok1 := args[0].(*lslice)
		s, ok2 := args[1].(*lslice)
		if ok1 && ok2 {
			n := d.len
			if s.len < n {
				n = s.len
			}
			var vs []lval
			for i := 0; i < n; i++ {
				vs = append(vs, e.load(st, s.arr.with(s.off+i)))
			}
			for i, v := range vs {
				e.store(st, d.arr.with(d.off+i), v)
			}
			return lcint(int64(n))
		}
		if ok1 {
			for i := 0; i < d.len; i++ {
				e.store(st, d.arr.with(d.off+i), e.unknown("copied", new(big.Int), big.NewInt(255)))
			}
			return e.havoc("copy", types.Typ[types.Int])
		}
	case "clear":
		if d, ok := args[0].(*lslice); ok {
			for i := 0; i < d.len; i++ {
				e.store(st, d.arr.with(d.off+i), lcint(0))
			}
			return lnil{}
		}
	case "append":
		a, ok1 := args[0].(*lslice)
		_, isNil := args[0].(lnil)
		b, ok2 := args[1].(*lslice)
		if (ok1 || isNil) && ok2 {
			var vs []lval
			for i := 0; ok1 && i < a.len; i++ {
				vs = append(vs, e.load(st, a.arr.with(a.off+i)))
			}
			for i := 0; i < b.len; i++ {
				vs = append(vs, e.load(st, b.arr.with(b.off+i)))
			}
			at := types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), int64(len(vs)))
			return &lslice{e.alloc(st, at, &lagg{es: vs}), 0, len(vs)}
		}
	case "min", "max":
		ok := true
		lo, hi := (*big.Int)(nil), (*big.Int)(nil)
		for _, a := range args {
			i, isI := a.(*lint)
			if !isI {
				ok = false
				break
			}
			if lo == nil {
				lo, hi = i.lo, i.hi
			} else if name == "min" {
				lo, hi = bmin(lo, i.lo), bmin(hi, i.hi)
			} else {
				lo, hi = bmax(lo, i.lo), bmax(hi, i.hi)
			}
		}
		if ok && lo != nil {
			return e.unknown(name, lo, hi)
		}
	}
	if x.Type() == nil {
		return lnil{}
	}
	return e.havoc(name, x.Type())
}

// external models a call that leaves the repository.
func (e *limbEng) external(f *lframe, st *lstate, fn *ssa.Function, c *ssa.CallCommon, args []lval, x *ssa.Call) lval {
	name := ""
	if fn != nil {
		name = fn.String()
	} else if c.IsInvoke() {
		name = c.Method.FullName()
	}
	le := func(n int) lval {
		s, ok := args[len(args)-1].(*lslice)
		if !ok || s.len < n {
			return e.havoc("?", x.Type())
		}
		p := LPoly{}
		for i := 0; i < n; i++ {
			b, ok := e.load(st, s.arr.with(s.off+i)).(*lint)
			if !ok {
				return e.havoc("?", x.Type())
			}
			p = p.plus(b.p, new(big.Int).Lsh(bigOne, uint(8*i)))
		}
		return e.mk(p, nil, nil)
	}
	put := func(n int) bool {
		s, ok := args[len(args)-2].(*lslice)
		v, ok2 := args[len(args)-1].(*lint)
		if !ok || !ok2 || s.len < n {
			return false
		}
		for i := 0; i < n; i++ {
			e.store(st, s.arr.with(s.off+i), e.mk(e.mod2(e.floorDiv(v.p, uint(8*i)), 8), new(big.Int), big.NewInt(255)))
		}
		return true
	}
	switch name {
	case "(encoding/binary.littleEndian).Uint16":
		return le(2)
	case "(encoding/binary.littleEndian).Uint32":
		return le(4)
	case "(encoding/binary.littleEndian).Uint64":
		return le(8)
	case "(encoding/binary.littleEndian).PutUint16":
		if put(2) {
			return lnil{}
		}
	case "(encoding/binary.littleEndian).PutUint32":
		if put(4) {
			return lnil{}
		}
	case "(encoding/binary.littleEndian).PutUint64":
		if put(8) {
			return lnil{}
		}
	case "errors.New", "fmt.Errorf":
		return &lopq{what: "error", nonnil: true}
	case "bytes.Equal":
		a, ok1 := args[0].(*lslice)
		b, ok2 := args[1].(*lslice)
		if ok1 && ok2 && a.len == b.len {
			return e.compare(token.EQL, e.sliceVals(st, a), e.sliceVals(st, b))
		}
	case "crypto/subtle.ConstantTimeCompare":
		a, ok1 := args[0].(*lslice)
		b, ok2 := args[1].(*lslice)
		if ok1 && ok2 && a.len == b.len {
			if t, ok := e.compare(token.EQL, e.sliceVals(st, a), e.sliceVals(st, b)).(*lbool); ok {
				if t.known >= 0 {
					return lcint(int64(t.known))
				}
				r := e.unknown("equal", new(big.Int), bigOne)
				v, _ := r.p.single()
				if e.inds == nil {
					e.inds = map[int32]*lbool{}
				}
				e.inds[v] = t
				return r
			}
		}
	}
	// what it may write is unknown afterwards
	for i, a := range args {
		switch p := a.(type) {
		case *lptr:
			e.store(st, p, e.havoc("written by "+name, e.typeAt(st, p)))
		case *lslice:
			if fn != nil && readsOnly(name) {
				continue
			}
			for j := 0; j < p.len; j++ {
				e.store(st, p.arr.with(p.off+j), e.havoc("written by "+name, e.typeAt(st, p.arr.with(p.off+j))))
			}
		}
		_ = i
	}
	return e.havoc(name, x.Type())
}

func readsOnly(name string) bool {
	return strings.HasPrefix(name, "crypto/sha512.Sum") || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "crypto/subtle.")
}

func (e *limbEng) sliceVals(st *lstate, s *lslice) *lagg {
	a := &lagg{}
	for i := 0; i < s.len; i++ {
		a.es = append(a.es, e.load(st, s.arr.with(s.off+i)))
	}
	return a
}

func (e *limbEng) typeAt(st *lstate, p *lptr) types.Type {
	t := st.typ[p.obj]
	for _, i := range p.idx {
		switch x := under(t).(type) {
		case *types.Array:
			t = x.Elem()
		case *types.Struct:
			t = x.Field(i).Type()
		}
	}
	return t
}

func isLimbs(t types.Type) bool {
	if t == nil {
		return false
	}
	a, ok := under(t).(*types.Array)
	if !ok || a.Len() != 10 {
		return false
	}
	b, ok := under(a.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isEnc(t types.Type) bool {
	if t == nil {
		return false
	}
	a, ok := under(t).(*types.Array)
	if !ok || a.Len() != 32 {
		return false
	}
	b, ok := under(a.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---------------------------------------------------------------------------
// From limbs to elements.

func (e *limbEng) limbsAt(v lval, n int) []*lint {
	a, ok := v.(*lagg)
	if !ok || len(a.es) != n {
		return nil
	}
	out := make([]*lint, n)
	for i, x := range a.es {
		l, ok := x.(*lint)
		if !ok {
			return nil
		}
		out[i] = l
	}
	return out
}

func weightedSum(ls []*lint, bytes bool) LPoly {
	s := LPoly{}
	for i, l := range ls {
		sh := uint(8 * i)
		if !bytes {
			sh = limbExp[i]
		}
		s = s.plus(l.p, new(big.Int).Lsh(bigOne, sh))
	}
	return s
}

func (e *limbEng) valueOf(st *lstate, p *lptr) (Poly, bool) {
	ls := e.limbsAt(e.load(st, p), 10)
	if ls == nil {
		return nil, false
	}
	return e.resolve(weightedSum(ls, false))
}

func (g *lgroup) sumPoly() LPoly {
	if g.sum == nil {
		s := LPoly{}
		for i := 0; i < g.n; i++ {
			sh := uint(8 * i)
			if !g.bytes {
				sh = limbExp[i]
			}
			s = s.plus(lv(g.vars[i]), new(big.Int).Lsh(bigOne, sh))
		}
		g.sum = s.modp()
	}
	return g.sum
}

func (e *limbEng) group(n int, val Poly, lo, hi []*big.Int, name string) *lgroup {
	g := &lgroup{n: n, val: val, bytes: n == 32}
	for i := 0; i < n; i++ {
		v := e.fresh(fmt.Sprintf("%s[%d]", name, i), lo[i], hi[i])
		e.vars[v].grp, e.vars[v].idx = g, i
		g.vars[i] = v
	}
	return g
}

// resolve finds the element of the field that the integer s is modulo p, as
// an expression over those that its variables are the limbs of.
func (e *limbEng) resolve(s LPoly) (Poly, bool) {
	s = s.modp()
	out := Poly{}
	sub := func(k *big.Int, q LPoly) { s = s.plus(q, new(big.Int).Neg(k)).modp() }
	for n := 0; n < 400; n++ {
		var m mono
		found := false
		for x := range s {
			if x.degree() == 2 {
				if !found || monoLess(x, m) {
					m, found = x, true
				}
			}
			if x.degree() > 2 {
				return nil, false
			}
		}
		if !found {
			break
		}
		a, b := e.vars[m[0]].grp, e.vars[m[1]].grp
		if a == nil || b == nil {
			return nil, false
		}
		k := s[mono{a.vars[0]}.times(mono{b.vars[0]})]
		if k == nil {
			return nil, false
		}
		k = new(big.Int).Set(k)
		sub(k, a.sumPoly().times(b.sumPoly()))
		if s[m] != nil {
			return nil, false
		}
		out = out.add(e.feMul(a.val, b.val).mul(pconst(k)), 1)
	}
	for n := 0; n < 400; n++ {
		var g *lgroup
		for x := range s {
			if x.degree() == 1 && e.vars[x[0]].grp != nil {
				if h := e.vars[x[0]].grp; g == nil || h.vars[0] < g.vars[0] {
					g = h
				}
			}
		}
		if g == nil {
			break
		}
		k := s[mono{g.vars[0]}]
		if k == nil {
			return nil, false
		}
		k = new(big.Int).Set(k)
		sub(k, g.sumPoly())
		for i := 0; i < g.n; i++ {
			if s[mono{g.vars[i]}] != nil {
				return nil, false
			}
		}
		out = out.add(g.val.mul(pconst(k)), 1)
	}
	s = e.unify(s).modp()
	if k, ok := s.constant(); ok {
		return out.add(pconst(k), 1), true
	}
	// the rest: a quantity that comes in with the arguments
	c := s[m1]
	rest := LPoly{}
	for m, x := range s {
		if m == m1 {
			continue
		}
		if m.degree() != 1 || !e.vars[m[0]].raw {
			return nil, false
		}
		rest[m] = x
	}
	if c != nil {
		out = out.add(pconst(c), 1)
	}
	key := rest.key()
	if e.rawFe[key] == nil {
		e.rawFe[key] = pvar(fmt.Sprintf("in%d:%s", len(e.rawFe), e.show(rest)))
	}
	return out.add(e.rawFe[key], 1), true
}

// unify writes carries that are equal as one.
func (e *limbEng) unify(s LPoly) LPoly {
	for again := true; again; {
		again = false
		ms := s.monos()
		for i, a := range ms {
			for _, b := range ms[i+1:] {
				if a.degree() != 1 || b.degree() != 1 || s[a] == nil || s[b] == nil {
					continue
				}
				if va, vb := e.vars[a[0]], e.vars[b[0]]; va.def != nil && vb.def != nil && e.equalVars(a[0], b[0]) {
					s = s.plus(lv(b[0]).plus(lv(a[0]), big.NewInt(-1)), new(big.Int).Neg(s[b]))
					again = true
				}
			}
		}
	}
	return s
}

func monoLess(a, b mono) bool {
	for k := range a {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	return false
}

func (e *limbEng) equalVars(a, b int32) bool {
	k := [2]int32{a, b}
	if r, ok := e.same[k]; ok {
		return r
	}
	lo, hi := e.iv(lv(a).plus(lv(b), big.NewInt(-1)))
	e.same[k] = lo.Sign() == 0 && hi.Sign() == 0
	return e.same[k]
}

// reduce replaces an array of limbs, or of bytes, by fresh ones of the same
// element, when what it holds has become an expression.
func (e *limbEng) reduce(fn *ssa.Function, v lval) lval {
	if ls := e.limbsAt(v, 10); ls != nil {
		cx := false
		for _, l := range ls {
			cx = cx || l.p.complex(e.limbCtx)
		}
		if !cx {
			return v
		}
		val, ok := e.resolve(weightedSum(ls, false))
		if !ok {
			e.opens[fn.String()] = true
			return v
		}
		lo, hi := make([]*big.Int, 10), make([]*big.Int, 10)
		for i, l := range ls {
			lo[i], hi[i] = l.lo, l.hi
		}
		g := e.group(10, val, lo, hi, fn.Name())
		return e.groupVal(g)
	}
	if ls := e.limbsAt(v, 32); ls != nil {
		cx := false
		for _, l := range ls {
			if l.hi.Cmp(big.NewInt(255)) > 0 || l.lo.Sign() < 0 || l.bits != nil {
				return v
			}
			for m := range l.p {
				for _, x := range m {
					if x != 0 && !e.vars[x].raw && !(e.vars[x].grp != nil && e.vars[x].grp.bytes) {
						cx = true
					}
				}
			}
		}
		if !cx {
			return v
		}
		s := weightedSum(ls, true)
		val, ok := e.resolve(s)
		if !ok {
			return v
		}
		l, h := e.iv(s)
		if h.Cmp(fieldP) >= 0 || l.Sign() < 0 {
			l2, h2 := e.iv(e.unify(s))
			l, h = bmax(l, l2), bmin(h, h2)
		}
		if l.Sign() < 0 || h.Cmp(fieldP) >= 0 {
			e.ob("canonical", false, fn, fn.Pos(), "the 32 bytes are a number between %s and p%+d, which need not be the least residue", l, new(big.Int).Sub(h, fieldP))
			return v
		}
		e.ob("canonical", true, fn, fn.Pos(), "")
		lo, hi := make([]*big.Int, 32), make([]*big.Int, 32)
		for i, l := range ls {
			lo[i], hi[i] = l.lo, l.hi
		}
		if hi[31].Cmp(big.NewInt(127)) > 0 {
			hi[31] = big.NewInt(127)
		}
		return e.groupVal(e.group(32, val, lo, hi, "encoding"))
	}
	return v
}

func (e *limbEng) groupVal(g *lgroup) *lagg {
	a := &lagg{}
	for i := 0; i < g.n; i++ {
		x := e.vars[g.vars[i]]
		if x.lo.Cmp(x.hi) == 0 {
			// keeps the variable: its group must stay whole
			a.es = append(a.es, &lint{p: lv(g.vars[i]), lo: x.lo, hi: x.hi})
			continue
		}
		a.es = append(a.es, &lint{p: lv(g.vars[i]), lo: x.lo, hi: x.hi})
	}
	return a
}

// reduceArgs reduces what the pointers that were passed point to.
func (e *limbEng) reduceArgs(fn *ssa.Function, st *lstate, args []lval) {
	if !e.inRepoFn(fn) {
		return
	}
	done := map[string]bool{}
	var walk func(p *lptr, t types.Type)
	walk = func(p *lptr, t types.Type) {
		k := fmt.Sprint(p.obj, p.path)
		if done[k] || t == nil {
			return
		}
		done[k] = true
		switch x := under(t).(type) {
		case *types.Array:
			if isLimbs(t) || isEnc(t) {
				old := e.load(st, p)
				if n := e.reduce(fn, old); n != old {
					e.store(st, p, n)
				}
			}
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				walk(p.with(i), x.Field(i).Type())
			}
		}
	}
	for _, a := range args {
		switch p := a.(type) {
		case *lptr:
			walk(p, e.typeAt(st, p))
		case *lslice:
			walk(p.arr, e.typeAt(st, p.arr))
		}
	}
}

func (e *limbEng) reduceVal(fn *ssa.Function, st *lstate, v lval) lval {
	switch x := v.(type) {
	case *lagg:
		if len(x.es) == 10 || len(x.es) == 32 {
			return e.reduce(fn, x)
		}
	case *lptr:
		e.reduceArgs(fn, st, []lval{x})
	}
	return v
}

// ---------------------------------------------------------------------------
// Functions of elements only are interpreted once for the intervals of their
// operands.

type limbMemo struct {
	bad bool
	out []*limbOut // for each distinct operand
	in  []*lgroup
}

type limbOut struct {
	same   bool
	val    Poly // over the variables of the operands
	lo, hi []*big.Int
	polys  []LPoly // or the limbs themselves
}

// memoised runs fn on fresh operands, and carries the result over.
func (e *limbEng) memoised(fn *ssa.Function, args []lval, st *lstate, pos token.Pos) []lexit {
	if fn.Signature.Results().Len() != 0 || len(args) == 0 || e.isInit || !e.inEd(fn) {
		return nil
	}
	var ps []*lptr // distinct
	alias := make([]int, len(args))
	key := fn.String()
	for i, a := range args {
		p, ok := a.(*lptr)
		if !ok || !isLimbs(e.typeAt(st, p)) {
			return nil
		}
		alias[i] = -1
		for j, q := range ps {
			if q.obj == p.obj && q.path == p.path {
				alias[i] = j
			}
		}
		if alias[i] < 0 {
			alias[i] = len(ps)
			ps = append(ps, p)
		}
		key += fmt.Sprint(" ", alias[i])
	}
	var vals []Poly
	var limbs [][]*lint
	for _, p := range ps {
		ls := e.limbsAt(e.load(st, p), 10)
		if ls == nil {
			return nil
		}
		val, ok := e.resolve(weightedSum(ls, false))
		if !ok {
			return nil
		}
		vals, limbs = append(vals, val), append(limbs, ls)
		for _, l := range ls {
			key += " " + l.lo.String() + ":" + l.hi.String()
		}
	}
	m := e.memo[key]
	if m == nil {
		m = e.memoRun(fn, ps, alias, limbs, st, pos)
		e.memo[key] = m
	}
	if m.bad {
		return nil
	}
	by := map[string]Poly{}
	for j := range ps {
		by[ks0(m.in[j].val)] = vals[j]
	}
	for j, o := range m.out {
		if o.same {
			continue
		}
		if o.val != nil {
			g := e.group(10, e.feSubst(o.val, by), o.lo, o.hi, fn.Name())
			e.store(st, ps[j], e.groupVal(g))
			continue
		}
		a := &lagg{}
		for i, q := range o.polys {
			r := LPoly{}
			for mo, k := range q {
				if mo == m1 {
					r = r.plus(lbig(k), bigOne)
					continue
				}
				v := e.vars[mo[0]]
				for jj, g := range m.in {
					if v.grp == g {
						r = r.plus(limbs[jj][v.idx].p, k)
					}
				}
			}
			a.es = append(a.es, e.mk(r, o.lo[i], o.hi[i]))
		}
		e.store(st, ps[j], a)
	}
	return []lexit{{st: st}}
}

func (e *limbEng) memoRun(fn *ssa.Function, ps []*lptr, alias []int, limbs [][]*lint, st *lstate, pos token.Pos) *limbMemo {
	m := &limbMemo{}
	tmp := st.clone()
	var np []*lptr
	before := map[int]lval{}
	for j, p := range ps {
		lo, hi := make([]*big.Int, 10), make([]*big.Int, 10)
		for i, l := range limbs[j] {
			lo[i], hi[i] = l.lo, l.hi
		}
		g := e.group(10, pvar(fmt.Sprintf("#%d.%d", len(e.memo), j)), lo, hi, fmt.Sprintf("arg%d", j))
		m.in = append(m.in, g)
		q := e.alloc(tmp, e.typeAt(st, p), e.groupVal(g))
		np = append(np, q)
	}
	for id, v := range tmp.mem {
		before[id] = v
	}
	args := make([]lval, len(alias))
	for i, j := range alias {
		args[i] = np[j]
	}
	outs := e.call(fn, args, nil, tmp)
	if len(outs) != 1 || outs[0].panic || len(outs[0].st.facts) != len(st.facts) {
		m.bad = true
		return m
	}
	end := outs[0].st
	for _, id := range e.globals {
		if v, ok := before[id]; ok && end.mem[id] != v {
			m.bad = true
			return m
		}
	}
	in := make([]Poly, len(alias))
	for i, j := range alias {
		in[i] = m.in[j].val
	}
	outVals := make([]Poly, len(alias))
	for j, q := range np {
		v := end.mem[q.obj]
		o := &limbOut{}
		m.out = append(m.out, o)
		if v == before[q.obj] {
			o.same = true
			continue
		}
		v = e.reduce(fn, v)
		ls := e.limbsAt(v, 10)
		if ls == nil {
			m.bad = true
			return m
		}
		o.lo, o.hi = make([]*big.Int, 10), make([]*big.Int, 10)
		plain := true
		for i, l := range ls {
			o.lo[i], o.hi[i] = l.lo, l.hi
			o.polys = append(o.polys, l.p)
			for mo := range l.p {
				if mo.degree() > 1 {
					plain = false
				}
				if mo.degree() == 1 {
					known := false
					for _, g := range m.in {
						known = known || e.vars[mo[0]].grp == g
					}
					plain = plain && known
				}
			}
		}
		val, ok := e.resolve(weightedSum(ls, false))
		if !ok {
			e.opens[fn.String()] = true
			m.bad = true
			return m
		}
		if !plain {
			o.val = val
		}
		for i, a := range alias {
			if a == j {
				outVals[i] = val
			}
		}
	}
	if e.post != nil {
		e.post(fn, in, alias, outVals, pos)
	}
	return m
}
