package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C23, C24: the conversion of public keys, interpreted down to the limbs.

// limbRun is the interpretation of Public.ToBox.
type limbRun struct {
	e     *limbEng
	st0   *lstate
	key   []*lint // the bytes of the public key
	yKey  string
	exits []lexit
	err   string
	fn    *ssa.Function
}

// fieldInit interprets the initialisation of the field package.
func (e *limbEng) fieldInit() *lstate {
	st := &lstate{mem: map[int]lval{}, typ: map[int]types.Type{}}
	sp := e.w.by[edPkg]
	if sp == nil || sp.Func("init") == nil {
		return st
	}
	e.isInit = true
	outs := e.call(sp.Func("init"), nil, nil, st)
	e.isInit = false
	if len(outs) == 1 {
		st = outs[0].st
		st.facts = nil
	}
	return st
}

func (r *Run) limbRun() *limbRun {
	lr := &limbRun{}
	e := newLimbEng(r.w)
	lr.e = e
	lr.fn = r.w.fn("(*signify.Public).ToBox")
	defer func() {
		if x := recover(); x != nil {
			if g, ok := x.(giveUp); ok {
				lr.err = g.msg
				if n := len(e.stack); n > 0 {
					lr.err += ", in " + strings.ReplaceAll(e.stack[n-1], modPath+"/", "")
				}
				return
			}
			panic(x)
		}
	}()
	if lr.fn == nil {
		lr.err = "(*signify.Public).ToBox does not exist any more"
		return lr
	}
	st := e.fieldInit()
	lr.st0 = st.clone()
	if r.prop == "C24" {
		e.ob = r.ob
		e.post = func(fn *ssa.Function, in []Poly, alias []int, out []Poly, pos token.Pos) {
			r.fieldSpec(e, fn, in, out)
		}
		e.ret = func(fn *ssa.Function, st *lstate, in []Poly, args, vals []lval) {
			r.fieldRet(e, fn, st, in, args, vals)
		}
	}
	// an arbitrary public key
	t := lr.fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
	v := e.havoc("pub", t)
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isEnc(ft) {
				lr.key = e.limbsAt(v.(*lagg).es[i], 32)
			}
			if sl, ok := under(ft).(*types.Slice); ok && lr.key == nil && types.Identical(sl.Elem(), types.Typ[types.Uint8]) {
				at := types.NewArray(sl.Elem(), 32)
				arr := e.havoc("pub.key", at)
				v.(*lagg).es[i] = &lslice{e.alloc(st, at, arr), 0, 32}
				lr.key = e.limbsAt(arr, 32)
			}
		}
	}
	for _, x := range e.vars[1:] {
		if strings.HasPrefix(x.name, "pub") {
			x.raw = true
		}
	}
	if lr.key != nil {
		s := weightedSum(lr.key, true)
		s = s.plus(e.floorDiv(lr.key[31].p, 7), new(big.Int).Neg(new(big.Int).Lsh(bigOne, 255)))
		if p, ok := e.resolve(s); ok {
			lr.yKey = ks0(p)
		}
	}
	p := e.alloc(st, t, v)
	lr.exits = e.call(lr.fn, []lval{p}, nil, st)
	return lr
}

func (lr *limbRun) y() Poly { return Poly{lr.yKey + "^1": big.NewInt(1)} }

// curveD is the constant of the curve, -121665/121666.
func curveD() *big.Int {
	d := new(big.Int).ModInverse(big.NewInt(121666), fieldP)
	d.Mul(d, big.NewInt(-121665))
	return d.Mod(d, fieldP)
}

func sqrtM1() *big.Int {
	e := new(big.Int).Sub(fieldP, bigOne)
	e.Rsh(e, 2)
	return new(big.Int).Exp(big.NewInt(2), e, fieldP)
}

// feZero splits a fact: the element that it says is zero, or is not.
func (lr *limbRun) feZero(f lfact) (Poly, bool, bool) {
	e := lr.e
	c := f.c
	if c.op == "zero" {
		if p, ok := e.resolve(c.p); ok {
			// the number itself is below p
			lo, hi := e.iv(c.p)
			if new(big.Int).Neg(lo).Cmp(fieldP) < 0 && hi.Cmp(fieldP) < 0 {
				return p, f.truth, true
			}
		}
		return nil, false, false
	}
	if c.op != "none" {
		return nil, false, false
	}
	// which bytes of which encoding
	seen := map[*lgroup]map[int]map[int]bool{}
	for _, b := range c.bits {
		v, ok := b.p.single()
		if !ok || e.vars[v].grp == nil || !e.vars[v].grp.bytes {
			return nil, false, false
		}
		g := e.vars[v].grp
		if seen[g] == nil {
			seen[g] = map[int]map[int]bool{}
		}
		if seen[g][e.vars[v].idx] == nil {
			seen[g][e.vars[v].idx] = map[int]bool{}
		}
		seen[g][e.vars[v].idx][b.j] = true
	}
	if len(seen) != 1 {
		return nil, false, false
	}
	for g, bs := range seen {
		if f.truth { // all zero: says something when nothing is left out
			for i := 0; i < 32; i++ {
				for j := 0; j < e.vars[g.vars[i]].hi.BitLen(); j++ {
					if !bs[i][j] {
						return nil, false, false
					}
				}
			}
		}
		return g.val, f.truth, true
	}
	return nil, false, false
}

// pathFe lists what the path knows of elements being zero. Facts about single
// bytes add up.
func (lr *limbRun) pathFe(x lexit) (zero, nonzero []Poly) {
	e := lr.e
	per := map[*lgroup]map[int]bool{}
	for _, f := range x.st.facts {
		if f.c.op == "zero" {
			if v, ok := f.c.p.single(); ok && e.vars[v].grp != nil && e.vars[v].grp.bytes {
				g := e.vars[v].grp
				if !f.truth {
					nonzero = append(nonzero, g.val)
					continue
				}
				if per[g] == nil {
					per[g] = map[int]bool{}
				}
				per[g][e.vars[v].idx] = true
				if len(per[g]) == 32 {
					zero = append(zero, g.val)
				}
				continue
			}
		}
		p, z, ok := lr.feZero(f)
		if !ok {
			continue
		}
		if z {
			zero = append(zero, p)
		} else {
			nonzero = append(nonzero, p)
		}
	}
	return
}

// The four classes of an encoding with u = y^2-1 different from 0, by
// w = (u v^7)^((p-1)/4) (v = d y^2+1, which is never 0, as -1/d is not a
// square): it is of a point iff w^2 = 1. Class 4 is u = 0, a point.
var quartic = func() []*big.Int {
	i := sqrtM1()
	return []*big.Int{big.NewInt(1), new(big.Int).Sub(fieldP, bigOne), i, new(big.Int).Sub(fieldP, i)}
}()

// classZero reports whether the element c, a function of y, is zero in each
// class; ok is false if c is not u times a polynomial in w.
func (lr *limbRun) classZero(c Poly) (z [5]bool, ok bool) {
	e := lr.e
	y2 := lr.y().mul(lr.y())
	u := y2.add(pint(1), -1)
	v := y2.mul(pconst(curveD())).add(pint(1), 1)
	uf, vf := e.feFactor(u), e.feFactor(v) // k * variable
	uv, vv := ks0(uf), ks0(vf)
	ku, kv := uf[feKeys(uf)[0]], vf[feKeys(vf)[0]]
	pm1 := new(big.Int).Sub(fieldP, bigOne)
	q := new(big.Int).Rsh(pm1, 2)
	g := [4]*big.Int{new(big.Int), new(big.Int), new(big.Int), new(big.Int)}
	rest := Poly{}
	for _, k := range feKeys(c) {
		fs := feFactors(k)
		i, j := fs[uv], fs[vv]
		if i == nil {
			i = new(big.Int)
		}
		if j == nil {
			j = new(big.Int)
		}
		n := len(fs)
		if fs[uv] != nil {
			n--
		}
		if fs[vv] != nil {
			n--
		}
		if n > 0 || i.Sign() == 0 {
			rest[k] = c[k]
			continue
		}
		found := false
		for m := int64(0); m < 4; m++ {
			di := new(big.Int).Mul(q, big.NewInt(m))
			dj := new(big.Int).Mul(di, big.NewInt(7))
			di.Add(di, bigOne)
			di.Sub(i, di).Mod(di, pm1)
			dj.Sub(j, dj).Mod(dj, pm1)
			if di.Sign() != 0 || dj.Sign() != 0 {
				continue
			}
			// c * U^i V^j with u = ku U, v = kv V
			co := new(big.Int).Exp(new(big.Int).ModInverse(ku, fieldP), i, fieldP)
			co.Mul(co, new(big.Int).Exp(new(big.Int).ModInverse(kv, fieldP), j, fieldP))
			co.Mul(co, c[k])
			g[m].Add(g[m], co).Mod(g[m], fieldP)
			found = true
			break
		}
		if !found {
			return z, false
		}
	}
	if len(rest) > 0 { // k*u, written out
		rr := e.feRat(rest)
		ur := rpoly(u)
		k := rest[feKeys(rest)[0]]
		done := false
		if rr.den.String() == "1" {
			for m, x := range rr.num {
				if uc := ur.num[m]; uc != nil {
					k = new(big.Int).Mul(x, new(big.Int).ModInverse(uc, fieldP))
					done = rr.same(ur.mul(rpoly(pconst(k))))
					break
				}
			}
		}
		if !done {
			return z, false
		}
		g[0].Add(g[0], k).Mod(g[0], fieldP)
	}
	for n, w := range quartic {
		s, pw := new(big.Int), big.NewInt(1)
		for m := 0; m < 4; m++ {
			s.Add(s, new(big.Int).Mul(g[m], pw))
			pw.Mul(pw, w).Mod(pw, fieldP)
		}
		z[n] = s.Mod(s, fieldP).Sign() == 0
	}
	z[4] = true
	return z, true
}

// classes is the set of the classes of encodings that may take the path.
func (lr *limbRun) classes(x lexit) [5]bool {
	in := [5]bool{true, true, true, true, true}
	zero, nonzero := lr.pathFe(x)
	for _, p := range zero {
		if z, ok := lr.classZero(p); ok {
			for i := range in {
				in[i] = in[i] && z[i]
			}
		}
	}
	for _, p := range nonzero {
		if z, ok := lr.classZero(p); ok {
			for i := range in {
				in[i] = in[i] && !z[i]
			}
		}
	}
	return in
}

func (r *Run) toBox() *limbRun {
	lr := r.limbRun()
	a := &Analysis{name: "(*signify.Public).ToBox, to the limbs", err: lr.err}
	a.e = newEngine(r.w)
	for f, n := range lr.e.seen {
		a.e.seenFns[f] = n
	}
	for _, x := range lr.exits {
		a.exits = append(a.exits, Exit{pos: x.pos, st: &State{}})
	}
	a.fn = lr.fn
	r.used[a.name] = a
	var open []string
	for f := range lr.e.opens {
		open = append(open, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(open)
	if lr.err != "" {
		where := ""
		if len(open) > 0 {
			where = "; what " + open[0] + " leaves is no sum of products of its operands"
		}
		fn := lr.fn
		if len(open) > 0 {
			for f := range lr.e.seen {
				if strings.HasSuffix(f.String(), open[0]) {
					fn = f
				}
			}
		}
		pos := token.NoPos
		if fn != nil {
			pos = fn.Pos()
		}
		r.ob("analysed", false, fn, pos, "the analysis gave up: %s%s", lr.err, where)
	}
	return lr
}

func ruleC23(r *Run) {
	r.publicToBox()
	r.privateToBox(true)
}

func (r *Run) publicToBox() {
	lr := r.toBox()
	if lr.err == "" {
		acc, rej := 0, 0
		want := rpoly(pint(1).add(lr.y(), 1)).mul(rpoly(pint(1).add(lr.y(), -1)).inv())
		for _, x := range lr.exits {
			if x.panic || len(x.vals) != 2 {
				continue
			}
			in := lr.classes(x)
			if _, ok := x.vals[1].(lnil); !ok {
				rej++
				r.ob("refusal", !in[0] && !in[1] && !in[4], lr.fn, x.pos, "the encoding of a point of the curve can be refused here")
				continue
			}
			acc++
			r.ob("acceptance", !in[2] && !in[3], lr.fn, x.pos, "a key that is not the encoding of a point of the curve can be converted")
			var enc lval
			switch p := x.vals[0].(type) {
			case *lptr:
				enc = lr.e.load(x.st, p)
			case *lagg:
				enc = p
			case *lslice:
				enc = lr.e.sliceVals(x.st, p)
			}
			ls := lr.e.limbsAt(enc, 32)
			if !r.ob("result", ls != nil, lr.fn, x.pos, "the result is not 32 known bytes") {
				continue
			}
			s := weightedSum(ls, true)
			val, ok := lr.e.resolve(s)
			if !r.ob("result", ok, lr.fn, x.pos, "the result is not the encoding of an element computed from the key: %s", lr.e.show(s)) {
				continue
			}
			got := lr.e.feRat(val)
			r.ob("result", got.same(want), lr.fn, x.pos, "the result is %s of the point's y, not (1+y)/(1-y)", feShow(got))
			lo, hi := lr.e.iv(s)
			canon := hi.Cmp(fieldP) < 0 && lo.Sign() >= 0
			if v, ok := ls[0].p.single(); ok && lr.e.vars[v].grp != nil && lr.e.vars[v].grp.bytes {
				canon = true
				for i, l := range ls {
					w, ok := l.p.single()
					canon = canon && ok && w == lr.e.vars[v].grp.vars[i]
				}
			}
			r.ob("canonical result", canon, lr.fn, x.pos, "the result need not be the canonical encoding")
		}
		r.ob("instances", acc > 0 && rej > 0, lr.fn, lr.fn.Pos(), "%d converting and %d refusing paths were found", acc, rej)
	}
}

func feShow(q *Rat) string {
	s := q.String()
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// fieldSpec: the named operations compute what their names say.
func (r *Run) fieldSpec(e *limbEng, fn *ssa.Function, in []Poly, out []Poly) {
	if fn.Signature.Recv() != nil || out[0] == nil && fn.Name() != "FeToBytes" {
		if fn.Signature.Recv() == nil && len(out) > 0 && fn.Name() != "" {
			return
		}
		return
	}
	var want Poly
	n := len(in)
	pm := func(k int64, sh uint) *big.Int { // (p-k)/2^sh
		x := new(big.Int).Sub(fieldP, big.NewInt(k))
		return x.Rsh(x, sh)
	}
	switch fn.Name() {
	case "FeZero":
		want = pint(0)
	case "FeOne":
		want = pint(1)
	case "FeAdd":
		if n == 3 {
			want = in[1].add(in[2], 1)
		}
	case "FeSub":
		if n == 3 {
			want = in[1].add(in[2], -1)
		}
	case "FeMul":
		if n == 3 {
			want = in[1].mul(in[2])
		}
	case "FeSquare":
		if n == 2 {
			want = in[1].mul(in[1])
		}
	case "FeSquare2":
		if n == 2 {
			want = in[1].mul(in[1]).mul(pint(2))
		}
	case "FeNeg":
		if n == 2 {
			want = pint(0).add(in[1], -1)
		}
	case "FeCopy":
		if n == 2 {
			want = in[1]
		}
	case "FeInvert":
		if n == 2 {
			want = e.fePow(in[1], pm(2, 0))
		}
	case "fePow22523":
		if n == 2 {
			want = e.fePow(in[1], pm(5, 3))
		}
	}
	if want == nil {
		return
	}
	got := out[0]
	r.ob("operation "+fn.Name(), got.String() == want.String(), fn, fn.Pos(), "it computes %s of its operands, not %s", got, want)
}

// fieldRet: the conversions to and from bytes, and the tests.
func (r *Run) fieldRet(e *limbEng, fn *ssa.Function, st *lstate, in []Poly, args, vals []lval) {
	if fn.Signature.Recv() != nil || !e.inEd(fn) {
		return
	}
	arr := func(v lval, n int) []*lint {
		p, ok := v.(*lptr)
		if !ok {
			return nil
		}
		return e.limbsAt(e.load(st, p), n)
	}
	switch fn.Name() {
	case "FeFromBytes":
		if len(args) != 2 {
			return
		}
		src := arr(args[1], 32)
		got, ok := e.valueOf(st, args[0].(*lptr))
		if src == nil {
			return
		}
		s := weightedSum(src, true).plus(e.floorDiv(src[31].p, 7), new(big.Int).Neg(new(big.Int).Lsh(bigOne, 255)))
		want, ok2 := e.resolve(s)
		if ok2 {
			r.ob("operation FeFromBytes", ok && got.String() == want.String(), fn, fn.Pos(), "the limbs are not those of the number in the low 255 bits")
		}
	case "FeToBytes":
		if len(args) != 2 || in[1] == nil {
			return
		}
		ls := arr(args[0], 32)
		good := false
		if ls != nil {
			if v, ok := ls[0].p.single(); ok && e.vars[v].grp != nil && e.vars[v].grp.bytes {
				g := e.vars[v].grp
				good = g.val.String() == in[1].String()
				for i, l := range ls {
					w, ok := l.p.single()
					good = good && ok && w == g.vars[i]
				}
			}
		}
		r.ob("operation FeToBytes", good, fn, fn.Pos(), "the bytes are not shown to be the least residue of the element")
		after, ok := e.valueOf(st, args[1].(*lptr))
		r.ob("operation FeToBytes", ok && after.String() == in[1].String(), fn, fn.Pos(), "the element that is encoded is changed")
	case "FeIsNonZero":
		if len(args) != 1 || len(vals) != 1 || in[0] == nil {
			return
		}
		var b *lbool // it is zero
		switch v := vals[0].(type) {
		case *lint:
			if !r.ob("operation FeIsNonZero", v.lo.Sign() >= 0 && v.hi.Cmp(bigOne) <= 0, fn, fn.Pos(), "the result can be %s", v.hi) {
				return
			}
			b, _ = e.compare(token.EQL, v, lcint(0)).(*lbool)
		case *lbool:
			c := *v
			c.neg = !c.neg
			if c.known >= 0 {
				c.known = 1 - c.known
			}
			b = &c
		}
		good := false
		lr := &limbRun{e: e}
		if b != nil && b.known >= 0 {
			zero, nonzero := lr.pathFe(lexit{st: st})
			if b.known == 0 {
				zero = nonzero
			}
			for _, p := range zero {
				good = good || p.String() == in[0].String()
			}
		} else if b != nil && b.cond != nil {
			p, z, ok := lr.feZero(lfact{b.cond, true})
			good = ok && z != b.neg && p.String() == in[0].String()
		}
		r.ob("operation FeIsNonZero", good, fn, fn.Pos(), "the result does not tell whether the element is zero")
	case "FeIsNegative":
		if len(args) != 1 || len(vals) != 1 || in[0] == nil {
			return
		}
		v, ok := vals[0].(*lint)
		if !ok {
			return
		}
		good := false
		for m := range v.p {
			if m.degree() != 1 || e.vars[m[0]].grp == nil || !e.vars[m[0]].grp.bytes {
				continue
			}
			g := e.vars[m[0]].grp
			if g.val.String() == in[0].String() && v.p.equal(e.mod2(lv(g.vars[0]), 1)) {
				good = true
			}
		}
		r.ob("operation FeIsNegative", good, fn, fn.Pos(), "the result is not the lowest bit of the least residue")
	}
}

// fieldOps interprets each operation on operands that are only known to be
// within its documented bounds, which some of its callers need not exhaust.
func (r *Run) fieldOps(lr *limbRun) {
	e := lr.e
	// 1.1 * 2^26, 1.1 * 2^25, ... (wide), or half of that
	bound := func(i int, wide bool) *big.Int {
		b := big.NewInt(11 << 25)
		if !wide {
			b.Rsh(b, 1)
		}
		if i%2 == 1 {
			b.Rsh(b, 1)
		}
		return b.Div(b, big.NewInt(5)) // 11<<25/5 = 1.1*2^26
	}
	n := 0
	for _, op := range []struct {
		name      string
		args      int // elements, of which the first is the result
		wide      bool
		out, wout bool // has a result, within the wide bounds
	}{
		{"FeAdd", 3, false, true, true},
		{"FeSub", 3, false, true, true},
		{"FeNeg", 2, false, true, false},
		{"FeMul", 3, true, true, false},
		{"FeSquare", 2, true, true, false},
		{"FeSquare2", 2, true, true, false},
		{"FeInvert", 2, true, true, false},
		{"fePow22523", 2, true, true, false},
		{"FeIsNegative", 1, false, false, false},
		{"FeIsNonZero", 1, false, false, false},
		{"FeToBytes", 2, false, false, false},
	} {
		fn := r.w.fn("edwards25519." + op.name)
		if fn == nil || len(fn.Params) != op.args {
			continue
		}
		st := lr.st0.clone()
		st.facts = nil
		var args []lval
		for i, p := range fn.Params {
			pt, ok := p.Type().Underlying().(*types.Pointer)
			if !ok || !isLimbs(pt.Elem()) && !isEnc(pt.Elem()) {
				args = nil
				break
			}
			if i == 0 && op.args > 1 {
				args = append(args, e.alloc(st, pt.Elem(), e.havoc("result", pt.Elem())))
				continue
			}
			if !isLimbs(pt.Elem()) {
				args = nil
				break
			}
			lo, hi := make([]*big.Int, 10), make([]*big.Int, 10)
			for j := range lo {
				hi[j] = bound(j, op.wide)
				lo[j] = new(big.Int).Neg(hi[j])
			}
			g := e.group(10, pvar(fmt.Sprintf("%s.%d", op.name, i)), lo, hi, "operand")
			args = append(args, e.alloc(st, pt.Elem(), e.groupVal(g)))
		}
		if args == nil {
			continue
		}
		n++
		func() {
			defer func() {
				if x := recover(); x != nil {
					g, ok := x.(giveUp)
					if !ok {
						panic(x)
					}
					r.ob("operation "+op.name, false, fn, fn.Pos(), "for operands within the documented bounds, the analysis gave up: %s", g.msg)
				}
			}()
			e.stack = nil
			for _, x := range e.invoke(fn, args, nil, st, fn.Pos()) {
				if x.panic || !op.out {
					continue
				}
				ls := e.limbsAt(e.load(x.st, args[0].(*lptr)), 10)
				good := ls != nil
				for i, l := range ls {
					b := bound(i, op.wout)
					good = good && l.hi.Cmp(b) <= 0 && new(big.Int).Neg(l.lo).Cmp(b) <= 0
				}
				r.ob("bounds of "+op.name, good, fn, fn.Pos(), "for operands within the documented bounds, the result need not be within them")
			}
		}()
	}
	r.ob("instances", n > 0, lr.fn, lr.fn.Pos(), "no operation of the field was found")
}

func ruleC24(r *Run) {
	lr := r.toBox()
	e := lr.e
	if lr.err == "" {
		for f := range e.opens {
			var fn *ssa.Function
			for g := range e.seen {
				if g.String() == f {
					fn = g
				}
			}
			if fn != nil {
				r.ob("expressible", false, fn, fn.Pos(), "what it leaves in its result is no sum of products of its operands modulo p")
			}
		}
		r.ob("analysed", true, lr.fn, lr.fn.Pos(), "")
		n := r.oblN["overflow"]
		r.ob("instances", n > 100, lr.fn, lr.fn.Pos(), "only %d additions and products were examined", n)
	}
	if lr.st0 == nil {
		return
	}
	r.fieldOps(lr)
	// the constants
	d := curveD()
	for _, c := range []struct {
		name string
		f    func(x *big.Int) bool
		eq   string
	}{
		{"d", func(x *big.Int) bool { return x.Cmp(d) == 0 }, "121666 d = -121665"},
		{"d2", func(x *big.Int) bool {
			return x.Cmp(new(big.Int).Mod(new(big.Int).Lsh(d, 1), fieldP)) == 0
		}, "d2 = 2d"},
		{"SqrtM1", func(x *big.Int) bool {
			y := new(big.Int).Mul(x, x)
			y.Add(y, bigOne).Mod(y, fieldP)
			return y.Sign() == 0
		}, "SqrtM1^2 = -1"},
		{"A", func(x *big.Int) bool { return x.Cmp(big.NewInt(486662)) == 0 }, "A = 486662"},
	} {
		g := r.w.global(edPkg, c.name)
		if g == nil {
			continue
		}
		id, ok := e.globals[g]
		if !ok {
			continue
		}
		ls := e.limbsAt(lr.st0.mem[id], 10)
		if ls == nil {
			continue
		}
		s, isC := weightedSum(ls, false).constant()
		if isC {
			s = new(big.Int).Mod(s, fieldP)
		}
		r.ob("constant "+c.name, isC && c.f(s), nil, g.Pos(), "the constant %s does not satisfy %s", c.name, c.eq)
	}
	// -1/d is not a square, so the denominator never vanishes
	ex := new(big.Int).Rsh(new(big.Int).Sub(fieldP, bigOne), 1)
	r.ob("d is not a square", new(big.Int).Exp(d, ex, fieldP).Cmp(bigOne) != 0, nil, token.NoPos, "the curve is not complete")
	_ = fmt.Sprint
}

// privateToBox: the box key of a private key is the clamped first half of the
// digest of the seed.
func (r *Run) privateToBox(exact bool) {
	n := 0
	for _, b := range r.loadedToBox() {
		if b.err != "" {
			continue
		}
		for _, x := range b.exits {
			if !success(b, x) {
				continue
			}
			n++
			st := x.st
			out := ropeOf(b.e.resolve(st, resultOf(x, 0), 0))
			if !r.ob("private result", out != nil && st.simp(out.len()).equal(con(32)), b.fn, x.pos, "the result is not 32 known bytes") {
				continue
			}
			rec := recOf(st, strArg(r.loadPriv(), 0))
			good := false
			var why string
			for _, k := range signingKeys(st, rec) {
				h := rterm(mk("sha512", "", sub(st, k, 0, 32).canon()))
				if !sameRope(st, sub(st, out, 1, 30), sub(st, h, 1, 30)) {
					why = "the middle of the box key is not that of the SHA-512 of the seed"
					continue
				}
				src := ropeByte(st, h, 0)
				if !clamps(ropeByte(st, out, 0), src, 0, exact) {
					why = "the lowest three bits of the first byte are not cleared, or others are changed"
					continue
				}
				if !clamps(ropeByte(st, out, 31), ropeByte(st, h, 31), 31, exact) {
					why = "the top two bits of the last byte are not 01, or others are changed"
					continue
				}
				good = true
			}
			if why == "" {
				why = "it is not derived from a key of the record"
			}
			r.ob("private result", good, b.fn, x.pos, "%s", why)
		}
	}
	r.floor("conversions of private keys", n, 1)
}

// ropeByte is the i-th byte.
func ropeByte(st *State, o *Rope, i int64) *Lin {
	return at(sub(st, o, i, 1).canon().term(), con(0))
}

// clamps: for each of the 256 values of src, got is what clamping makes of it,
// or (not exact) what becomes the same when it is clamped by X25519.
func clamps(got, src *Lin, i int, exact bool) bool {
	if got == nil || src == nil {
		return false
	}
	for v := int64(0); v < 256; v++ {
		clamp := func(v int64) int64 {
			if i == 31 {
				return v&63 | 64
			}
			return v & 248
		}
		g, ok := evalByte(got, src, v, 0)
		w := v & 248
		if i == 31 {
			w = v&127 | 64
		}
		if !exact {
			g, w = clamp(g), clamp(w)
		}
		if !ok || g != w {
			return false
		}
	}
	return true
}

// evalByte evaluates l for a value of src.
func evalByte(l, src *Lin, v int64, depth int) (int64, bool) {
	if l.equal(src) {
		return v, true
	}
	sum := l.c
	for _, x := range l.ts {
		y, ok := evalTerm(x.t, src, v, depth+1)
		if !ok {
			return 0, false
		}
		sum += x.k * y
	}
	return sum, true
}

func evalTerm(t *Term, src *Lin, v int64, depth int) (int64, bool) {
	if s := src.single(); s == t {
		return v, true
	}
	if depth > 40 {
		return 0, false
	}
	var a []int64
	for _, x := range t.args {
		l, ok := x.(*Lin)
		if !ok {
			return 0, false
		}
		y, ok := evalByte(l, src, v, depth)
		if !ok {
			return 0, false
		}
		a = append(a, y)
	}
	switch {
	case t.op == "mask8" && len(a) == 3:
		return a[0]&a[1] | a[2], true
	case t.op == "and" && len(a) == 2:
		return a[0] & a[1], true
	case t.op == "or" && len(a) == 2:
		return a[0] | a[1], true
	case t.op == "xor8":
		var r int64
		for _, y := range a {
			r ^= y
		}
		return r, true
	case t.op == "add8" && len(a) == 2:
		return (a[0] + a[1]) & 255, true
	case t.op == "div" && len(a) == 2 && a[1] != 0:
		return a[0] / a[1], true
	case t.op == "mul" && len(a) == 2:
		return a[0] * a[1], true
	case t.op == "conv" && len(a) == 1 && t.lo == 0 && t.hi == 255, t.op == "byteof" && len(a) == 1:
		return a[0] & 255, true
	case t.op == "wrapshl" && len(a) == 2 && t.hi == 255:
		return a[0] << uint(a[1]) & 255, true
	case t.op == "wrapadd" && len(a) == 2 && t.hi == 255:
		return (a[0] + a[1]) & 255, true
	case t.op == "wrapsub" && len(a) == 2 && t.hi == 255:
		return (a[0] - a[1]) & 255, true
	case t.op == "wrapmul" && len(a) == 2 && t.hi == 255:
		return a[0] * a[1] & 255, true
	}
	return 0, false
}
