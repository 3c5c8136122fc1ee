package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// The domain in which the field arithmetic itself is interpreted: every
// integer is a polynomial with integer coefficients over variables that stand
// for the limbs of the operands and for the carries (rounded quotients), with
// an interval. A carry c = floor(P/2^k) is also P = 2^k c + s with
// 0 <= s < 2^k, so every value has an affine form over quantities with known
// intervals, from which the intervals of differences are exact enough.

// mono is a product of up to three variables (0: none), in order.
type mono [3]int32

// LPoly is a polynomial over the integers; not modified once made.
type LPoly map[mono]*big.Int

var m1 = mono{}

type lvar struct {
	name   string
	lo, hi *big.Int
	def    LPoly // of a carry: floor(def/2^k)
	k      uint
	slack  int32 // def - 2^k * carry
	aff    *affine
	grp    *lgroup
	idx    int
	raw    bool // an input of the analysis
}

// affine is num/2^sh, with num over variables that are not carries.
type affine struct {
	num LPoly
	sh  uint
}

// lgroup is an array of limbs (or, if bytes, of the bytes of the canonical
// encoding) of a field element.
type lgroup struct {
	vars  [32]int32
	n     int
	val   Poly // the element
	sum   LPoly
	bytes bool
}

// limbs is the context of an analysis: its variables.
type limbCtx struct {
	vars   []*lvar
	floors map[string]int32
	powers map[string]LPoly
	feDefs map[string]Poly // variables of the field that stand for sums
	feKey  map[string]string
	rawFe  map[string]Poly
	same   map[[2]int32]bool
}

func newLimbCtx() *limbCtx {
	return &limbCtx{vars: []*lvar{nil}, floors: map[string]int32{}, feDefs: map[string]Poly{}, feKey: map[string]string{},
		rawFe: map[string]Poly{}, same: map[[2]int32]bool{}}
}

func (c *limbCtx) fresh(name string, lo, hi *big.Int) int32 {
	c.vars = append(c.vars, &lvar{name: name, lo: lo, hi: hi})
	return int32(len(c.vars) - 1)
}

func lconst(n int64) LPoly { return lbig(big.NewInt(n)) }

func lbig(n *big.Int) LPoly {
	if n.Sign() == 0 {
		return LPoly{}
	}
	return LPoly{m1: n}
}

func lv(v int32) LPoly { return LPoly{mono{v}: big.NewInt(1)} }

func (p LPoly) constant() (*big.Int, bool) {
	switch len(p) {
	case 0:
		return new(big.Int), true
	case 1:
		if c, ok := p[m1]; ok {
			return c, true
		}
	}
	return nil, false
}

func (p LPoly) plus(q LPoly, k *big.Int) LPoly {
	r := make(LPoly, len(p)+len(q))
	for m, c := range p {
		r[m] = c
	}
	one := k.IsInt64() && k.Int64() == 1
	for m, c := range q {
		x := c
		if !one {
			x = new(big.Int).Mul(c, k)
		}
		if y := r[m]; y != nil {
			x = new(big.Int).Add(x, y)
		}
		if x.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = x
		}
	}
	return r
}

func (p LPoly) scale(k *big.Int) LPoly {
	r := make(LPoly, len(p))
	if k.Sign() == 0 {
		return r
	}
	for m, c := range p {
		r[m] = new(big.Int).Mul(c, k)
	}
	return r
}

func (m mono) degree() int {
	for i, v := range m {
		if v == 0 {
			return i
		}
	}
	return len(m)
}

func (m mono) times(n mono) mono {
	var vs []int
	for _, v := range m {
		if v != 0 {
			vs = append(vs, int(v))
		}
	}
	for _, v := range n {
		if v != 0 {
			vs = append(vs, int(v))
		}
	}
	if len(vs) > 3 {
		panic(giveUp{"a limb is a product of more than three quantities"})
	}
	sort.Ints(vs)
	var r mono
	for i, v := range vs {
		r[i] = int32(v)
	}
	return r
}

func (p LPoly) times(q LPoly) LPoly {
	r := LPoly{}
	if len(p)*len(q) > 40000 {
		panic(giveUp{"a limb is too large an expression"})
	}
	for m, c := range p {
		for n, d := range q {
			k := m.times(n)
			x := new(big.Int).Mul(c, d)
			if y := r[k]; y != nil {
				x.Add(x, y)
			}
			r[k] = x
		}
	}
	for k, c := range r {
		if c.Sign() == 0 {
			delete(r, k)
		}
	}
	return r
}

func (p LPoly) modp() LPoly {
	r := LPoly{}
	for m, c := range p {
		x := new(big.Int).Mod(c, fieldP)
		if x.Sign() != 0 {
			r[m] = x
		}
	}
	return r
}

func (p LPoly) monos() []mono {
	ms := make([]mono, 0, len(p))
	for m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool {
		a, b := ms[i], ms[j]
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	})
	return ms
}

func (p LPoly) key() string {
	var b strings.Builder
	for _, m := range p.monos() {
		fmt.Fprintf(&b, "%s*%d.%d.%d+", p[m].Text(36), m[0], m[1], m[2])
	}
	return b.String()
}

func (p LPoly) equal(q LPoly) bool {
	if len(p) != len(q) {
		return false
	}
	for m, c := range p {
		d := q[m]
		if d == nil || c.Cmp(d) != 0 {
			return false
		}
	}
	return true
}

// single returns the variable that p is.
func (p LPoly) single() (int32, bool) {
	if len(p) != 1 {
		return 0, false
	}
	for m, c := range p {
		if m.degree() == 1 && c.IsInt64() && c.Int64() == 1 {
			return m[0], true
		}
	}
	return 0, false
}

func (p LPoly) complex(c *limbCtx) bool {
	if len(p) > 12 {
		return true
	}
	for m := range p {
		if m.degree() > 1 || m.degree() == 1 && c.vars[m[0]].def != nil {
			return true
		}
	}
	return false
}

// show prints p for a message.
func (c *limbCtx) show(p LPoly) string {
	var out []string
	for i, m := range p.monos() {
		if i == 4 {
			out = append(out, "...")
			break
		}
		s := p[m].String()
		for _, v := range m {
			if v != 0 {
				s += "*" + c.vars[v].name
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return "0"
	}
	return strings.Join(out, " + ")
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}

func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func mulIv(al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	for i, x := range []*big.Int{al, ah} {
		for j, y := range []*big.Int{bl, bh} {
			z := new(big.Int).Mul(x, y)
			if i == 0 && j == 0 {
				lo, hi = z, z
				continue
			}
			lo, hi = bmin(lo, z), bmax(hi, z)
		}
	}
	return
}

func (c *limbCtx) monoIv(m mono) (lo, hi *big.Int) {
	lo, hi = big.NewInt(1), big.NewInt(1)
	for i := 0; i < 3 && m[i] != 0; i++ {
		v := c.vars[m[i]]
		if i+1 < 3 && m[i+1] == m[i] {
			l, h := mulIv(v.lo, v.hi, v.lo, v.hi)
			if v.lo.Sign() <= 0 && v.hi.Sign() >= 0 {
				l = new(big.Int)
			} else {
				l = bmin(new(big.Int).Mul(v.lo, v.lo), new(big.Int).Mul(v.hi, v.hi))
			}
			lo, hi = mulIv(lo, hi, l, h)
			i++
			continue
		}
		lo, hi = mulIv(lo, hi, v.lo, v.hi)
	}
	return
}

// box is the interval of p by that of its variables.
func (c *limbCtx) box(p LPoly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for m, k := range p {
		l, h := c.monoIv(m)
		l, h = mulIv(l, h, k, k)
		lo.Add(lo, l)
		hi.Add(hi, h)
	}
	return
}

// affineOf expands the carries of p.
func (c *limbCtx) affineOf(p LPoly) *affine {
	has := false
	for m := range p {
		if m.degree() == 1 && c.vars[m[0]].def != nil {
			has = true
		}
	}
	if !has {
		return &affine{p, 0}
	}
	num, sh := LPoly{}, uint(0)
	for _, m := range p.monos() {
		k := p[m]
		var a *affine
		if m.degree() == 1 && c.vars[m[0]].def != nil {
			v := c.vars[m[0]]
			if v.aff == nil {
				d := c.affineOf(v.def)
				n := d.num.plus(LPoly{mono{v.slack}: new(big.Int).Lsh(big.NewInt(1), d.sh)}, big.NewInt(-1))
				v.aff = &affine{n, d.sh + v.k}
			}
			a = v.aff
		} else {
			a = &affine{LPoly{m: big.NewInt(1)}, 0}
		}
		if a.sh > sh {
			num = num.scale(new(big.Int).Lsh(big.NewInt(1), a.sh-sh))
			sh = a.sh
		}
		num = num.plus(a.num, new(big.Int).Lsh(k, sh-a.sh))
	}
	return &affine{num, sh}
}

// iv is an interval that holds the (integer) value of p.
func (c *limbCtx) iv(p LPoly) (lo, hi *big.Int) {
	if k, ok := p.constant(); ok {
		return k, k
	}
	lo, hi = c.box(p)
	a := c.affineOf(p)
	if a.sh > 0 {
		l, h := c.box(a.num)
		l.Add(l, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), a.sh), big.NewInt(1)))
		lo, hi = bmax(lo, l.Rsh(l, a.sh)), bmin(hi, h.Rsh(h, a.sh))
	}
	return
}

// floorDiv is floor(p/2^k).
func (c *limbCtx) floorDiv(p LPoly, k uint) LPoly {
	if k == 0 {
		return p
	}
	if n, ok := p.constant(); ok {
		return lbig(new(big.Int).Rsh(n, k))
	}
	pow := new(big.Int).Lsh(big.NewInt(1), k)
	// what 2^k divides comes out
	out, rest := LPoly{}, LPoly{}
	for m, x := range p {
		q, r := new(big.Int).DivMod(x, pow, new(big.Int))
		if r.Sign() == 0 {
			out[m] = q
		} else {
			rest[m] = x
		}
	}
	if len(rest) == 0 {
		return out
	}
	// floor(floor(P/2^a)/2^k)
	if v, ok := rest.single(); ok && c.vars[v].def != nil {
		return out.plus(c.floorDiv(c.vars[v].def, c.vars[v].k+k), big.NewInt(1))
	}
	if lo, hi := c.iv(rest); new(big.Int).Rsh(lo, k).Cmp(new(big.Int).Rsh(hi, k)) == 0 {
		return out.plus(lbig(new(big.Int).Rsh(lo, k)), big.NewInt(1))
	}
	// low bits that the rest is a multiple above
	for j := k; j > 0; j-- {
		low, high := LPoly{}, LPoly{}
		q := new(big.Int).Lsh(big.NewInt(1), j)
		for m, x := range rest {
			d, r := new(big.Int).DivMod(x, q, new(big.Int))
			switch {
			case m == m1:
				if d.Sign() != 0 {
					high[m] = d
				}
				if r.Sign() != 0 {
					low[m] = r
				}
			case r.Sign() == 0:
				high[m] = d
			default:
				low[m] = x
			}
		}
		if len(low) == 0 || len(high) == 0 {
			continue
		}
		if lo, hi := c.iv(low); lo.Sign() >= 0 && hi.Cmp(q) < 0 {
			return out.plus(c.floorDiv(high, k-j), big.NewInt(1))
		}
		// a low part that is cut at a known carry: v = 2^i floor(v/2^i) + its low bits
		low2, high2, cut := LPoly{}, high, false
		for m, x := range low {
			if m.degree() == 1 && x.Sign() > 0 {
				if t := uint(x.BitLen() - 1); t < j && new(big.Int).Lsh(big.NewInt(1), t).Cmp(x) == 0 {
					if f, ok := c.knownFloor(m[0], j-t); ok {
						low2 = low2.plus(lv(m[0]), x).plus(lv(f), new(big.Int).Neg(q))
						high2 = high2.plus(lv(f), big.NewInt(1))
						cut = true
						continue
					}
				}
			}
			low2 = low2.plus(LPoly{m: x}, big.NewInt(1))
		}
		if cut {
			if lo, hi := c.iv(low2); lo.Sign() >= 0 && hi.Cmp(q) < 0 {
				return out.plus(c.floorDiv(high2, k-j), big.NewInt(1))
			}
		}
	}
	key := fmt.Sprint(k, "|", rest.key())
	v, ok := c.floors[key]
	if !ok {
		lo, hi := c.iv(rest)
		v = c.fresh(fmt.Sprintf("floor((%s)/2^%d)", c.show(rest), k), new(big.Int).Rsh(lo, k), new(big.Int).Rsh(hi, k))
		s := c.fresh("s", new(big.Int), new(big.Int).Sub(pow, big.NewInt(1)))
		x := c.vars[v]
		x.def, x.k, x.slack = rest, k, s
		x.raw = c.rawPoly(rest)
		c.floors[key] = v
	}
	return out.plus(lv(v), big.NewInt(1))
}

func (c *limbCtx) rawPoly(p LPoly) bool {
	for m := range p {
		for _, v := range m {
			if v != 0 && !c.vars[v].raw {
				return false
			}
		}
	}
	return true
}

// mod2 is p modulo 2^k.
func (c *limbCtx) mod2(p LPoly, k uint) LPoly {
	return p.plus(c.floorDiv(p, k), new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), k)))
}

// ---------------------------------------------------------------------------
// Elements of the field: sums of products of powers, where a sum that is
// multiplied becomes a variable of its own.

func (c *limbCtx) feMul(a, b Poly) Poly {
	return c.feFactor(a).mul(c.feFactor(b))
}

// feFactor writes a as a single product.
func (c *limbCtx) feFactor(a Poly) Poly {
	if len(a) <= 1 {
		return a
	}
	ks := feKeys(a)
	lead := a[ks[len(ks)-1]]
	inv := new(big.Int).ModInverse(lead, fieldP)
	monic := a.mul(pconst(inv))
	s := "{" + monic.String() + "}"
	v := pvar(s)
	c.feDefs[ks0(v)] = monic
	return v.mul(pconst(lead))
}

func ks0(p Poly) string {
	for k := range p {
		return k[:strings.LastIndexByte(k, '^')]
	}
	return ""
}

func feKeys(a Poly) []string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// fePow raises a to the power n.
func (c *limbCtx) fePow(a Poly, n *big.Int) Poly {
	if n.Sign() == 0 {
		return pint(1)
	}
	a = c.feFactor(a)
	r := Poly{}
	for k, x := range a {
		y := new(big.Int).Exp(x, n, fieldP)
		var fs []string
		if k != "" {
			for _, f := range strings.Split(k, "*") {
				i := strings.LastIndexByte(f, '^')
				e, _ := new(big.Int).SetString(f[i+1:], 10)
				fs = append(fs, f[:i]+"^"+e.Mul(e, n).String())
			}
		}
		r[strings.Join(fs, "*")] = y
	}
	return r
}

// feFactors splits a monomial.
func feFactors(k string) map[string]*big.Int {
	r := map[string]*big.Int{}
	if k == "" {
		return r
	}
	for _, f := range strings.Split(k, "*") {
		i := strings.LastIndexByte(f, '^')
		e, _ := new(big.Int).SetString(f[i+1:], 10)
		r[f[:i]] = e
	}
	return r
}

// feSubst replaces variables of the field.
func (c *limbCtx) feSubst(a Poly, by map[string]Poly) Poly {
	r := Poly{}
	for _, k := range feKeys(a) {
		t := pconst(a[k])
		for v, e := range feFactors(k) {
			if b, ok := by[v]; ok {
				t = c.feMulKeep(t, c.feSubstPow(b, e))
			} else if d, ok := c.feDefs[v]; ok {
				// the sum may hold what is replaced
				nd := c.feSubst(d, by)
				if nd.String() == d.String() {
					t = t.mul(Poly{v + "^" + e.String(): big.NewInt(1)})
				} else {
					t = c.feMulKeep(t, c.feSubstPow(nd, e))
				}
			} else {
				t = t.mul(Poly{v + "^" + e.String(): big.NewInt(1)})
			}
		}
		r = r.add(t, 1)
	}
	return r
}

func (c *limbCtx) feSubstPow(b Poly, e *big.Int) Poly {
	if e.IsInt64() && e.Int64() == 1 {
		return b
	}
	return c.fePow(b, e)
}

func (c *limbCtx) feMulKeep(a, b Poly) Poly {
	if k, ok := a[""]; ok && len(a) == 1 {
		return b.mul(pconst(k))
	}
	return c.feMul(a, b)
}

// feRat turns a into a quotient of polynomials over the variables that do not
// stand for sums; large powers that are not inversions stay variables.
func (c *limbCtx) feRat(a Poly) *Rat {
	r := rpoly(Poly{})
	pm1 := new(big.Int).Sub(fieldP, big.NewInt(1))
	for _, k := range feKeys(a) {
		t := rpoly(pconst(a[k]))
		for v, e := range feFactors(k) {
			base := rpoly(Poly{v + "^1": big.NewInt(1)})
			if d, ok := c.feDefs[v]; ok {
				base = c.feRat(d)
			}
			e = new(big.Int).Mod(new(big.Int).Sub(e, big.NewInt(1)), pm1)
			e.Add(e, big.NewInt(1)) // 1..p-1: the same function
			back := new(big.Int).Sub(pm1, e)
			switch {
			case e.BitLen() < 7:
				for i := int64(0); i < e.Int64(); i++ {
					t = t.mul(base)
				}
			case back.BitLen() < 7:
				if back.Sign() == 0 {
					t = t.mul(base).mul(base.inv())
				}
				for i := int64(0); i < back.Int64(); i++ {
					t = t.mul(base.inv())
				}
			default:
				t = t.mul(rpoly(Poly{v + "^" + e.String(): big.NewInt(1)}))
			}
		}
		r = r.add(t, 1)
	}
	return r
}

// knownFloor is floor(v/2^k), if it has been taken before.
func (c *limbCtx) knownFloor(v int32, k uint) (int32, bool) {
	x := c.vars[v]
	var key string
	if x.def != nil {
		key = fmt.Sprint(x.k+k, "|", x.def.key())
	} else {
		key = fmt.Sprint(k, "|", lv(v).key())
	}
	f, ok := c.floors[key]
	return f, ok
}
