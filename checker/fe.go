package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// The field GF(2^255-19): rational functions with exact coefficients. This is
// the abstract domain in which key conversion is interpreted; that the field
// operations compute these functions is property C24.

var fieldP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

// Poly maps a monomial ("x^2*y") to its coefficient modulo p.
type Poly map[string]*big.Int

func pconst(c *big.Int) Poly {
	c = new(big.Int).Mod(c, fieldP)
	if c.Sign() == 0 {
		return Poly{}
	}
	return Poly{"": c}
}

func pint(c int64) Poly { return pconst(big.NewInt(c)) }

// pvars numbers the variables.
var pvars = map[string]int{}
var pvarNames []string

func pvar(v string) Poly {
	n, ok := pvars[v]
	if !ok {
		n = len(pvars)
		pvars[v] = n
		pvarNames = append(pvarNames, v)
	}
	return Poly{fmt.Sprintf("v%d^1", n): big.NewInt(1)}
}

func (p Poly) add(q Poly, k int64) Poly {
	r := Poly{}
	for m, c := range p {
		r[m] = c
	}
	for m, c := range q {
		x := new(big.Int).Mul(c, big.NewInt(k))
		if y := r[m]; y != nil {
			x.Add(x, y)
		}
		x.Mod(x, fieldP)
		if x.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = x
		}
	}
	return r
}

func mulMono(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	e := map[string]*big.Int{}
	for _, s := range append(strings.Split(a, "*"), strings.Split(b, "*")...) {
		i := strings.LastIndexByte(s, '^')
		n, _ := new(big.Int).SetString(s[i+1:], 10)
		if y := e[s[:i]]; y != nil {
			n.Add(n, y)
		}
		e[s[:i]] = n
	}
	var ks []string
	for k := range e {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = k + "^" + e[k].String()
	}
	return strings.Join(ks, "*")
}

func (p Poly) mul(q Poly) Poly {
	r := Poly{}
	for m, c := range p {
		for n, d := range q {
			k := mulMono(m, n)
			x := new(big.Int).Mul(c, d)
			if y := r[k]; y != nil {
				x.Add(x, y)
			}
			r[k] = x.Mod(x, fieldP)
		}
	}
	for k, c := range r {
		if c.Sign() == 0 {
			delete(r, k)
		}
	}
	return r
}

func (p Poly) String() string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	half := new(big.Int).Rsh(fieldP, 1)
	for _, k := range ks {
		c := p[k]
		if c.Cmp(half) > 0 {
			c = new(big.Int).Sub(c, fieldP)
		}
		s := c.String()
		if k != "" {
			s += "*" + strings.ReplaceAll(k, "^1", "")
			if c.Cmp(big.NewInt(1)) == 0 {
				s = k
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return "0"
	}
	return strings.Join(out, "+")
}

// Rat is a quotient; the value where the denominator vanishes is 0.
type Rat struct{ num, den Poly }

func rpoly(p Poly) *Rat { return &Rat{p, pint(1)} }

func (a *Rat) add(b *Rat, k int64) *Rat {
	if a.den.String() == b.den.String() {
		return &Rat{a.num.add(b.num, k), a.den}
	}
	return &Rat{a.num.mul(b.den).add(b.num.mul(a.den), k), a.den.mul(b.den)}
}

func (a *Rat) mul(b *Rat) *Rat { return &Rat{a.num.mul(b.num), a.den.mul(b.den)} }
func (a *Rat) inv() *Rat       { return &Rat{a.den, a.num} }

// same reports whether a and b are the same function.
func (a *Rat) same(b *Rat) bool { return len(a.num.mul(b.den).add(b.num.mul(a.den), -1)) == 0 }

func (a *Rat) String() string {
	if a.den.String() == "1" {
		return a.num.String()
	}
	return "(" + a.num.String() + ")/(" + a.den.String() + ")"
}

// rats holds the functions that terms "fe" stand for.
var rats = map[string]*Rat{}

func feTerm(r *Rat) *Opq {
	k := r.String()
	if rats[k] == nil {
		rats[k] = r
	}
	return &Opq{t: mk("fe", k), nonnil: true}
}

// limbExp is the weight (a power of two) of each limb.
var limbExp = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

// feOf is the field element denoted by an abstract value.
func feOf(v Value) *Rat {
	switch x := v.(type) {
	case *Opq:
		if x.t.op == "fe" {
			return rats[x.t.s]
		}
		return rpoly(pvar("?" + fmt.Sprint(x.t.id)))
	case *Arr:
		if len(x.es) == 10 {
			sum := new(big.Int)
			for i, e := range x.es {
				l, ok := e.(*Lin)
				if !ok || !l.isConst() {
					sum = nil
					break
				}
				sum.Add(sum, new(big.Int).Lsh(big.NewInt(l.c), limbExp[i]))
			}
			if sum != nil {
				return rpoly(pconst(sum))
			}
		}
	}
	return rpoly(pvar("?" + v.key()))
}

const edPkg = modPath + "/signify/internal/edwards25519"

func (c *callCtx) fe(i int) *Rat {
	switch p := c.args[i].(type) {
	case *Ptr:
		if o := c.st.obj(p.obj); o != nil {
			return feOf(c.e.loadPath(c.st, o.v, p.path, nil))
		}
	case *Opq:
		return rpoly(pvar("?" + fmt.Sprint(p.t.id)))
	}
	return rpoly(pvar("?" + c.args[i].key()))
}

func (c *callCtx) setFe(i int, r *Rat) {
	if p, ok := c.args[i].(*Ptr); ok {
		c.e.store(c.fr, c.st, p, feTerm(r), c.pos)
	}
}

// feModels interprets the field operations exactly. withPoint also models the
// decoding of points.
func (e *Engine) feModels(withPoint bool) {
	bin := func(name string, f func(a, b *Rat) *Rat) {
		e.local[edPkg+"."+name] = func(c *callCtx) []Outcome {
			c.setFe(0, f(c.fe(1), c.fe(2)))
			return c.one(Nil{})
		}
	}
	un := func(name string, f func(a *Rat) *Rat) {
		e.local[edPkg+"."+name] = func(c *callCtx) []Outcome {
			c.setFe(0, f(c.fe(1)))
			return c.one(Nil{})
		}
	}
	cst := func(name string, k int64) {
		e.local[edPkg+"."+name] = func(c *callCtx) []Outcome {
			c.setFe(0, rpoly(pint(k)))
			return c.one(Nil{})
		}
	}
	cst("FeZero", 0)
	cst("FeOne", 1)
	bin("FeAdd", func(a, b *Rat) *Rat { return a.add(b, 1) })
	bin("FeSub", func(a, b *Rat) *Rat { return a.add(b, -1) })
	bin("FeMul", func(a, b *Rat) *Rat { return a.mul(b) })
	un("FeSquare", func(a *Rat) *Rat { return a.mul(a) })
	un("FeSquare2", func(a *Rat) *Rat { return a.mul(a).mul(rpoly(pint(2))) })
	un("FeNeg", func(a *Rat) *Rat { return rpoly(pint(0)).add(a, -1) })
	un("FeCopy", func(a *Rat) *Rat { return a })
	un("FeInvert", func(a *Rat) *Rat { return a.inv() })
	un("fePow22523", func(a *Rat) *Rat { return rpoly(pvar("pow22523[" + a.String() + "]")) })
	e.local[edPkg+".FeFromBytes"] = func(c *callCtx) []Outcome {
		c.setFe(0, rpoly(pvar("y{"+c.ptrRope(1).canon().key()+"}")))
		return c.one(Nil{})
	}
	e.local[edPkg+".FeToBytes"] = func(c *callCtx) []Outcome {
		r := rtermN(mk("febytes", c.fe(1).String(), feTerm(c.fe(1)).t), con(32))
		if p, ok := c.args[0].(*Ptr); ok {
			c.e.store(c.fr, c.st, p, &Bytes{r}, c.pos)
		}
		return c.one(Nil{})
	}
	e.local[edPkg+".FeIsNonZero"] = func(c *callCtx) []Outcome {
		return c.one(lin(mkIv("fenonzero", "", 0, 1, feTerm(c.fe(0)).t)))
	}
	e.local[edPkg+".FeIsNegative"] = func(c *callCtx) []Outcome {
		return c.one(lin(mkIv("feneg", "", 0, 1, feTerm(c.fe(0)).t)))
	}
	if !withPoint {
		return
	}
	e.local["(*"+edPkg+".ExtendedGroupElement).FromBytes"] = func(c *callCtx) []Outcome {
		s := c.ptrRope(1).canon()
		k := s.key()
		y := rpoly(pvar("y{" + k + "}"))
		x := rpoly(pvar("x{" + k + "}"))
		if p, ok := c.args[0].(*Ptr); ok {
			n := 0
			if st, ok := c.e.load(c.st, p, nil).(*Struct); ok {
				n = len(st.fs)
			}
			for i, r := range []*Rat{x, y, rpoly(pint(1)), x.mul(y)} {
				if i < n {
					c.e.store(c.fr, c.st, p.with(Step{field: i}), feTerm(r), c.pos)
				}
			}
		}
		t := mk("oncurve", "", s)
		c.event(c.st, "frombytes", s, t)
		yes := c.st.clone()
		pr := &Bool{known: -1, p: &Pred{op: "true", a: t}}
		_ = yes
		return c.one(pr)
	}
}
