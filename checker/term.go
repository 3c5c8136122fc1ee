package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract values. All are immutable.

// Value is an abstract value.
type Value interface {
	key() string
	String() string
}

// Term is an interned node of the value-numbering (Herbrand) domain: an
// unknown, or a function of other values. Equal terms denote equal values.
type Term struct {
	id     int
	op     string
	s      string
	args   []Value
	lo, hi int64
	deps   []Value // for "phi": values merged into it
	depKey map[string]bool
	note   string

	interned bool // made by mk
}

const (
	minI   = math.MinInt64 / 4
	maxI   = math.MaxInt64 / 4
	maxLen = int64(1) << 46 // no object is larger than this
)

var (
	interned = map[string]*Term{}
	termN    int
)

// isMk: the term stands for a function of its arguments.
func (t *Term) isMk() bool { return t.interned }

func mk(op, s string, args ...Value) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(a.key())
	}
	k := b.String()
	if t := interned[k]; t != nil {
		return t
	}
	termN++
	t := &Term{id: termN, op: op, s: s, args: args, lo: minI, hi: maxI, interned: true}
	interned[k] = t
	return t
}

func mkIv(op, s string, lo, hi int64, args ...Value) *Term {
	t := mk(op, s, args...)
	if t.lo < lo {
		t.lo = lo
	}
	if t.hi > hi {
		t.hi = hi
	}
	return t
}

// fresh makes a new unknown.
func fresh(op, s string, args ...Value) *Term {
	termN++
	return &Term{id: termN, op: op, s: s, args: args, lo: minI, hi: maxI}
}

func freshIv(op, s string, lo, hi int64, args ...Value) *Term {
	t := fresh(op, s, args...)
	t.lo, t.hi = lo, hi
	return t
}

func (t *Term) key() string { return "#" + strconv.Itoa(t.id) }
func (t *Term) String() string {
	var b strings.Builder
	b.WriteString(t.op)
	if t.s != "" {
		b.WriteString(":" + t.s)
	}
	if len(t.args) > 0 {
		b.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(a.String())
		}
		b.WriteByte(')')
	} else if t.op == "phi" || t.op == "ext" {
		b.WriteString("#" + strconv.Itoa(t.id))
	}
	return b.String()
}

func (t *Term) addDep(v Value) {
	k := v.key()
	if t.depKey == nil {
		t.depKey = map[string]bool{}
	}
	if t.depKey[k] {
		return
	}
	t.depKey[k] = true
	t.deps = append(t.deps, v)
}

// ---------------------------------------------------------------------------
// Integers: linear expressions over terms.

type LT struct {
	t *Term
	k int64
}

type Lin struct {
	ts []LT // sorted by term id
	c  int64
	k  string
}

func con(c int64) *Lin { return &Lin{c: c} }

func lin(t *Term) *Lin {
	if t.op == "lin" {
		return t.args[0].(*Lin)
	}
	return &Lin{ts: []LT{{t, 1}}}
}

func (l *Lin) isConst() bool { return len(l.ts) == 0 }

func (l *Lin) single() *Term {
	if len(l.ts) == 1 && l.ts[0].k == 1 && l.c == 0 {
		return l.ts[0].t
	}
	return nil
}

func (l *Lin) key() string {
	if l.k == "" {
		var b strings.Builder
		b.WriteByte('i')
		for _, x := range l.ts {
			fmt.Fprintf(&b, "%d*%d+", x.k, x.t.id)
		}
		b.WriteString(strconv.FormatInt(l.c, 10))
		l.k = b.String()
	}
	return l.k
}

func (l *Lin) String() string {
	if l.isConst() {
		return strconv.FormatInt(l.c, 10)
	}
	var b strings.Builder
	for i, x := range l.ts {
		if i > 0 {
			b.WriteByte('+')
		}
		if x.k != 1 {
			fmt.Fprintf(&b, "%d*", x.k)
		}
		b.WriteString(x.t.String())
	}
	if l.c != 0 {
		fmt.Fprintf(&b, "%+d", l.c)
	}
	return b.String()
}

func (l *Lin) scale(k int64) *Lin {
	if k == 0 {
		return con(0)
	}
	if k == 1 {
		return l
	}
	r := &Lin{c: l.c * k}
	for _, x := range l.ts {
		r.ts = append(r.ts, LT{x.t, x.k * k})
	}
	return r
}

func (l *Lin) add(m *Lin) *Lin {
	if len(m.ts) == 0 {
		return l.addc(m.c)
	}
	r := &Lin{c: l.c + m.c}
	i, j := 0, 0
	for i < len(l.ts) || j < len(m.ts) {
		switch {
		case j == len(m.ts) || i < len(l.ts) && l.ts[i].t.id < m.ts[j].t.id:
			r.ts = append(r.ts, l.ts[i])
			i++
		case i == len(l.ts) || m.ts[j].t.id < l.ts[i].t.id:
			r.ts = append(r.ts, m.ts[j])
			j++
		default:
			if k := l.ts[i].k + m.ts[j].k; k != 0 {
				r.ts = append(r.ts, LT{l.ts[i].t, k})
			}
			i++
			j++
		}
	}
	return r
}

// subScaled is l - m*f, unless one of the numbers gets too large.
func (l *Lin) subScaled(f *Lin, m int64) (*Lin, bool) {
	small := func(v int64) bool { return v > minI/2 && v < maxI/2 }
	for _, x := range f.ts {
		if !small(satMul(x.k, m)) {
			return nil, false
		}
	}
	for _, x := range l.ts {
		if !small(x.k) {
			return nil, false
		}
	}
	if !small(l.c) || !small(satMul(f.c, m)) {
		return nil, false
	}
	return l.sub(f.scale(m)), true
}

func (l *Lin) addc(c int64) *Lin {
	if c == 0 {
		return l
	}
	return &Lin{ts: l.ts, c: l.c + c}
}

func (l *Lin) sub(m *Lin) *Lin   { return l.add(m.scale(-1)) }
func (l *Lin) equal(m *Lin) bool { return l.key() == m.key() }

func satAdd(a, b int64) int64 {
	if a <= minI || b <= minI {
		return minI
	}
	if a >= maxI || b >= maxI {
		return maxI
	}
	s := a + b
	if s <= minI {
		return minI
	}
	if s >= maxI {
		return maxI
	}
	return s
}

func satMul(a, k int64) int64 {
	if a == 0 || k == 0 {
		return 0
	}
	neg := (a < 0) != (k < 0)
	if a <= minI || a >= maxI || abs(a) > maxI/abs(k) {
		if neg {
			return minI
		}
		return maxI
	}
	return a * k
}

func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// iv is the interval of l from the intervals of its terms alone.
func (l *Lin) iv() (lo, hi int64) {
	lo, hi = l.c, l.c
	for _, x := range l.ts {
		a, b := satMul(x.t.lo, x.k), satMul(x.t.hi, x.k)
		if a > b {
			a, b = b, a
		}
		lo, hi = satAdd(lo, a), satAdd(hi, b)
	}
	return
}

// ---------------------------------------------------------------------------
// Byte strings: ropes of segments with provenance.

type segKind byte

const (
	sLit  segKind = 'L' // constant bytes
	sSub  segKind = 'S' // bytes off..off+n of the byte string t
	sCell segKind = 'C' // one byte, a Lin in 0..255
	sZero segKind = 'Z' // n zero bytes
)

type Seg struct {
	kind segKind
	lit  string
	t    *Term
	off  *Lin
	n    *Lin
	cell *Lin
}

func (s Seg) len() *Lin {
	switch s.kind {
	case sLit:
		return con(int64(len(s.lit)))
	case sCell:
		return con(1)
	}
	return s.n
}

func (s Seg) key() string {
	switch s.kind {
	case sLit:
		return "L" + strconv.Quote(s.lit)
	case sCell:
		return "C" + s.cell.key()
	case sZero:
		return "Z" + s.n.key()
	}
	return "S" + s.t.key() + "," + s.off.key() + "," + s.n.key()
}

type Rope struct {
	segs []Seg
	k    string
}

func rlit(s string) *Rope {
	if s == "" {
		return &Rope{}
	}
	return &Rope{segs: []Seg{{kind: sLit, lit: s}}}
}

func (r *Rope) len() *Lin {
	n := con(0)
	for _, s := range r.segs {
		n = n.add(s.len())
	}
	return n
}

func (r *Rope) key() string {
	if r.k == "" {
		var b strings.Builder
		b.WriteByte('R')
		for _, s := range r.canon().segs {
			b.WriteString(s.key())
			b.WriteByte(';')
		}
		r.k = b.String()
	}
	return r.k
}

func (r *Rope) String() string {
	var p []string
	for _, s := range r.canon().segs {
		switch s.kind {
		case sLit:
			p = append(p, strconv.Quote(s.lit))
		case sCell:
			p = append(p, "<"+s.cell.String()+">")
		case sZero:
			p = append(p, "zero["+s.n.String()+"]")
		default:
			if s.off.key() == con(0).key() && s.n.key() == seqLen(s.t).key() {
				p = append(p, s.t.String())
			} else {
				p = append(p, s.t.String()+"["+s.off.String()+":+"+s.n.String()+"]")
			}
		}
	}
	if len(p) == 0 {
		return `""`
	}
	return strings.Join(p, "·")
}

// lit returns the constant content, if the rope is constant.
func (r *Rope) lit() (string, bool) {
	var b strings.Builder
	for _, s := range r.norm().segs {
		switch s.kind {
		case sLit:
			b.WriteString(s.lit)
		case sZero:
			if !s.n.isConst() || s.n.c > 1<<16 || s.n.c < 0 {
				return "", false
			}
			b.WriteString(strings.Repeat("\x00", int(s.n.c)))
		default:
			return "", false
		}
	}
	return b.String(), true
}

// seqLen is the length of the byte string denoted by a sequence term.
func seqLen(t *Term) *Lin {
	switch t.op {
	case "cat":
		return t.args[0].(*Rope).len()
	case "xor":
		return t.args[0].(*Rope).len()
	}
	if n, ok := fixedLen[t.op]; ok {
		return con(n)
	}
	if t.op == "putbe" || t.op == "putle" {
		n, _ := strconv.Atoi(t.s)
		return con(int64(n))
	}
	if l, ok := seqLens[t]; ok {
		return l
	}
	return lin(mkIv("len", "", 0, maxLen, t))
}

// seqLens gives the length of sequence terms whose length is a parameter.
var seqLens = map[*Term]*Lin{}

var fixedLen = map[string]int64{"sha512": 64, "edsign": 64, "authsum": 32, "sha256": 32}

func rterm(t *Term) *Rope {
	return (&Rope{segs: []Seg{{kind: sSub, t: t, off: con(0), n: seqLen(t)}}}).norm()
}

func rtermN(t *Term, n *Lin) *Rope {
	seqLens[t] = n
	return rterm(t)
}

func rzero(n *Lin) *Rope { return (&Rope{segs: []Seg{{kind: sZero, n: n}}}).norm() }

func rcell(c *Lin) *Rope { return (&Rope{segs: []Seg{{kind: sCell, cell: c}}}).norm() }

// norm merges adjacent segments.
func (r *Rope) norm() *Rope {
	var out []Seg
	for _, s := range r.segs {
		if s.kind == sCell {
			if s.cell.isConst() {
				s = Seg{kind: sLit, lit: string([]byte{byte(s.cell.c)})}
			} else if t := s.cell.single(); t != nil && t.op == "at" {
				s = Seg{kind: sSub, t: t.args[0].(*Term), off: t.args[1].(*Lin), n: con(1)}
			}
		}
		if s.kind == sZero && s.n.isConst() && s.n.c <= 64 {
			if s.n.c <= 0 {
				continue
			}
			s = Seg{kind: sLit, lit: strings.Repeat("\x00", int(s.n.c))}
		}
		if s.kind == sLit && s.lit == "" || s.kind != sLit && s.kind != sCell && s.n.isConst() && s.n.c == 0 {
			continue
		}
		if s.kind == sSub && s.t.op == "cat" && s.off.isConst() && s.off.c == 0 && s.n.equal(seqLen(s.t)) {
			for _, x := range s.t.args[0].(*Rope).segs {
				out = appendSeg(out, x)
			}
			continue
		}
		out = appendSeg(out, s)
	}
	return &Rope{segs: out}
}

func appendSeg(out []Seg, s Seg) []Seg {
	if n := len(out); n > 0 {
		p := &out[n-1]
		switch {
		case p.kind == sLit && s.kind == sLit:
			out[n-1] = Seg{kind: sLit, lit: p.lit + s.lit}
			return out
		case p.kind == sSub && s.kind == sSub && p.t == s.t && p.off.add(p.n).equal(s.off):
			out[n-1] = Seg{kind: sSub, t: p.t, off: p.off, n: p.n.add(s.n)}
			return out
		case p.kind == sZero && s.kind == sZero:
			out[n-1] = Seg{kind: sZero, n: p.n.add(s.n)}
			return out
		case p.kind == sZero && s.kind == sLit && strings.Trim(s.lit, "\x00") == "":
			out[n-1] = Seg{kind: sZero, n: p.n.addc(int64(len(s.lit)))}
			return out
		}
	}
	return append(out, s)
}

// canon is norm, with runs of bytewise XORs merged into sequences.
func (r *Rope) canon() *Rope {
	n := r.norm()
	has := false
	for _, s := range n.segs {
		if s.kind == sCell && s.cell.single() != nil && s.cell.single().op == "xor8" {
			has = true
		}
	}
	if !has {
		return n
	}
	var out []Seg
	for i := 0; i < len(n.segs); {
		ats := xorAts(n.segs[i])
		if ats == nil {
			out = appendSeg(out, n.segs[i])
			i++
			continue
		}
		j := i + 1
		for j < len(n.segs) {
			b := xorAts(n.segs[j])
			if len(b) != len(ats) {
				break
			}
			same := true
			for x := range b {
				if b[x].args[0] != ats[x].args[0] || !b[x].args[1].(*Lin).equal(ats[x].args[1].(*Lin).addc(int64(j-i))) {
					same = false
				}
			}
			if !same {
				break
			}
			j++
		}
		cnt := con(int64(j - i))
		var ropes []Value
		for _, a := range ats {
			ropes = append(ropes, (&Rope{segs: []Seg{{kind: sSub, t: a.args[0].(*Term), off: a.args[1].(*Lin), n: cnt}}}).norm())
		}
		sort.Slice(ropes, func(a, b int) bool { return ropes[a].key() < ropes[b].key() })
		out = appendSeg(out, Seg{kind: sSub, t: mk("xor", "", ropes...), off: con(0), n: cnt})
		i = j
	}
	return &Rope{segs: out}
}

// xorAts returns the operands of a cell that is an XOR of bytes of sequences,
// ordered by sequence.
func xorAts(s Seg) []*Term {
	if s.kind != sCell {
		return nil
	}
	t := s.cell.single()
	if t == nil || t.op != "xor8" {
		return nil
	}
	var r []*Term
	for _, a := range t.args {
		x := a.(*Lin).single()
		if x == nil || x.op != "at" {
			return nil
		}
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].args[0].(*Term).id < r[j].args[0].(*Term).id })
	for i := 1; i < len(r); i++ {
		if r[i].args[0] == r[i-1].args[0] {
			return nil
		}
	}
	return r
}

func cat(rs ...*Rope) *Rope {
	r := &Rope{}
	for _, x := range rs {
		r.segs = append(r.segs, x.segs...)
	}
	return r.norm()
}

// term turns a rope into a sequence term.
func (r *Rope) term() *Term {
	c := r.canon()
	if len(c.segs) == 1 && c.segs[0].kind == sSub {
		s := c.segs[0]
		if s.off.isConst() && s.off.c == 0 && s.n.equal(seqLen(s.t)) {
			return s.t
		}
	}
	return mk("cat", "", c)
}

// at is byte i of the sequence t.
func at(t *Term, i *Lin) *Lin {
	if i.isConst() {
		switch t.op {
		case "cat":
			pos := int64(0)
			for _, s := range t.args[0].(*Rope).segs {
				n := s.len()
				if !n.isConst() {
					break
				}
				if i.c < pos+n.c {
					return segAt(s, con(i.c-pos))
				}
				pos += n.c
			}
		case "xor":
			var xs []*Lin
			for _, a := range t.args {
				xs = append(xs, at(a.(*Rope).term(), i))
			}
			r := xs[0]
			for _, x := range xs[1:] {
				r = xor8(r, x)
			}
			return r
		}
	}
	return lin(mkIv("at", "", 0, 255, t, i))
}

func segAt(s Seg, i *Lin) *Lin {
	switch s.kind {
	case sLit:
		if i.isConst() && i.c >= 0 && i.c < int64(len(s.lit)) {
			return con(int64(s.lit[i.c]))
		}
		return at(mk("cat", "", rlit(s.lit)), i)
	case sCell:
		return s.cell
	case sZero:
		return con(0)
	}
	return at(s.t, s.off.add(i))
}

// ---------------------------------------------------------------------------
// Byte operations.

func xorArgs(a *Lin) []*Lin {
	if t := a.single(); t != nil && t.op == "xor8" {
		var r []*Lin
		for _, x := range t.args {
			r = append(r, x.(*Lin))
		}
		return r
	}
	return []*Lin{a}
}

func xor8(a, b *Lin) *Lin {
	c := int64(0)
	cnt := map[string]*Lin{}
	for _, x := range append(xorArgs(a), xorArgs(b)...) {
		if x.isConst() {
			c ^= x.c
			continue
		}
		k := x.key()
		if cnt[k] != nil {
			delete(cnt, k)
		} else {
			cnt[k] = x
		}
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var args []Value
	for _, k := range ks {
		args = append(args, cnt[k])
	}
	c &= 255
	if len(args) == 0 {
		return con(c)
	}
	if c != 0 {
		args = append(args, con(c))
	}
	if len(args) == 1 {
		return args[0].(*Lin)
	}
	return lin(mkIv("xor8", "", 0, 255, args...))
}

// mask8 is (a & and) | or.
func mask8(a *Lin, and, or int64) *Lin {
	if a.isConst() {
		return con(a.c&and | or)
	}
	if t := a.single(); t != nil && t.op == "mask8" {
		a0 := t.args[0].(*Lin)
		and0, or0 := t.args[1].(*Lin).c, t.args[2].(*Lin).c
		return mask8(a0, and0&and, or0&and|or)
	}
	and &= 255 &^ or
	or &= 255
	if and == 255 && or == 0 {
		return a
	}
	if and == 0 {
		return con(or)
	}
	return lin(mkIv("mask8", "", or, and|or, a, con(and), con(or)))
}

func add8(a *Lin, c int64) *Lin {
	c &= 255
	if a.isConst() {
		return con((a.c + c) & 255)
	}
	if t := a.single(); t != nil && t.op == "add8" {
		return add8(t.args[0].(*Lin), t.args[1].(*Lin).c+c)
	}
	if c == 0 {
		return a
	}
	return lin(mkIv("add8", "", 0, 255, a, con(c)))
}

// ---------------------------------------------------------------------------
// Booleans.

// Pred is an atomic predicate: eq(a,b), lt(a,b) on integers, or true(a).
type Pred struct {
	op   string
	a, b Value
}

func (p *Pred) key() string {
	if p.b == nil {
		return p.op + "(" + p.a.key() + ")"
	}
	return p.op + "(" + p.a.key() + "," + p.b.key() + ")"
}

func (p *Pred) String() string {
	if p.b == nil {
		return p.op + "(" + p.a.String() + ")"
	}
	return p.op + "(" + p.a.String() + ", " + p.b.String() + ")"
}

type Bool struct {
	known int8 // 1 true, 0 false, -1 see p
	p     *Pred
	neg   bool
}

func bconst(b bool) *Bool {
	if b {
		return &Bool{known: 1}
	}
	return &Bool{known: 0}
}

func (b *Bool) not() *Bool {
	if b.known >= 0 {
		return &Bool{known: 1 - b.known}
	}
	return &Bool{known: -1, p: b.p, neg: !b.neg}
}

func (b *Bool) key() string {
	if b.known >= 0 {
		return fmt.Sprintf("b%d", b.known)
	}
	return fmt.Sprintf("b%v%s", b.neg, b.p.key())
}

func (b *Bool) String() string {
	if b.known >= 0 {
		return fmt.Sprint(b.known == 1)
	}
	if b.neg {
		return "!" + b.p.String()
	}
	return b.p.String()
}

func eqPred(a, b Value) *Pred {
	if a.key() > b.key() {
		a, b = b, a
	}
	return &Pred{op: "eq", a: a, b: b}
}

// ---------------------------------------------------------------------------
// Other values.

type Str struct{ r *Rope }

func (s *Str) key() string    { return "s" + s.r.key() }
func (s *Str) String() string { return s.r.String() }

type Step struct {
	field int
	idx   *Lin // element, if not nil
}

func stepsKey(p []Step) string {
	var b strings.Builder
	for _, s := range p {
		if s.idx != nil {
			b.WriteString("[" + s.idx.key() + "]")
		} else {
			b.WriteString("." + strconv.Itoa(s.field))
		}
	}
	return b.String()
}

type Ptr struct {
	obj  int
	path []Step
}

func (p *Ptr) key() string    { return fmt.Sprintf("p%d%s", p.obj, stepsKey(p.path)) }
func (p *Ptr) String() string { return "&" + p.key() }

func (p *Ptr) with(s Step) *Ptr {
	n := make([]Step, len(p.path)+1)
	copy(n, p.path)
	n[len(p.path)] = s
	return &Ptr{p.obj, n}
}

// Slice is a slice of the array at arr (nil slice: arr == nil).
type Slice struct {
	arr       *Ptr
	off, n, c *Lin // offset, length, capacity
	elem      types.Type
	maybeNil  *Pred // unknown whether nil
}

func (s *Slice) key() string {
	if s.arr == nil {
		return "nilslice"
	}
	return "S" + s.arr.key() + ":" + s.off.key() + ":" + s.n.key() + ":" + s.c.key()
}
func (s *Slice) String() string { return s.key() }

type Bytes struct{ r *Rope } // a byte array

func (b *Bytes) key() string    { return "B" + b.r.key() }
func (b *Bytes) String() string { return b.r.String() }

type Struct struct {
	typ types.Type
	fs  []Value
}

func (s *Struct) key() string {
	var b strings.Builder
	b.WriteByte('{')
	for _, f := range s.fs {
		b.WriteString(f.key())
		b.WriteByte(',')
	}
	return b.String() + "}"
}
func (s *Struct) String() string {
	var p []string
	for _, f := range s.fs {
		p = append(p, f.String())
	}
	return "{" + strings.Join(p, ", ") + "}"
}

type Arr struct{ es []Value }

func (s *Arr) key() string {
	var b strings.Builder
	b.WriteByte('[')
	for _, f := range s.es {
		b.WriteString(f.key())
		b.WriteByte(',')
	}
	return b.String() + "]"
}
func (s *Arr) String() string {
	var p []string
	for _, f := range s.es {
		p = append(p, f.String())
	}
	return "[" + strings.Join(p, ", ") + "]"
}

type Nil struct{}

func (Nil) key() string    { return "nil" }
func (Nil) String() string { return "nil" }

type Iface struct {
	typ types.Type
	v   Value
}

func (i *Iface) key() string    { return "I" + i.typ.String() + ":" + i.v.key() }
func (i *Iface) String() string { return "iface(" + i.v.String() + ")" }

// Opq is a value about which only its identity is known.
type Opq struct {
	t      *Term
	typ    types.Type
	nonnil bool
}

func (o *Opq) key() string    { return "o" + o.t.key() }
func (o *Opq) String() string { return o.t.String() }

type Fn struct {
	fn    *ssa.Function
	binds []Value
}

func (f *Fn) key() string {
	s := "f" + f.fn.String()
	for _, b := range f.binds {
		s += "," + b.key()
	}
	return s
}
func (f *Fn) String() string { return f.fn.String() }

type Tup struct{ vs []Value }

func (t *Tup) key() string {
	s := "t"
	for _, v := range t.vs {
		s += v.key() + ","
	}
	return s
}
func (t *Tup) String() string {
	var p []string
	for _, v := range t.vs {
		p = append(p, v.String())
	}
	return "(" + strings.Join(p, ", ") + ")"
}

// Mod is the state of an object of an external type that a model knows.
type Mod struct {
	kind string
	f    map[string]Value
}

func (m *Mod) get(k string) Value { return m.f[k] }
func (m *Mod) set(k string, v Value) *Mod {
	n := &Mod{kind: m.kind, f: map[string]Value{}}
	for a, b := range m.f {
		n.f[a] = b
	}
	n.f[k] = v
	return n
}
func (m *Mod) key() string {
	var ks []string
	for k := range m.f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := "M" + m.kind
	for _, k := range ks {
		s += "," + k + "=" + m.f[k].key()
	}
	return s
}
func (m *Mod) String() string { return m.key() }

// ---------------------------------------------------------------------------

// walkTerms visits v and everything it is made of. stop prevents descending.
func walk(v Value, seen map[string]bool, visit func(Value) bool) {
	if v == nil {
		return
	}
	k := v.key()
	if seen[k] {
		return
	}
	seen[k] = true
	if !visit(v) {
		return
	}
	switch x := v.(type) {
	case *Term:
		for _, a := range x.args {
			walk(a, seen, visit)
		}
		for _, a := range x.deps {
			walk(a, seen, visit)
		}
	case *Lin:
		for _, t := range x.ts {
			walk(t.t, seen, visit)
		}
	case *Rope:
		for _, s := range x.segs {
			if s.t != nil {
				walk(s.t, seen, visit)
			}
			if s.cell != nil {
				walk(s.cell, seen, visit)
			}
		}
	case *Str:
		walk(x.r, seen, visit)
	case *Bytes:
		walk(x.r, seen, visit)
	case *Struct:
		for _, f := range x.fs {
			walk(f, seen, visit)
		}
	case *Arr:
		for _, f := range x.es {
			walk(f, seen, visit)
		}
	case *Tup:
		for _, f := range x.vs {
			walk(f, seen, visit)
		}
	case *Iface:
		walk(x.v, seen, visit)
	case *Opq:
		walk(x.t, seen, visit)
	case *Bool:
		if x.p != nil {
			walk(x.p.a, seen, visit)
			if x.p.b != nil {
				walk(x.p.b, seen, visit)
			}
		}
	case *Mod:
		for _, f := range x.f {
			walk(f, seen, visit)
		}
	}
}
