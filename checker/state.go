package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Obj is an abstract memory object. Immutable: a store replaces it.
type Obj struct {
	typ    types.Type // of the object, may be nil
	v      Value
	site   string
	global *ssa.Global
	ext    bool // handed out by, or reachable for, unknown code
}

type FactNode struct {
	p    *Pred
	key  string
	true bool
	prev *FactNode
	n    int
}

type IneqNode struct {
	eff  []*Lin // see strongest
	l    *Lin   // l >= 0
	prev *IneqNode
	n    int
}

// Event is something a path did: an external call with its outcome, a store
// to a global, a loop summary.
type Event struct {
	Name  string
	Args  []Value // as passed
	In    []Value // slices, pointers and interfaces resolved to their contents
	Out   Value   // produced content, if any
	Ret   Value
	Fail  bool   // the call failed
	Part  string // which outcome ("", "eof", "short", ...)
	Err   Value  // the error it returned, if it failed
	Pos   token.Pos
	Fn    *ssa.Function
	Facts *FactNode
	Ineqs *IneqNode
	St    *State // shallow: for facts only
	Loop  bool   // summarises earlier iterations of a loop
	Via   Value  // the buffer through which it was read or written
}

type TraceNode struct {
	e    *Event
	prev *TraceNode
	n    int
}

// DefNode records that term t equals l (whose terms are older).
type DefNode struct {
	t    *Term
	l    *Lin
	prev *DefNode
}

type State struct {
	defs  *DefNode
	heap  map[int]*Obj
	base  map[int]*Obj // shared with other states, not written to
	facts *FactNode
	ineqs *IneqNode
	trace *TraceNode
	hist  *HistNode
	why   *Why

	panicking *Panicking
}

// Panicking: a deferred call runs because of a panic. Functions at the depth
// may recover.
type Panicking struct {
	val   Value
	depth int
}

// Why records where an error was first returned: what had been decided, and
// what had happened, before the deferred calls ran.
type Why struct {
	key   string
	facts *FactNode
	trace *TraceNode
	pos   token.Pos
	fn    *ssa.Function
}

// HistNode records the last loop head that a path came through.
type HistNode struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	head   *State
	hphi   []Value
	ephi   []Value
	prev   *HistNode
}

// obj is the object with the given number, or nil.
func (s *State) obj(id int) *Obj {
	if o := s.heap[id]; o != nil {
		return o
	}
	return s.base[id]
}

func (s *State) setObj(id int, o *Obj) { s.heap[id] = o }

func (s *State) each(f func(id int, o *Obj)) {
	for id, o := range s.base {
		if s.heap[id] == nil {
			f(id, o)
		}
	}
	for id, o := range s.heap {
		f(id, o)
	}
}

// freeze makes what is in the heap the base that clones share.
func (s *State) freeze() {
	b := map[int]*Obj{}
	s.each(func(id int, o *Obj) { b[id] = o })
	s.base, s.heap = b, map[int]*Obj{}
}

func (s *State) clone() *State {
	n := &State{base: s.base, heap: make(map[int]*Obj, len(s.heap)+4), defs: s.defs, facts: s.facts, ineqs: s.ineqs, trace: s.trace, hist: s.hist, why: s.why, panicking: s.panicking}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) emit(e *Event) {
	e.Facts, e.Ineqs = s.facts, s.ineqs
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &TraceNode{e, s.trace, n}
}

// events lists the events of the path, oldest first.
func (s *State) events() []*Event {
	var r []*Event
	for t := s.trace; t != nil; t = t.prev {
		r = append(r, t.e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---------------------------------------------------------------------------
// Facts.

func (s *State) assume(b *Bool, truth bool) bool {
	if b.known >= 0 {
		return (b.known == 1) == truth
	}
	if b.neg {
		truth = !truth
	}
	return s.assumePred(b.p, truth)
}

func (s *State) assumePred(p *Pred, truth bool) bool {
	if k := s.decide(p); k >= 0 {
		return (k == 1) == truth
	}
	n := 1
	if s.facts != nil {
		n = s.facts.n + 1
	}
	s.facts = &FactNode{p, p.key(), truth, s.facts, n}
	if t := nilTerm(p); t != nil && truth {
		s.addIneq(seqLen(t).scale(-1)) // nil is empty
	}
	la, oka := p.a.(*Lin)
	lb, okb := p.b.(*Lin)
	switch {
	case p.op == "lt" && oka && okb:
		if truth { // a < b
			s.addIneq(lb.sub(la).addc(-1))
		} else {
			s.addIneq(la.sub(lb))
		}
	case p.op == "eq" && oka && okb:
		if truth {
			s.addIneq(la.sub(lb))
			s.addIneq(lb.sub(la))
			s.define(la.sub(lb))
		} else if s.prove(la.sub(lb)) {
			s.addIneq(la.sub(lb).addc(-1))
		} else if s.prove(lb.sub(la)) {
			s.addIneq(lb.sub(la).addc(-1))
		}
	}
	return true
}

// nilTerm is the slice that p states to be nil.
func nilTerm(p *Pred) *Term {
	if p.op != "true" {
		return nil
	}
	t, ok := p.a.(*Term)
	if !ok || t.op != "isnil" || len(t.args) != 1 {
		return nil
	}
	x, _ := t.args[0].(*Term)
	return x
}

func (s *State) addIneq(l *Lin) {
	l = s.simp(l)
	if l.isConst() {
		return
	}
	n := 1
	if s.ineqs != nil {
		n = s.ineqs.n + 1
	}
	s.ineqs = &IneqNode{l: l, prev: s.ineqs, n: n}
	if len(l.ts) <= 2 && s.prove(l.scale(-1)) {
		s.define(l)
	}
}

// define uses l == 0 to eliminate the newest of its terms.
func (s *State) define(l *Lin) {
	l = s.simp(l)
	for i := len(l.ts) - 1; i >= 0; i-- {
		x := l.ts[i]
		if x.k == 1 || x.k == -1 {
			rest := l.sub(&Lin{ts: []LT{x}})
			s.defs = &DefNode{x.t, rest.scale(-x.k), s.defs}
			return
		}
	}
}

// simp replaces terms by what they are known to be equal to.
func (s *State) simp(l *Lin) *Lin {
	if s.defs == nil || l.isConst() {
		return l
	}
	for n := 0; n < 20; n++ {
		ch := false
		for _, x := range l.ts {
			for d := s.defs; d != nil; d = d.prev {
				if d.t == x.t {
					if r, ok := l.sub(&Lin{ts: []LT{x}}).subScaled(d.l, -x.k); ok {
						l = r
						ch = true
					}
					break
				}
			}
			if ch {
				break
			}
		}
		if !ch {
			break
		}
	}
	return l
}

// simpRope simplifies the lengths in r.
func (s *State) simpRope(r *Rope) *Rope {
	if s.defs == nil {
		return r.norm()
	}
	n := &Rope{}
	for _, g := range r.segs {
		if g.kind == sSub || g.kind == sZero {
			g.n = s.simp(g.n)
			if g.off != nil {
				g.off = s.simp(g.off)
			}
		}
		n.segs = append(n.segs, g)
	}
	return n.norm()
}

// decide evaluates a predicate: 1 true, 0 false, -1 unknown.
func (s *State) decide(p *Pred) int8 {
	k := p.key()
	for f := s.facts; f != nil; f = f.prev {
		if f.key == k {
			if f.true {
				return 1
			}
			return 0
		}
	}
	if t := nilTerm(p); t != nil && s.prove(seqLen(t).addc(-1)) {
		return 0
	}
	la, oka := p.a.(*Lin)
	lb, okb := p.b.(*Lin)
	if oka && okb {
		d := lb.sub(la)
		switch p.op {
		case "lt":
			if s.prove(d.addc(-1)) {
				return 1
			}
			if s.prove(d.scale(-1)) {
				return 0
			}
		case "eq":
			if d.isConst() {
				if d.c == 0 {
					return 1
				}
				return 0
			}
			if s.prove(d.addc(-1)) || s.prove(d.scale(-1).addc(-1)) {
				return 0
			}
			if s.prove(d) && s.prove(d.scale(-1)) {
				return 1
			}
		}
	}
	return -1
}

// holds reports whether the fact list (of an event) contains p with the truth.
func factHolds(f *FactNode, p *Pred, truth bool) bool {
	k := p.key()
	for ; f != nil; f = f.prev {
		if f.key == k {
			return f.true == truth
		}
	}
	return false
}

// prove tries to show l >= 0 from the intervals of terms and the facts.
func (s *State) prove(l *Lin) bool {
	l = s.simp(l)
	if lo, _ := l.iv(); lo >= 0 {
		return true
	}
	if l.isConst() || s.ineqs == nil {
		return false
	}
	fuel := proofSize
	return proveFrom(s.ineqs.strongest(), l, 4, map[string]int{}, &fuel)
}

// strongest lists, for each linear form, the strongest of the inequalities.
func (n *IneqNode) strongest() []*Lin {
	if n.eff != nil {
		return n.eff
	}
	at := map[string]int{}
	out := make([]*Lin, 0, n.n)
	for f := n; f != nil; f = f.prev {
		if lo, _ := f.l.iv(); lo >= 0 {
			continue // holds anyway
		}
		k := f.l.addc(-f.l.c).key()
		if i, ok := at[k]; ok {
			if f.l.c < out[i].c {
				out[i] = f.l
			}
			continue
		}
		at[k] = len(out)
		out = append(out, f.l)
	}
	n.eff = out
	return out
}

// proofSize bounds the search for a proof (the proofs needed here take a few
// steps).
const proofSize = 1000

func proveFrom(fs []*Lin, l *Lin, depth int, tried map[string]int, fuel *int) bool {
	if *fuel--; *fuel < 0 {
		return false
	}
	lo, _ := l.iv()
	if lo >= 0 {
		return true
	}
	if depth == 0 || l.isConst() {
		return false
	}
	k := l.key()
	if tried[k] >= depth {
		return false
	}
	tried[k] = depth
	for _, f := range fs {
		// use f if it shares a term with the same sign as in l
		for _, x := range f.ts {
			for _, y := range l.ts {
				if x.t == y.t && (x.k > 0) == (y.k > 0) {
					var m int64 = 1
					if abs(y.k) > abs(x.k) && y.k%x.k == 0 {
						m = abs(y.k / x.k)
					}
					r, ok := l.subScaled(f, m)
					if ok && len(r.ts) <= len(l.ts)+1 && proveFrom(fs, r, depth-1, tried, fuel) {
						return true
					}
				}
			}
		}
	}
	return false
}

// bounds gives constant bounds of l (beyond the intervals, single-term facts).
func (s *State) bounds(l *Lin) (lo, hi int64) {
	lo, hi = l.iv()
	for f := s.ineqs; f != nil; f = f.prev {
		d := l.sub(f.l)
		if d.isConst() && d.c > lo { // l = f.l + c >= c
			lo = d.c
		}
		d = l.add(f.l)
		if d.isConst() && d.c < hi {
			hi = d.c
		}
	}
	return
}

// ---------------------------------------------------------------------------
// Ropes that need facts.

// sliceRope is r[lo:lo+n].
func (s *State) sliceRope(r *Rope, lo, n *Lin) *Rope {
	r = s.simpRope(r)
	lo, n = s.simp(lo), s.simp(n)
	if n.isConst() && n.c == 0 {
		return &Rope{}
	}
	if lo.isConst() && lo.c == 0 && n.equal(r.len()) {
		return r
	}
	hi := lo.add(n)
	pos := con(0)
	var out []Seg
	started := false
	for _, g := range r.segs {
		gl := g.len()
		end := pos.add(gl)
		a, b := con(0), gl // part of the segment
		if !started {
			if s.prove(lo.sub(end)) { // lo >= end
				pos = end
				continue
			}
			if !s.prove(lo.sub(pos)) || !s.prove(end.sub(lo)) {
				return s.sliceOpaque(r, lo, n)
			}
			a = lo.sub(pos)
			started = true
		}
		last := false
		if s.prove(hi.sub(end)) {
			if hi.equal(end) {
				last = true
			}
		} else if s.prove(end.sub(hi)) {
			b = hi.sub(pos)
			last = true
		} else {
			return s.sliceOpaque(r, lo, n)
		}
		out = append(out, subSeg(g, a, b.sub(a))...)
		if last {
			return (&Rope{segs: out}).norm()
		}
		pos = end
	}
	return s.sliceOpaque(r, lo, n)
}

func (s *State) sliceOpaque(r *Rope, lo, n *Lin) *Rope {
	return (&Rope{segs: []Seg{{kind: sSub, t: r.term(), off: lo, n: n}}}).norm()
}

func subSeg(g Seg, a, n *Lin) []Seg {
	if n.isConst() && n.c == 0 {
		return nil
	}
	switch g.kind {
	case sLit:
		if a.isConst() && n.isConst() && a.c >= 0 && n.c >= 0 && a.c+n.c <= int64(len(g.lit)) {
			return []Seg{{kind: sLit, lit: g.lit[a.c : a.c+n.c]}}
		}
		return []Seg{{kind: sSub, t: mk("cat", "", rlit(g.lit)), off: a, n: n}}
	case sCell:
		return []Seg{g}
	case sZero:
		return []Seg{{kind: sZero, n: n}}
	}
	if g.t.op == "xor" && a.isConst() && n.isConst() && n.c <= 128 && g.off.isConst() {
		var out []Seg
		for i := int64(0); i < n.c; i++ {
			out = append(out, Seg{kind: sCell, cell: at(g.t, g.off.add(a).addc(i))})
		}
		return out
	}
	return []Seg{{kind: sSub, t: g.t, off: g.off.add(a), n: n}}
}

// byteAt is r[i].
func (s *State) byteAt(r *Rope, i *Lin) *Lin {
	r = s.simpRope(r)
	i = s.simp(i)
	pos := con(0)
	for _, g := range r.segs {
		end := pos.add(g.len())
		if s.prove(i.sub(end)) {
			pos = end
			continue
		}
		if s.prove(i.sub(pos)) && s.prove(end.sub(i).addc(-1)) {
			return segAt(g, i.sub(pos))
		}
		break
	}
	return at(r.term(), i)
}

// writeRope is r with d put at off.
func (s *State) writeRope(r *Rope, off *Lin, d *Rope) *Rope {
	r, d = s.simpRope(r), s.simpRope(d)
	off = s.simp(off)
	n := r.len()
	dn := d.len()
	if off.isConst() && off.c == 0 && dn.equal(n) {
		return d
	}
	end := off.add(dn)
	return cat(s.sliceRope(r, con(0), off), d, s.sliceRope(r, end, n.sub(end)))
}
