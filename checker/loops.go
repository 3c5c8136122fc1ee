package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Fixpoints. A fixer abstracts the states at the head of a loop (or between
// the calls of a most general client) by one state per vector of enumerated
// leaves; every other leaf that changes is replaced by an unknown, about which
// linear invariants are inferred (candidates that are refuted are dropped
// until the remaining ones are inductive).

const (
	lKeep = iota
	lEnum
	lHavoc
	lLen // one state per length of a short string of bytes, whose content is unknown
)

type fixLeaf struct {
	key   string
	mode  int
	entry Value
	typ   types.Type
	val   Value // havocked value
	objs  map[int]*Obj
	term  *Term
	wide  bool // length varies
	seen  []int64
	vals  map[string]bool
	isPhi bool
	back  Value
	fills []fill // untried candidates
	fill  *fill  // in force
	zero  bool   // an iteration leaves a zero byte in it
	lens  map[string]*lenVal
}

// lenVal is the value of a leaf at one length.
type lenVal struct {
	val  Value
	objs map[int]*Obj
	term *Term
}

// lenOf is the length of a short string of bytes, or the nil slice.
func lenOf(v Value) Value {
	switch x := v.(type) {
	case *Slice:
		if x.elem == nil || !isByte(x.elem) {
			return nil
		}
		if x.arr == nil {
			return x
		}
		if x.n.isConst() && x.n.c <= 64 {
			return x.n
		}
	case *Str:
		if n := x.r.len(); n.isConst() && n.c <= 64 {
			return n
		}
	}
	return nil
}

// lenVal makes leaf lf at length n, which may come from v.
func (f *fixer) lenVal(lf *fixLeaf, n Value, st *State, v Value) *lenVal {
	lv := lf.lens[n.key()]
	if lv == nil {
		lv = &lenVal{val: n, objs: map[int]*Obj{}}
		lf.lens[n.key()] = lv
		if l, ok := n.(*Lin); ok {
			lv.term = fresh("phi", f.name)
			r := rtermN(lv.term, l)
			switch x := lf.entry.(type) {
			case *Str:
				lv.val = &Str{r}
			case *Slice:
				tmp := &State{heap: map[int]*Obj{}}
				c := lin(mkIv("cap", "", l.c, maxLen, lv.term))
				p := f.e.newObj(tmp, nil, &Bytes{cat(r, rtermN(mk("spare", "", lv.term), c.sub(l)))}, "phi")
				lv.objs = tmp.heap
				lv.val = &Slice{arr: p, off: con(0), n: l, c: c, elem: x.elem}
			}
		}
	}
	if lv.term != nil && v != nil {
		lv.term.addDep(v)
		if s, ok := v.(*Slice); ok {
			lv.term.addDep(f.e.content(st, s))
		}
	}
	return lv
}

// fill states that a part of a byte array delimited by a counter is zero.
type fill struct {
	ctr    string // key of the counter leaf
	suffix bool
}

type cand struct {
	l    *Lin
	dead bool
}

type fixer struct {
	e      *Engine
	name   string
	leaves map[string]*fixLeaf
	dirty  map[int]bool
	entry  *State
	ephi   []Value
	ptyp   []types.Type
	cands  []*cand
	tried  map[string]bool
	base   int // terms up to here exist at entry
	probe  func(head *State, phis []Value) []backState
	vecs   []map[string]Value
	heads  []fixHead
	loopEv []*Event

	changed bool
	why     string
	bvec    map[string]Value
}

type fixHead struct {
	vec  map[string]Value
	st   *State
	phis []Value
}

func (e *Engine) newFixer(name string, entry *State, ephi []Value, ptyp []types.Type) *fixer {
	return &fixer{e: e, name: name, leaves: map[string]*fixLeaf{}, dirty: map[int]bool{}, entry: entry,
		ephi: ephi, ptyp: ptyp, tried: map[string]bool{}, base: termN}
}

func enumerable(st *State, v Value) bool {
	switch x := v.(type) {
	case *Lin:
		return x.isConst()
	case *Bool:
		return x.known >= 0
	case Nil:
		return true
	case *Fn:
		return len(x.binds) == 0
	case *Ptr:
		return st.obj(x.obj) != nil
	case *Slice:
		return x.arr == nil
	case *Opq:
		return x.nonnil && x.t.op == "global"
	}
	return false
}

func (f *fixer) setMode(key string, head, back Value, typ types.Type, mode int) {
	if debugFix {
		fmt.Println("mode", f.name, key, mode, head, back, len(f.vecs))
	}
	lf := f.leaves[key]
	if lf == nil {
		lf = &fixLeaf{key: key, entry: head, typ: typ, vals: map[string]bool{}, isPhi: key[0] == 'f'}
		f.leaves[key] = lf
		// children are subsumed
		for k := range f.leaves {
			if len(k) > len(key) && k[:len(key)+1] == key+"/" {
				delete(f.leaves, k)
			}
		}
	}
	lf.mode = mode
	if mode == lLen && lf.lens == nil {
		lf.lens = map[string]*lenVal{}
	}
	lf.back = back
	f.changed = true
	f.why = key
	if mode == lHavoc {
		f.makeHavoc(lf, lf.entry, back)
	}
}

func (f *fixer) makeHavoc(lf *fixLeaf, head, back Value) {
	tmp := f.entry.clone()
	before := map[int]bool{}
	tmp.each(func(k int, _ *Obj) { before[k] = true })
	nq := tmp.ineqs
	v := head
	if b, ok := head.(*Bytes); ok && lf.wide {
		_ = b
		tm := fresh("phi", f.name)
		lf.val = &Bytes{rterm(tm)}
		lf.term = tm
	} else {
		if _, isNil := head.(Nil); isNil && back != nil {
			v = back
		}
		if s, ok := head.(*Slice); ok && s.arr == nil {
			if bs, ok := back.(*Slice); ok {
				v = bs
				// contents must be readable in tmp
				if bs.arr != nil && tmp.obj(bs.arr.obj) == nil {
					v = &Slice{elem: s.elem, off: con(0), n: con(0), c: con(0)}
				}
			}
		}
		if o, ok := v.(*Opq); ok {
			n := *o
			n.nonnil = false
			v = &n
		}
		switch v.(type) {
		case *Ptr, *Iface, *Fn:
			tm := fresh("phi", f.name)
			tm.addDep(v)
			lf.val = &Opq{t: tm, typ: lf.typ}
			lf.term = tm
		default:
			lf.val = f.e.havoc(tmp, v, lf.typ, f.name)
		}
	}
	lf.objs = map[int]*Obj{}
	for k, o := range tmp.heap { // what is new is not in the base
		if !before[k] {
			lf.objs[k] = o
		}
	}
	lf.term = phiTerm(lf.val)
	if lf.term != nil && head != nil {
		lf.term.addDep(head)
	}
	for n := tmp.ineqs; n != nq && n != nil; n = n.prev {
		f.cands = append(f.cands, &cand{l: n.l})
	}
}

// warm starts from the modes that an earlier fixpoint at the same place ended
// with.
func (f *fixer) warm(ls []*fixLeaf) {
	for _, l := range ls {
		if l.wide || l.mode == lKeep {
			continue
		}
		var i int
		var rest string
		var v Value
		if l.isPhi {
			fmt.Sscanf(l.key, "f%d%s", &i, &rest)
			v = pick(f.ephi[i], rest)
		} else {
			fmt.Sscanf(l.key, "o%d%s", &i, &rest)
			o := f.entry.obj(i)
			if o == nil {
				continue
			}
			v = pick(o.v, rest)
			f.dirty[i] = true
		}
		if v == nil || l.mode == lEnum && !enumerable(f.entry, v) || l.mode == lLen && lenOf(v) == nil {
			continue
		}
		f.setMode(l.key, v, l.back, l.typ, l.mode)
		if l.fills != nil && len(l.fills) == 0 {
			if lf := f.leaves[l.key]; lf != nil {
				lf.fills, lf.fill, lf.zero = []fill{}, l.fill, l.zero
			}
		}
	}
}

func phiTerm(v Value) *Term {
	switch x := v.(type) {
	case *Lin:
		return x.single()
	case *Opq:
		return x.t
	case *Bool:
		if x.p != nil {
			t, _ := x.p.a.(*Term)
			return t
		}
	case *Str:
		if len(x.r.segs) == 1 {
			return x.r.segs[0].t
		}
	case *Rope:
		if len(x.segs) == 1 {
			return x.segs[0].t
		}
	case *Bytes:
		if len(x.r.segs) == 1 {
			return x.r.segs[0].t
		}
	case *Slice:
		if x.maybeNil != nil {
			if t, ok := x.maybeNil.a.(*Term); ok && len(t.args) == 1 {
				tt, _ := t.args[0].(*Term)
				return tt
			}
		}
	}
	return nil
}

// phiLin is the linear value of leaf key in the given phis.
func (f *fixer) fillRope(lf *fixLeaf, head fixHead) Value {
	b, ok := lf.val.(*Bytes)
	if !ok || lf.fill == nil {
		return lf.val
	}
	c := f.leaves[lf.fill.ctr]
	if c == nil || c.mode != lHavoc {
		return lf.val
	}
	phi, phi0 := c.val.(*Lin), c.entry.(*Lin)
	n := b.r.len()
	if lf.fill.suffix {
		k := n.add(phi.sub(phi0)) // zero from k on
		return &Bytes{(&Rope{segs: []Seg{{kind: sSub, t: lf.term, off: con(0), n: k}, {kind: sZero, n: n.sub(k)}}}).norm()}
	}
	k := phi.sub(phi0)
	return &Bytes{(&Rope{segs: []Seg{{kind: sZero, n: k}, {kind: sSub, t: lf.term, off: k, n: n.sub(k)}}}).norm()}
}

func (f *fixer) head(vec map[string]Value) fixHead {
	st := f.entry.clone()
	h := fixHead{vec: vec, st: st}
	// fill invariants: the counter stays within the array
	for _, lf := range f.sorted() {
		for k, o := range lf.objs {
			st.setObj(k, o)
		}
		if n := vec[lf.key]; lf.mode == lLen && n != nil {
			for k, o := range f.lenVal(lf, n, st, nil).objs {
				st.setObj(k, o)
			}
		}
		if lf.mode == lHavoc && lf.fill != nil {
			if b, ok := lf.val.(*Bytes); ok {
				c := f.leaves[lf.fill.ctr]
				phi, phi0 := c.val.(*Lin), c.entry.(*Lin)
				d := phi.sub(phi0)
				if lf.fill.suffix {
					d = d.scale(-1)
				}
				st.addIneq(d)
				st.addIneq(b.r.len().sub(d))
			}
		}
	}
	// equalities are used as definitions
	live := map[string]bool{}
	for _, c := range f.cands {
		if !c.dead {
			live[c.l.key()] = true
		}
	}
	for _, c := range f.cands {
		if !c.dead && live[c.l.scale(-1).key()] {
			if l := st.simp(c.l); !l.isConst() {
				st.define(l)
			}
		}
	}
	for _, c := range f.cands {
		if !c.dead {
			st.addIneq(c.l)
		}
	}
	for id := range f.dirty {
		o := f.entry.obj(id)
		if o == nil {
			continue
		}
		n := *o
		n.v = f.gen(fmt.Sprintf("o%d", id), o.v, h)
		st.setObj(id, &n)
	}
	for i, v := range f.ephi {
		h.phis = append(h.phis, f.gen(fmt.Sprintf("f%d", i), v, h))
	}
	return h
}

func (f *fixer) sorted() []*fixLeaf {
	var r []*fixLeaf
	for _, l := range f.leaves {
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].key < r[j].key })
	return r
}

func (f *fixer) gen(key string, v Value, h fixHead) Value {
	if lf := f.leaves[key]; lf != nil {
		switch lf.mode {
		case lEnum:
			if x := h.vec[key]; x != nil {
				return x
			}
			return lf.entry
		case lHavoc:
			return f.fillRope(lf, h)
		case lLen:
			return f.lenVal(lf, h.vec[key], h.st, nil).val
		}
	}
	switch x := v.(type) {
	case *Struct:
		n := &Struct{typ: x.typ}
		for i, c := range x.fs {
			n.fs = append(n.fs, f.gen(fmt.Sprintf("%s/%d", key, i), c, h))
		}
		return n
	case *Arr:
		n := &Arr{}
		for i, c := range x.es {
			n.es = append(n.es, f.gen(fmt.Sprintf("%s/%d", key, i), c, h))
		}
		return n
	case *Tup:
		n := &Tup{}
		for i, c := range x.vs {
			n.vs = append(n.vs, f.gen(fmt.Sprintf("%s/%d", key, i), c, h))
		}
		return n
	case *Slice:
		if x.arr == nil {
			return x
		}
		n := *x
		n.off = f.gen(key+"/off", x.off, h).(*Lin)
		n.n = f.gen(key+"/n", x.n, h).(*Lin)
		n.c = f.gen(key+"/c", x.c, h).(*Lin)
		return &n
	case *Iface:
		return &Iface{x.typ, f.gen(key+"/v", x.v, h)}
	case *Mod:
		n := &Mod{kind: x.kind, f: map[string]Value{}}
		for k, c := range x.f {
			n.f[k] = f.gen(key+"/"+k, c, h)
		}
		return n
	}
	return v
}

func (f *fixer) match(key string, head, back Value, typ types.Type, st *State, bphis []Value) {
	if f.changed {
		return
	}
	if lf := f.leaves[key]; lf != nil {
		switch lf.mode {
		case lHavoc:
			if lf.term != nil {
				lf.term.addDep(back)
				if s, ok := back.(*Slice); ok && s.elem != nil && isByte(s.elem) {
					lf.term.addDep(f.e.content(st, s))
				}
			}
			if b, ok := back.(*Bytes); ok {
				hb, ok := lf.val.(*Bytes)
				if !ok {
					return
				}
				if d := st.simp(b.r.len().sub(hb.r.len())); !lf.wide && !(d.isConst() && d.c == 0) {
					lf.wide = true
					lf.fill = nil
					lf.fills = nil
					f.makeHavoc(lf, lf.entry, back)
					f.changed, f.why = true, key+" length"
					return
				}
				lf.zero = lf.zero || hasZero(b.r)
				if lf.fill != nil && !f.fillHolds(lf, b, st, bphis) {
					lf.fill = nil
					f.changed, f.why = true, key+" fill"
				}
			}
			return
		case lEnum:
			if enumerable(f.entry, back) {
				f.bvec[key] = back
				lf.vals[back.key()] = true
				n := len(lf.vals)
				limit := 80
				if lf.isPhi {
					limit = 60
					if l, ok := back.(*Lin); ok {
						lf.seen = append(lf.seen, l.c)
						if apOne(lf.seen) {
							limit = 0
						}
					}
				}
				if n > limit {
					f.setMode(key, lf.entry, back, typ, lHavoc)
				}
				return
			}
			f.setMode(key, lf.entry, back, typ, lHavoc)
			return
		case lLen:
			n := lenOf(back)
			if n == nil {
				f.setMode(key, lf.entry, back, typ, lHavoc)
				return
			}
			f.bvec[key] = n
			f.lenVal(lf, n, st, back)
			lf.vals[n.key()] = true
			if l, ok := n.(*Lin); ok {
				lf.seen = append(lf.seen, l.c)
			}
			if len(lf.vals) > 8 || apOne(lf.seen) {
				f.setMode(key, lf.entry, back, typ, lHavoc)
			}
			return
		}
	}
	if head.key() == back.key() {
		return
	}
	switch x := head.(type) {
	case *Struct:
		if y, ok := back.(*Struct); ok && len(x.fs) == len(y.fs) {
			for i := range x.fs {
				f.match(fmt.Sprintf("%s/%d", key, i), x.fs[i], y.fs[i], typeAt(x.typ, []Step{{field: i}}), st, bphis)
			}
			return
		}
	case *Arr:
		if y, ok := back.(*Arr); ok && len(x.es) == len(y.es) {
			for i := range x.es {
				f.match(fmt.Sprintf("%s/%d", key, i), x.es[i], y.es[i], typeAt(typ, []Step{{idx: con(0)}}), st, bphis)
			}
			return
		}
	case *Tup:
		if y, ok := back.(*Tup); ok && len(x.vs) == len(y.vs) {
			for i := range x.vs {
				f.match(fmt.Sprintf("%s/%d", key, i), x.vs[i], y.vs[i], nil, st, bphis)
			}
			return
		}
	case *Slice:
		if y, ok := back.(*Slice); ok && x.arr != nil && y.arr != nil && x.arr.key() == y.arr.key() && (x.maybeNil == nil) == (y.maybeNil == nil) {
			f.match(key+"/off", x.off, y.off, types.Typ[types.Int], st, bphis)
			f.match(key+"/n", x.n, y.n, types.Typ[types.Int], st, bphis)
			f.match(key+"/c", x.c, y.c, types.Typ[types.Int], st, bphis)
			return
		}
	case *Iface:
		if y, ok := back.(*Iface); ok && types.Identical(x.typ, y.typ) {
			f.match(key+"/v", x.v, y.v, x.typ, st, bphis)
			return
		}
	case *Mod:
		if y, ok := back.(*Mod); ok && x.kind == y.kind {
			var ks []string
			for k := range x.f {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if y.f[k] != nil {
					f.match(key+"/"+k, x.f[k], y.f[k], nil, st, bphis)
				}
			}
			return
		}
	}
	_, hl := head.(*Slice)
	if enumerable(f.entry, head) && enumerable(f.entry, back) && !hl {
		f.setMode(key, head, back, typ, lEnum)
		return
	}
	if lenOf(head) != nil && lenOf(back) != nil {
		f.setMode(key, head, back, typ, lLen)
		return
	}
	f.setMode(key, head, back, typ, lHavoc)
}

func apOne(s []int64) bool {
	m := map[int64]bool{}
	lo, hi := int64(1)<<60, -(int64(1) << 60)
	for _, x := range s {
		m[x] = true
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	return len(m) >= 6 && hi-lo == int64(len(m)-1)
}

func (f *fixer) fillHolds(lf *fixLeaf, b *Bytes, st *State, bphis []Value) bool {
	c := f.leaves[lf.fill.ctr]
	if c == nil || c.mode != lHavoc {
		return false
	}
	bl, ok := f.backVal(lf.fill.ctr, bphis).(*Lin)
	if !ok {
		return false
	}
	d := bl.sub(c.entry.(*Lin))
	n := b.r.len()
	if lf.fill.suffix {
		d = d.scale(-1)
	}
	if !st.prove(d) || !st.prove(n.sub(d)) {
		return false
	}
	if lf.fill.suffix {
		return isZero(st, st.sliceRope(b.r, n.sub(d), d))
	}
	return isZero(st, st.sliceRope(b.r, con(0), d))
}

// backVal finds the value of a phi leaf (top level, or part of a slice phi).
func (f *fixer) backVal(key string, bphis []Value) Value {
	var i int
	var rest string
	fmt.Sscanf(key, "f%d%s", &i, &rest)
	if i >= len(bphis) {
		return nil
	}
	v := bphis[i]
	if s, ok := v.(*Slice); ok {
		switch rest {
		case "/off":
			return s.off
		case "/n":
			return s.n
		}
		return nil
	}
	if rest != "" {
		return nil
	}
	return v
}

func hasZero(r *Rope) bool {
	for _, s := range r.norm().segs {
		switch s.kind {
		case sZero:
			return true
		case sLit:
			if strings.IndexByte(s.lit, 0) >= 0 {
				return true
			}
		case sCell:
			if s.cell.isConst() && s.cell.c == 0 {
				return true
			}
		}
	}
	return false
}

// isZero reports whether all bytes of r are shown to be zero.
func isZero(st *State, r *Rope) bool {
	for _, s := range r.norm().segs {
		switch s.kind {
		case sZero:
		case sLit:
			for i := 0; i < len(s.lit); i++ {
				if s.lit[i] != 0 {
					return false
				}
			}
		case sCell:
			if st.decide(eqPred(s.cell, con(0))) != 1 {
				return false
			}
		default:
			if !st.prove(s.n.scale(-1)) {
				return false
			}
		}
	}
	return true
}

// subst replaces terms in l.
func subst(l *Lin, m map[*Term]*Lin) *Lin {
	r := con(l.c)
	for _, x := range l.ts {
		if y := m[x.t]; y != nil {
			r = r.add(y.scale(x.k))
		} else {
			r = r.add(&Lin{ts: []LT{x}})
		}
	}
	return r
}

// linLeaves are the havocked integer leaves.
func (f *fixer) linLeaves() []*fixLeaf {
	var r []*fixLeaf
	for _, lf := range f.sorted() {
		if lf.mode != lHavoc {
			continue
		}
		if _, ok := lf.val.(*Lin); !ok {
			continue
		}
		if _, ok := lf.entry.(*Lin); !ok {
			continue
		}
		r = append(r, lf)
	}
	return r
}

func (f *fixer) addCand(l *Lin, ls []*fixLeaf) bool {
	if l.isConst() || f.tried[l.key()] {
		return false
	}
	f.tried[l.key()] = true
	m := map[*Term]*Lin{}
	phi := map[*Term]bool{}
	for _, lf := range ls {
		m[lf.term] = lf.entry.(*Lin)
		phi[lf.term] = true
	}
	has := false
	for _, x := range l.ts {
		if phi[x.t] {
			has = true
			continue
		}
		if x.t.id > f.base {
			return false
		}
	}
	if !has {
		return false
	}
	if !f.entry.prove(subst(l, m)) {
		return false
	}
	f.cands = append(f.cands, &cand{l: l})
	return true
}

func (f *fixer) propose() bool {
	ls := f.linLeaves()
	added := false
	add := func(l *Lin) {
		if f.addCand(l, ls) {
			added = true
		}
	}
	for _, a := range ls {
		d := a.val.(*Lin).sub(a.entry.(*Lin))
		add(d)
		add(d.scale(-1))
	}
	if len(ls) <= 8 {
		for i, a := range ls {
			for _, b := range ls[i+1:] {
				da := a.val.(*Lin).sub(a.entry.(*Lin))
				db := b.val.(*Lin).sub(b.entry.(*Lin))
				add(da.sub(db))
				add(db.sub(da))
				add(da.add(db))
				add(da.add(db).scale(-1))
			}
		}
	}
	for _, a := range ls {
		for _, l := range f.e.cmps[a.term] {
			add(l)
		}
	}
	return added
}

// solve iterates to a stable abstraction.
func (f *fixer) solve() {
	for round := 0; ; round++ {
		if round > 400 {
			panic(giveUp{"loop at " + f.name + " does not stabilise (" + f.why + ")"})
		}
		f.changed = false
		ok := f.round()
		if debugFix {
			n := 0
			for _, c := range f.cands {
				if !c.dead {
					n++
				}
			}
			fmt.Println("round", f.name, round, len(f.vecs), len(f.cands), n, f.changed)
		}
		if f.changed || !ok {
			continue
		}
		if f.propose() {
			continue
		}
		// fill candidates
		more := false
		for _, lf := range f.sorted() {
			if lf.mode != lHavoc || lf.wide {
				continue
			}
			b, isB := lf.val.(*Bytes)
			if !isB || lf.fill != nil || !lf.zero {
				continue
			}
			if lf.fills == nil {
				lf.fills = []fill{}
				for _, c := range f.linLeaves() {
					if c.isPhi {
						lf.fills = append(lf.fills, fill{c.key, false}, fill{c.key, true})
					}
				}
			}
			for len(lf.fills) > 0 {
				x := lf.fills[0]
				lf.fills = lf.fills[1:]
				if x.suffix || true {
					_ = b
					lf.fill = &x
					more = true
					break
				}
			}
			if more {
				break
			}
		}
		if more {
			continue
		}
		return
	}
}

func vecKey(v map[string]Value) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += k + "=" + v[k].key() + ";"
	}
	return s
}

// round runs the body from every reachable vector. It reports false if a
// candidate invariant was refuted.
func (f *fixer) round() bool {
	e := f.e
	v0 := map[string]Value{}
	for k, lf := range f.leaves {
		if lf.mode == lEnum {
			v0[k] = lf.entry
		}
		if lf.mode == lLen {
			n := lenOf(lf.entry)
			f.lenVal(lf, n, f.entry, lf.entry)
			v0[k] = n
		}
	}
	f.vecs = []map[string]Value{v0}
	f.heads = nil
	seen := map[string]bool{vecKey(v0): true}
	ls := f.linLeaves()
	allOK := true
	var evs []*Event
	evKey := map[string]bool{}
	for i := 0; i < len(f.vecs); i++ {
		if i > 200 {
			// too many vectors: give up the leaf with the most values
			var best *fixLeaf
			for _, lf := range f.sorted() {
				if (lf.mode == lEnum || lf.mode == lLen) && (best == nil || len(lf.vals) > len(best.vals)) {
					best = lf
				}
			}
			f.setMode(best.key, best.entry, best.entry, best.typ, lHavoc)
			return true
		}
		h := f.head(f.vecs[i])
		f.heads = append(f.heads, h)
		mark := len(e.log)
		backs := f.probe(h.st.clone(), append([]Value(nil), h.phis...))
		e.log = e.log[:mark]
		for _, b := range backs {
			f.bvec = map[string]Value{}
			bphis := make([]Value, len(h.phis))
			copy(bphis, b.phis)
			for j := range h.phis {
				f.match(fmt.Sprintf("f%d", j), h.phis[j], bphis[j], f.ptyp[j], b.st, bphis)
				if f.changed {
					return true
				}
			}
			var ids []int
			touched := map[int]bool{}
			for _, s := range []*State{f.entry, h.st, b.st} {
				for id := range s.heap {
					if !touched[id] && f.entry.obj(id) != nil {
						touched[id] = true
						ids = append(ids, id)
					}
				}
			}
			sort.Ints(ids)
			for _, id := range ids {
				ho, bo := h.st.obj(id), b.st.obj(id)
				if ho == bo || bo == nil {
					continue
				}
				f.dirty[id] = true
				f.match(fmt.Sprintf("o%d", id), ho.v, bo.v, ho.typ, b.st, bphis)
				if f.changed {
					return true
				}
			}
			// enumerated leaves that were not visited keep their value
			for k, v := range h.vec {
				if f.bvec[k] == nil {
					f.bvec[k] = v
				}
			}
			if k := vecKey(f.bvec); !seen[k] {
				seen[k] = true
				f.vecs = append(f.vecs, f.bvec)
			}
			// invariants
			m := map[*Term]*Lin{}
			for _, lf := range ls {
				if v, ok := f.leafBack(lf, h, b, bphis).(*Lin); ok {
					m[lf.term] = v
				} else {
					m[lf.term] = lin(fresh("ext", "lost"))
				}
			}
			for _, c := range f.cands {
				if c.dead {
					continue
				}
				if !b.st.prove(subst(c.l, m)) {
					c.dead = true
					allOK = false
				}
			}
			for t := b.st.trace; t != nil && t != f.entry.trace; t = t.prev {
				n := *t.e
				n.Loop = true
				k := n.Name + fmt.Sprint(n.Pos, n.Fail, n.Part)
				for _, a := range n.Args {
					k += a.key()
				}
				if !evKey[k] {
					evKey[k] = true
					evs = append(evs, &n)
				}
			}
		}
	}
	f.loopEv = evs
	return allOK
}

// leafBack is the value of leaf lf in the back state.
func (f *fixer) leafBack(lf *fixLeaf, h fixHead, b backState, bphis []Value) Value {
	if lf.isPhi {
		var i int
		var rest string
		fmt.Sscanf(lf.key, "f%d%s", &i, &rest)
		return pick(bphis[i], rest)
	}
	var i int
	var rest string
	fmt.Sscanf(lf.key, "o%d%s", &i, &rest)
	o := b.st.obj(i)
	if o == nil {
		return nil
	}
	return pick(o.v, rest)
}

func pick(v Value, rest string) Value {
	for rest != "" {
		rest = rest[1:]
		j := 0
		for j < len(rest) && rest[j] != '/' {
			j++
		}
		p := rest[:j]
		rest = rest[j:]
		var n int
		fmt.Sscanf(p, "%d", &n)
		switch x := v.(type) {
		case *Struct:
			v = x.fs[n]
		case *Arr:
			v = x.es[n]
		case *Tup:
			v = x.vs[n]
		case *Iface:
			v = x.v
		case *Mod:
			v = x.f[p]
		case *Slice:
			switch p {
			case "off":
				v = x.off
			case "n":
				v = x.n
			case "c":
				v = x.c
			}
		default:
			return nil
		}
		if v == nil {
			return nil
		}
	}
	return v
}

// finalHeads are the stable head states, with the events of earlier
// iterations in their traces.
func (f *fixer) finalHeads() []fixHead {
	var hs []fixHead
	for _, v := range f.vecs {
		h := f.head(v)
		for i := len(f.loopEv) - 1; i >= 0; i-- {
			n := 1
			if h.st.trace != nil {
				n = h.st.trace.n + 1
			}
			h.st.trace = &TraceNode{f.loopEv[i], h.st.trace, n}
		}
		hs = append(hs, h)
	}
	return hs
}

// ---------------------------------------------------------------------------

// loop interprets the loop at header, entered from prev, and what follows it.
func (e *Engine) loop(fr *Frame, st *State, header, prev *ssa.BasicBlock) []Exit {
	if ex, ok := e.unroll(fr, st, header, prev); ok {
		return ex
	}
	var phis []*ssa.Phi
	var ephi []Value
	var ptyp []types.Type
	for _, i := range header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		ephi = append(ephi, e.val(fr, st, p.Edges[predIndex(header, prev)]))
		ptyp = append(ptyp, p.Type())
	}
	f := e.newFixer(fr.fn.Name()+":"+header.String(), st, ephi, ptyp)
	runBody := func(h *State, hp []Value, probe bool) ([]backState, []Exit) {
		nf := fr.clone()
		var backs []backState
		nf.loops[header] = &LoopCtl{fix: true, probe: probe, back: &backs}
		for i, p := range phis {
			nf.set(p, hp[i])
		}
		ex := e.runFrom(nf, h, header, len(phis))
		for i := range backs {
			backs[i].phis = nil
			for _, p := range phis {
				backs[i].phis = append(backs[i].phis, backs[i].phi[p])
			}
		}
		return backs, ex
	}
	// an iteration that ends with an error which the loop's condition then
	// sees is the last one: it is followed through the head as it is, so that
	// the error stays with what caused it
	peel := func(h fixHead, b backState, probe bool) ([]Exit, bool) {
		if !newError(f.entry, h, b) {
			return nil, false
		}
		mark := len(e.log)
		bs, ex := runBody(b.st.clone(), append([]Value(nil), b.phis...), probe)
		if len(bs) > 0 {
			e.log = e.log[:mark]
		}
		return ex, len(bs) == 0
	}
	f.probe = func(h *State, hp []Value) []backState {
		hd := fixHead{st: h.clone(), phis: append([]Value(nil), hp...)}
		bs, _ := runBody(h, hp, true)
		var out []backState
		for _, b := range bs {
			if _, last := peel(hd, b, true); !last {
				out = append(out, b)
			}
		}
		return out
	}
	f.warm(e.warm[header])
	f.solve()
	if e.warm != nil {
		e.warm[header] = f.sorted()
	}
	var exits []Exit
	for _, h := range f.finalHeads() {
		h.st.hist = &HistNode{fn: fr.fn, header: header, head: h.st.clone(), hphi: h.phis, ephi: ephi, prev: st.hist}
		backs, ex := runBody(h.st.clone(), h.phis, false)
		exits = append(exits, ex...)
		for _, b := range backs {
			if ex, last := peel(h, b, false); last {
				exits = append(exits, ex...)
				continue
			}
			ll := &LoopLeaf{fn: fr.fn, header: header, head: h.st, back: b.st, entry: st,
				phis: phis, hphi: h.phis, bphi: b.phis, ephi: ephi, base: f.base}
			e.log = append(e.log, Record{kind: "loop", fn: fr.fn, loop: ll, st: b.st})
		}
	}
	return exits
}

// newError: the iteration has set an error that was nil at the head.
func newError(entry *State, h fixHead, b backState) bool {
	is := func(x, y Value) bool {
		if _, ok := x.(Nil); !ok {
			return false
		}
		switch v := y.(type) {
		case *Opq:
			return v.nonnil
		case *Iface:
			return true
		}
		return false
	}
	for i := range h.phis {
		if is(h.phis[i], b.phis[i]) {
			return true
		}
	}
	for id, o := range b.st.heap {
		if p := h.st.obj(id); o != nil && p != nil && p != o && entry.obj(id) != nil && is(p.v, o.v) {
			return true
		}
	}
	return false
}

// unrollSteps bounds the effort of following a loop iteration by iteration.
const unrollSteps = 150000

func (e *Engine) unroll(fr *Frame, st *State, header, prev *ssa.BasicBlock) (ex []Exit, ok bool) {
	ctl := &LoopCtl{from: e.steps}
	mark := len(e.log)
	stk := len(e.stack)
	defer func() {
		if r := recover(); r != nil {
			if a, is := r.(abortUnroll); is && a.ctl == ctl {
				e.log = e.log[:mark]
				e.stack = e.stack[:stk]
				ex, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	nf := fr.clone()
	nf.loops[header] = ctl
	nf.decided[header] = false
	return e.run(nf, st.clone(), header, prev, 0), true
}
