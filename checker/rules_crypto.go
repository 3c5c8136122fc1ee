package main

import (
	"go/token"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Sealing and opening: chunk loops, nonces, headers.

// loopGroup is one loop, from one of its heads.
type loopGroup struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	head   *State
	entry  *State
	hphi   []Value
	ephi   []Value
	phis   []*ssa.Phi
	leaves []*LoopLeaf
	nested bool // the events happen in a loop inside
}

// loopGroups lists the loops whose iterations contain one of the events.
func loopGroups(a *Analysis, names ...string) []*loopGroup {
	var sel []*loopGroup
	for _, g := range groupsOf(a) {
		has := false
		for _, l := range g.leaves {
			for _, e := range iteration(l) {
				for _, n := range names {
					if e.Name == n {
						has = true
						if e.Loop {
							g.nested = true
						}
					}
				}
			}
		}
		if has {
			sel = append(sel, g)
		}
	}
	return sel
}

// groupsOf lists the loops that the analysis went through.
func groupsOf(a *Analysis) []*loopGroup {
	var out []*loopGroup
	by := map[*State]*loopGroup{}
	for _, rec := range a.log {
		if rec.kind != "loop" {
			continue
		}
		l := rec.loop
		g := by[l.head]
		if g == nil {
			g = &loopGroup{fn: l.fn, header: l.header, head: l.head, entry: l.entry, hphi: l.hphi, ephi: l.ephi, phis: l.phis}
			by[l.head] = g
			out = append(out, g)
		}
		g.leaves = append(g.leaves, l)
	}
	return out
}

// passed reports whether the exit went through the head of the loop.
func (g *loopGroup) passed(x Exit) bool {
	for h := x.st.hist; h != nil; h = h.prev {
		if h.header != g.header || h.fn != g.fn || len(h.hphi) != len(g.hphi) {
			continue
		}
		if len(h.hphi) > 0 {
			if &h.hphi[0] == &g.hphi[0] {
				return true
			}
			continue
		}
		if h.head.trace == g.head.trace && h.head.facts == g.head.facts {
			return true
		}
	}
	return false
}

// counter is a number that each iteration of a loop changes by the same step.
type counter struct {
	head, entry *Lin
	step        int64
	back        func(l *LoopLeaf) *Lin
}

// linCells lists the numbers inside a value.
func linCells(v Value, path string, out map[string]*Lin) {
	switch x := v.(type) {
	case *Lin:
		out[path] = x
	case *Struct:
		for i, f := range x.fs {
			linCells(f, path+"."+strconv.Itoa(i), out)
		}
	}
}

// ropeCells lists the strings inside a value.
func ropeCells(v Value, path string, out map[string]*Rope) {
	if r := ropeOf(v); r != nil {
		out[path] = r
		return
	}
	switch x := v.(type) {
	case *Struct:
		for i, f := range x.fs {
			ropeCells(f, path+"."+strconv.Itoa(i), out)
		}
	case *Arr:
		if len(x.es) > 16 {
			return
		}
		for i, f := range x.es {
			ropeCells(f, path+"."+strconv.Itoa(i), out)
		}
	}
}

// constant reads bytes of a string that no iteration changes.
func (g *loopGroup) constant(l *LoopLeaf, r *Rope, off, n int64) (string, bool) {
	part := l.back.simpRope(sub(l.back, r, off, n))
	out, ok := part.lit()
	if ok || n == 0 {
		return out, ok
	}
	k := part.canon().key()
	g.strings(l, func(h, e, b *Rope) {
		m := g.head.simp(h.len())
		if ok || !m.isConst() || m.c < off+n {
			return
		}
		if l.back.simpRope(sub(l.back, h, off, n)).canon().key() != k || l.back.simpRope(sub(l.back, b, off, n)).canon().key() != k {
			return
		}
		first := sub(g.entry, e, off, n)
		if out, ok = g.entry.simpRope(first).lit(); !ok && isZero(g.entry, first) {
			out, ok = string(make([]byte, n)), true
		}
	})
	return out, ok
}

// strings calls f for every string that the loop carries, with its values at
// the head, at the entry and after the iteration.
func (g *loopGroup) strings(l *LoopLeaf, f func(h, e, b *Rope)) {
	try := func(hv, ev, bv Value) {
		h, e, b := map[string]*Rope{}, map[string]*Rope{}, map[string]*Rope{}
		ropeCells(hv, "", h)
		ropeCells(ev, "", e)
		ropeCells(bv, "", b)
		var ks []string
		for k := range h {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if e[k] != nil && b[k] != nil {
				f(h[k], e[k], b[k])
			}
		}
	}
	g.head.each(func(id int, o *Obj) {
		if eo, bo := g.entry.obj(id), l.back.obj(id); eo != nil && bo != nil && (o != eo || o != bo) {
			try(o.v, eo.v, bo.v)
		}
	})
	for i := range g.hphi {
		if i < len(g.ephi) && i < len(l.bphi) {
			try(g.hphi[i], g.ephi[i], l.bphi[i])
		}
	}
}

func (g *loopGroup) counters() []counter {
	var out []counter
	add := func(h, e Value, back func(l *LoopLeaf) *Lin) {
		hl, _ := h.(*Lin)
		el, _ := e.(*Lin)
		if hl == nil || el == nil || hl.single() == nil {
			return
		}
		step := int64(0)
		for _, l := range g.leaves {
			b := back(l)
			if b == nil {
				return
			}
			d := l.back.simp(b.sub(hl))
			if !d.isConst() || d.c == 0 || step != 0 && step != d.c {
				return
			}
			step = d.c
		}
		if step == 1 || step == -1 {
			out = append(out, counter{hl, el, step, back})
		}
	}
	for i := range g.hphi {
		i := i
		add(g.hphi[i], g.ephi[i], func(l *LoopLeaf) *Lin { b, _ := l.bphi[i].(*Lin); return b })
	}
	g.head.each(func(id int, o *Obj) {
		hs := map[string]*Lin{}
		linCells(o.v, "", hs)
		eo := g.entry.obj(id)
		if len(hs) == 0 || eo == nil {
			return
		}
		es := map[string]*Lin{}
		linCells(eo.v, "", es)
		for p, h := range hs {
			p := p
			if e := es[p]; e != nil && !h.equal(e) {
				add(h, e, func(l *LoopLeaf) *Lin {
					bo := l.back.obj(id)
					if bo == nil {
						return nil
					}
					bs := map[string]*Lin{}
					linCells(bo.v, "", bs)
					return bs[p]
				})
			}
		}
	})
	return out
}

// done is the number of iterations finished when the head is reached.
func (c counter) done() *Lin { return c.head.sub(c.entry).scale(c.step) }

// doneAt is the number of iterations finished at the back edge.
func (c counter) doneAt(l *LoopLeaf) *Lin { return c.back(l).sub(c.entry).scale(c.step) }

// intAt reads the integer at an offset of a rope.
func intAt(st *State, r *Rope, off, n int64, big bool) *Lin {
	var cells []*Lin
	for i := int64(0); i < n; i++ {
		k := i
		if big {
			k = n - 1 - i
		}
		cells = append(cells, st.simp(st.byteAt(r, con(off+k))))
	}
	if t := cells[0].single(); t != nil && t.op == "byteof" {
		v, ok := t.args[0].(*Lin)
		for i, c := range cells {
			ok = ok && (c.equal(byteOf(v, i)) || c.isConst() && c.c == 0 && st.prove(con(1<<uint(8*i)-1).sub(v)))
		}
		if ok && st.prove(v) && (n == 8 || st.prove(con(1<<uint(8*n)-1).sub(v))) {
			return v
		}
	}
	return intOf(cells)
}

// layout of a number in a header.
type intField struct {
	off, n int64
	big    bool
}

// countField finds where the header holds the number.
func countField(st *State, hdr *Rope, size int64, totals []*Lin) (intField, bool) {
	for _, n := range []int64{8, 4} {
		for off := int64(0); off+n <= size; off++ {
			for _, big := range []bool{true, false} {
				v := intAt(st, hdr, off, n, big)
				for _, t := range totals {
					if t.isConst() && !v.isConst() && st.decide(eqPred(v, t)) != 1 {
						continue
					}
					if st.decide(eqPred(v, t)) == 1 || st.prove(v.sub(t)) && st.prove(t.sub(v)) {
						return intField{off, n, big}, true
					}
				}
			}
		}
	}
	return intField{}, false
}

// posIn is the offset of part in whole, both of constant length.
func posIn(st *State, all, part *Rope) int64 {
	n, m := st.simp(all.len()), st.simp(part.len())
	if !n.isConst() || !m.isConst() || n.c > 4096 {
		return -1
	}
	key := st.simpRope(part).key()
	for off := int64(0); off+m.c <= n.c; off++ {
		if s := sub(st, all, off, m.c); s.key() == key || st.simpRope(s).canon().key() == st.simpRope(part).canon().key() {
			return off
		}
	}
	return -1
}

// succ reports in which byte order the rope b is the successor of the bytes
// of t, without wrapping.
func succ(st *State, t *Term, b *Rope) string {
	n := st.simp(b.len())
	if !n.isConst() || n.c <= 0 || n.c > 64 {
		return ""
	}
	old, nw := cells(st, rtermN(t, n), n.c), cells(st, b, n.c)
	for _, kind := range []string{"be", "le"} {
		idx := func(i int64) int64 { // i counts from the least significant byte
			if kind == "be" {
				return n.c - 1 - i
			}
			return i
		}
		i := int64(0)
		for ; i < n.c; i++ { // bytes that carry
			k := idx(i)
			inc := add8(old[k], 1)
			if (nw[k].equal(inc) || st.decide(eqPred(nw[k], con(0))) == 1) && (st.decide(eqPred(inc, con(0))) == 1 || st.decide(eqPred(old[k], con(255))) == 1) {
				continue
			}
			break
		}
		if i == n.c {
			continue // wrapped
		}
		if carried(st, old, nw, idx) {
			return kind
		}
		k := idx(i)
		inc := add8(old[k], 1)
		isInc := nw[k].equal(inc) || nw[k].equal(old[k].addc(1))
		if !isInc || !(st.decide(eqPred(inc, con(0))) == 0 || st.decide(eqPred(nw[k], con(0))) == 0 || st.decide(eqPred(old[k], con(255))) == 0 || st.prove(con(254).sub(old[k]))) {
			continue
		}
		ok := true
		for i++; i < n.c; i++ {
			if !nw[idx(i)].equal(old[idx(i)]) {
				ok = false
			}
		}
		if ok {
			return kind
		}
	}
	return ""
}

// carried: the new bytes are computed with a carry that is added from byte to
// byte, and that is zero in the end.
func carried(st *State, old, nw []*Lin, idx func(int64) int64) bool {
	c := con(1)
	for i := range old {
		k := idx(int64(i))
		s := c.add(old[k])
		t := nw[k].single()
		if t == nil || t.op != "conv" && t.op != "byteof" || len(t.args) != 1 {
			return false
		}
		if a, ok := t.args[0].(*Lin); !ok || !a.equal(s) {
			return false
		}
		c = lin(mk("div", "", s, con(256)))
	}
	return st.decide(eqPred(c, con(0))) == 1
}

// nonceSeq describes the nonces that a loop uses.
type nonceSeq struct {
	kind  string // byte order
	start string // the first nonce
}

// nonces works out the nonces that the iterations of a loop use; arg picks
// the event, whose second argument is the nonce.
func (g *loopGroup) nonces(name string) (nonceSeq, string) {
	seq := nonceSeq{}
	if g.nested {
		return seq, "it is used in nested loops"
	}
	merge := func(k, s string) bool {
		if seq.kind == "" {
			seq = nonceSeq{k, s}
		}
		return seq.kind == k && seq.start == s
	}
	for _, l := range g.leaves {
		var used *Rope
		for _, e := range iteration(l) {
			if e.Name != name || e.Fail {
				continue
			}
			if used != nil {
				return seq, "an iteration uses several nonces"
			}
			used = e.Args[1].(*Str).r
		}
		if used == nil {
			continue
		}
		ok := false
		why := "the nonce is not incremented in every iteration: " + short(used)
		g.strings(l, func(hr, er, br *Rope) {
			if ok {
				return
			}
			t := whole(g.head, hr)
			if t == nil {
				return
			}
			k := succ(l.back, t, br)
			if k == "" {
				return
			}
			first, isLit := g.entry.simpRope(er).lit()
			if !isLit {
				if n := g.entry.simp(er.len()); n.isConst() && isZero(g.entry, er) {
					first, isLit = string(make([]byte, n.c)), true
				}
			}
			if !isLit {
				why = "the first nonce is not a constant"
				return
			}
			switch {
			case l.back.simpRope(used).key() == l.back.simpRope(hr).key():
			case l.back.simpRope(used).key() == l.back.simpRope(br).key():
				first = incLit(first, k)
			default:
				return
			}
			ok = merge(k, first)
		})
		if ok {
			continue
		}
		// built from a counter
		n := l.back.simp(used.len())
		if n.isConst() && n.c == 24 {
			for _, w := range []int64{8, 4} {
				for off := int64(0); !ok && off+w <= n.c; off++ {
					for _, big := range []bool{true, false} {
						v := intAt(l.back, used, off, w, big)
						for _, c := range g.counters() {
							d := l.back.simp(v.sub(c.head))
							if ok || !d.isConst() || !l.back.prove(v) || c.step != 1 {
								continue
							}
							if w == 4 && !l.back.prove(con(1<<32-1).sub(v)) {
								why = "the counter in the nonce may wrap"
								continue
							}
							first := l.back.simp(c.entry.add(d))
							pre, ok1 := g.constant(l, used, 0, off)
							post, ok2 := g.constant(l, used, off+w, n.c-off-w)
							if off == 0 {
								pre, ok1 = "", true
							}
							if off+w == n.c {
								post, ok2 = "", true
							}
							if !first.isConst() || !ok1 || !ok2 {
								continue
							}
							fl, _ := putInt(first, int(w), big).lit()
							k := "be"
							if !big || off+w != n.c {
								k = "counter at " + strconv.FormatInt(off, 10) + " " + strconv.FormatBool(big)
							}
							if !big && off == 0 {
								k = "le"
							}
							ok = merge(k, pre+fl+post)
						}
					}
				}
			}
		}
		if !ok {
			return seq, why
		}
	}
	if seq.kind == "" {
		return seq, "no nonce is used"
	}
	return seq, ""
}

// incLit is the successor of a literal.
func incLit(s, kind string) string {
	b := []byte(s)
	for i := range b {
		k := i
		if kind == "be" {
			k = len(b) - 1 - i
		}
		b[k]++
		if b[k] != 0 {
			break
		}
	}
	return string(b)
}

// segment is the work on one chunk.
type segment struct {
	ev   *Event   // seal or unseal
	read []*Event // reads since the segment before
	wr   []*Event // writes after, before the next segment
}

// segments splits a list of events at the events with the name.
func segments(evs []*Event, name string, isRead, isWrite func(e *Event) bool) (segs []segment, tail []*Event) {
	var pending []*Event
	for _, e := range evs {
		switch {
		case e.Name == name && !e.Fail:
			segs = append(segs, segment{ev: e, read: pending})
			pending = nil
		case isRead(e):
			pending = append(pending, e)
		case isWrite(e):
			if len(segs) > 0 {
				segs[len(segs)-1].wr = append(segs[len(segs)-1].wr, e)
			}
		}
	}
	return segs, pending
}

func written(w []*Event) (*Rope, bool) {
	r := &Rope{}
	for _, e := range w {
		if e.Fail {
			return r, false
		}
		s, ok := e.Args[1].(*Str)
		if !ok {
			return r, false
		}
		r = cat(r, s.r)
	}
	return r, true
}

func argTerm(e *Event, i int) *Term {
	if i >= len(e.Args) {
		return nil
	}
	t, _ := e.Args[i].(*Term)
	return t
}

// idFile is the path of the file that an id stands for.
func idFile(t *Term) *Rope {
	if t == nil || t.op != "file" {
		return nil
	}
	return fileOf(t)
}

// codecFile is the path of the file under an encoder or decoder.
func codecFile(t *Term, op string) *Rope {
	if t == nil || t.op != op || len(t.args) != 1 {
		return nil
	}
	f, _ := t.args[0].(*Term)
	return idFile(f)
}

// keyFrom reports whether all of v's key material comes from the key loaded
// (by the event op) from the path.
func keyFrom(st *State, v Value, op string, path *Rope) bool {
	n, ok := 0, true
	walk(v, map[string]bool{}, func(x Value) bool {
		if t, is := x.(*Term); is && t.op == "key" {
			n++
			if t.s != op || len(t.args) != 1 {
				ok = false
				return false
			}
			s, is := t.args[0].(*Str)
			if !is || !sameRope(st, s.r, path) {
				ok = false
			}
			return false
		}
		return true
	})
	return n > 0 && ok
}

func (r *Run) seal() *Analysis { return r.analyse(kCrypto, "crypto.Seal", nil) }
func (r *Run) open() *Analysis { return r.analyse(kCrypto, "crypto.Open", nil) }

// sharedKey takes a shared key apart.
func sharedKey(st *State, k *Rope) (peer, priv *Rope) {
	t := whole(st, k)
	if t == nil || t.op != "boxshared" || len(t.args) != 2 {
		return nil, nil
	}
	p, _ := t.args[0].(*Rope)
	q, _ := t.args[1].(*Rope)
	return p, q
}

// sealKey checks the key that something is sealed under, and returns the
// ephemeral private key.
func (r *Run) sealKey(a *Analysis, st *State, e *Event, k *Rope) *Term {
	peer, priv := sharedKey(st, k)
	if !r.ob("shared key", peer != nil, e.Fn, e.Pos, "the key is not the shared key of the recipient's and an ephemeral key: %s", short(k)) {
		return nil
	}
	pt := whole(st, peer)
	r.ob("shared key", pt != nil && pt.op == "pubbox" && keyFrom(st, pt, "loadpub", strArg(a, 0)), e.Fn, e.Pos, "the recipient's key is not that in the public key file: %s", short(peer))
	sk := whole(st, priv)
	if !r.ob("shared key", sk != nil && sk.op == "boxsk", e.Fn, e.Pos, "the other half of the shared key is not a newly generated key: %s", short(priv)) {
		return nil
	}
	return sk
}

// ---- C14

func ruleC14(r *Run) {
	a := r.seal()
	if a.err != "" {
		return
	}
	n := 0
	groups := loopGroups(a, "seal")
	for _, g := range groups {
		_, why := g.nonces("seal")
		var at *Event
		for _, l := range g.leaves {
			for _, e := range iteration(l) {
				if e.Name == "seal" {
					at = e
					r.site(e)
					n++
				}
			}
		}
		r.ob("nonce", why == "", at.Fn, at.Pos, "the nonces may repeat: %s", why)
		for _, l := range g.leaves {
			for _, e := range iteration(l) {
				if e.Name != "seal" {
					continue
				}
				k := e.Args[2].(*Str).r
				sk := r.sealKey(a, l.back, e, k)
				if sk == nil {
					continue
				}
				made := false
				for _, b := range g.entry.events() {
					if b.Name == "boxgen" && !b.Fail && whole(g.entry, ropeOf(b.Out)) == sk {
						made = true
					}
				}
				r.ob("fresh key", made, e.Fn, e.Pos, "the ephemeral key is not generated before the loop, for this message")
			}
		}
	}
	for _, x := range a.exits {
		var sk *Term
		gens := 0
		afterLoop, outside := false, 0
		for _, e := range x.st.events() {
			switch e.Name {
			case "boxgen":
				if !e.Fail {
					gens++
				}
			case "seal":
				if e.Loop {
					afterLoop = true
				} else {
					outside++
				}
				if t := r.sealKey(a, x.st, e, e.Args[2].(*Str).r); t != nil {
					r.ob("one key", sk == nil || sk == t, e.Fn, e.Pos, "a message is sealed under several keys")
					sk = t
				}
			case "precompute":
				p, q := whole(x.st, ropeOf(e.Args[0])), whole(x.st, ropeOf(e.Args[1]))
				r.ob("private half", q != nil && q.op == "boxsk" && p != nil && p.op == "pubbox", e.Fn, e.Pos, "a shared key is computed from %s and %s", short(e.Args[0]), short(e.Args[1]))
			}
		}
		if outside > 0 {
			// nonces used outside of the loop: they must be told apart from
			// those used in it
			ok, why := r.outsideNonces(x, groups, afterLoop)
			r.ob("nonce", ok, a.fn, x.pos, "the nonces may repeat (exit at %s): %s", r.leaf(x), why)
		}
		if sk != nil {
			h := sealHeader(a, x)
			pub := rtermN(mk("boxpub", "", (&Rope{segs: rtermN(sk, con(32)).segs}).norm()), con(32))
			r.ob("public half", h != nil && posIn(x.st, h, pub) >= 0, a.fn, x.pos, "the public half of the ephemeral key is not stored in the header (exit at %s)", r.leaf(x))
			// the private half, and the shared key, are used for nothing else
			for _, e := range x.st.events() {
				switch e.Name {
				case "boxgen", "precompute":
					continue
				}
				for i, v := range e.Args {
					if (e.Name == "seal" || e.Name == "authsum") && i == len(e.Args)-1 {
						continue // the key
					}
					r.ob("private half", !exposes(v, sk), e.Fn, e.Pos, "the ephemeral private key or the shared key goes into %s", e.Name)
				}
			}
		}
	}
	r.floor("places that seal", n, 1)
	r.floor("loops that seal", len(groups), 1)
}

// exposes: v is computed from the key, other than through a box, an
// authenticator or the public half.
func exposes(v Value, sk *Term) bool {
	found := false
	walk(v, map[string]bool{}, func(x Value) bool {
		t, ok := x.(*Term)
		if !ok {
			return !found
		}
		switch {
		case t == sk:
			found = true
		case t.op == "boxseal" || t.op == "authsum" || t.op == "boxpub" || t.op == "authverify" || t.op == "len":
			return false
		}
		return !found
	})
	return found
}

// outsideNonces compares the nonces of the seals outside of the loop.
func (r *Run) outsideNonces(x Exit, groups []*loopGroup, loop bool) (bool, string) {
	var g *loopGroup
	for _, h := range groups {
		if h.passed(x) {
			if g != nil {
				return false, "several loops seal"
			}
			g = h
		}
	}
	seen := map[string]bool{}
	if g == nil {
		for _, e := range x.st.events() {
			if e.Name != "seal" {
				continue
			}
			l, ok := x.st.simpRope(e.Args[1].(*Str).r).lit()
			if !ok {
				if isZero(x.st, e.Args[1].(*Str).r) {
					l, ok = "0", true
				}
			}
			if !ok || seen[l] {
				return false, "a nonce outside of the loop is not a constant, or is used twice"
			}
			seen[l] = true
		}
		return true, ""
	}
	seq, why := g.nonces("seal")
	if why != "" {
		return false, why
	}
	// the value at the head is the next one to use
	first := true
	pre := true
	for _, e := range x.st.events() {
		if e.Name != "seal" {
			continue
		}
		if e.Loop {
			pre = false
			continue
		}
		rp := e.Args[1].(*Str).r
		if l, ok := x.st.simpRope(rp).lit(); ok && pre {
			if l >= seq.start || seq.kind != "be" || seen[l] {
				return false, "a nonce used before the loop is used again in it"
			}
			seen[l] = true
			continue
		}
		pre = false
		ok := false
		for _, l := range g.leaves {
			for _, b := range iteration(l) {
				if b.Name == "seal" && x.st.simpRope(b.Args[1].(*Str).r).key() == x.st.simpRope(rp).key() {
					ok = true
				}
			}
		}
		if !ok || !first {
			return false, "a nonce used after the loop is not the next one"
		}
		first = false
	}
	return true, ""
}

// sealHeader is what is written to the encoder before the first chunk.
func sealHeader(a *Analysis, x Exit) *Rope {
	h := &Rope{}
	for _, e := range x.st.events() {
		if e.Name == "seal" {
			break
		}
		if e.Name == "write" && codecFile(argTerm(e, 0), "encoder") != nil {
			if e.Fail {
				continue
			}
			s, ok := e.Args[1].(*Str)
			if !ok || e.Loop {
				return nil
			}
			h = cat(h, s.r)
		}
	}
	return h
}

// ---- C15

// headerFact finds the authenticator check that succeeded on the path.
func headerFact(st *State) *Event {
	var out *Event
	for _, e := range st.events() {
		if e.Name == "authverify" && !e.Loop {
			if t := argTerm(e, 3); t != nil && st.decide(&Pred{op: "true", a: t}) == 1 {
				out = e
			}
		}
	}
	return out
}

// headerRead: the authenticator and what it covers are the bytes that were
// read, in order.
func headerRead(st *State, h *Event) bool {
	data := &Rope{}
	for _, e := range st.events() {
		if e == h {
			break
		}
		if codecFile(argTerm(e, 0), "decoder") == nil || e.Out == nil {
			continue
		}
		if e.Loop {
			return true
		}
		if e.Name == "read" || e.Name == "readfull" || e.Name == "readall" {
			data = cat(data, ropeOf(e.Out))
		}
	}
	c := cat(h.Args[1].(*Str).r, h.Args[0].(*Str).r)
	n := st.simp(c.len())
	return st.prove(data.len().sub(n)) && sameRope(st, c, st.sliceRope(data, con(0), n))
}

func ruleC15(r *Run) {
	a := r.open()
	if a.err != "" {
		return
	}
	isOut := func(st *State) map[*Term]bool {
		m := map[*Term]bool{}
		for _, o := range outFiles(st) {
			if o.id != nil {
				m[o.id] = true
			}
		}
		return m
	}
	outs := map[*Term]bool{}
	for _, x := range a.exits {
		for t := range isOut(x.st) {
			outs[t] = true
		}
	}
	isWrite := func(e *Event) bool { t := argTerm(e, 0); return e.Name == "write" && t != nil && outs[t] }
	isRead := func(e *Event) bool {
		return (e.Name == "read" || e.Name == "readfull" || e.Name == "readall") && codecFile(argTerm(e, 0), "decoder") != nil
	}
	opened, released := 0, 0
	// what is written, and when
	for _, x := range a.exits {
		h := headerFact(x.st)
		var hk *Rope
		if h != nil {
			hk = h.Args[2].(*Str).r
			peer, priv := sharedKey(x.st, hk)
			pt := (*Term)(nil)
			if priv != nil {
				pt = whole(x.st, priv)
			}
			r.ob("whole header", headerRead(x.st, h), h.Fn, h.Pos, "the header that is verified is not what was read from the encrypted file, as a short read is accepted: %s", short(cat(h.Args[1].(*Str).r, h.Args[0].(*Str).r)))
			r.ob("header key", peer != nil && pt != nil && pt.op == "privbox" && keyFrom(x.st, pt, "loadpriv", strArg(a, 0)), h.Fn, h.Pos, "the header is not verified under the key shared with the private key in the key file: %s", short(hk))
		}
		for _, e := range x.st.events() {
			switch {
			case e.Name == "open" || e.Name == "writefile":
				if e.Name == "open" {
					if fl, ok := e.Args[1].(*Lin); ok && fl.isConst() && fl.c&3 == 0 && fl.c&(oCREATE|oTRUNC) == 0 {
						continue
					}
				}
				opened++
				r.site(e)
				ok := h != nil && factHolds(e.Facts, &Pred{op: "true", a: h.Args[3]}, true)
				r.ob("opened after verification", ok, e.Fn, e.Pos, "the output file is opened before the header has been verified (exit at %s)", r.leaf(x))
				if e.Name == "writefile" {
					r.released(a, x, e, ropeOf(e.Args[1]), hk)
					released++
				}
			case isWrite(e):
				released++
				r.site(e)
				if s, ok := e.Args[1].(*Str); ok {
					r.released(a, x, e, s.r, hk)
				}
			}
		}
	}
	// each iteration opens and releases one chunk
	groups := loopGroups(a, "unseal")
	for _, g := range groups {
		seq, why := g.nonces("unseal")
		var at *Event
		for _, l := range g.leaves {
			for _, e := range iteration(l) {
				if e.Name == "unseal" {
					at = e
				}
			}
		}
		r.ob("nonce", why == "", at.Fn, at.Pos, "the nonce is not that of the chunk's position: %s", why)
		_ = seq
		r.ob("each chunk", !g.nested, g.fn, at.Pos, "chunks are opened in nested loops")
		for _, l := range g.leaves {
			segs, _ := segments(iteration(l), "unseal", isRead, isWrite)
			r.ob("each chunk", len(segs) == 1, g.fn, at.Pos, "an iteration opens %d chunks", len(segs))
			for _, s := range segs {
				r.chunkOut(a, l.back, s, "in an iteration")
			}
		}
	}
	done := 0
	for _, x := range r.successes(a) {
		r.startsEmpty(a, x)
		h := headerFact(x.st)
		if !r.ob("verified", h != nil, a.fn, x.pos, "opening succeeds (exit at %s) without having verified the header", r.leaf(x)) {
			continue
		}
		done++
		m := h.Args[1].(*Str).r
		var plain []*Event
		var inLoop bool
		for _, e := range x.st.events() {
			if e.Name == "unseal" && e.Loop {
				inLoop = true
			}
			if !e.Loop {
				plain = append(plain, e)
			}
		}
		segs, _ := segments(plain, "unseal", isRead, isWrite)
		for _, s := range segs {
			r.chunkOut(a, x.st, s, "at exit "+r.leaf(x))
		}
		totals := chunkTotals(x, groups, int64(len(segs)))
		r.ob("all chunks", len(totals) > 0, a.fn, x.pos, "the number of chunks opened is not known (exit at %s)", r.leaf(x))
		_ = inLoop
		n := x.st.simp(m.len())
		if len(totals) > 0 {
			ok := false
			if n.isConst() && n.c <= 256 {
				_, ok = countField(x.st, m, n.c, totals)
			}
			r.ob("all chunks", ok, a.fn, x.pos, "opening may succeed (exit at %s) although the number of chunks opened, %s, is not that in the authenticated header", r.leaf(x), short(totals))
		}
	}
	r.floor("openings of the output file", opened, 1)
	r.floor("writes to the output file", released, 2)
	r.floor("loops that open chunks", len(groups), 1)
	r.floor("successful openings", done, 1)
}

// chunkTotals lists expressions for the number of chunks handled.
func chunkTotals(x Exit, groups []*loopGroup, extra int64) []*Lin {
	var g *loopGroup
	for _, h := range groups {
		if h.passed(x) {
			if g != nil && g != h {
				return nil
			}
			g = h
		}
	}
	if g == nil {
		return []*Lin{con(extra)}
	}
	if g.nested {
		return nil
	}
	var out []*Lin
	for _, c := range g.counters() {
		out = append(out, x.st.simp(c.done().addc(extra)))
	}
	return out
}

// released: only bytes that a box opened under the header's key.
func (r *Run) released(a *Analysis, x Exit, e *Event, c *Rope, hk *Rope) {
	st := x.st
	if n := st.simp(c.len()); n.isConst() && n.c == 0 {
		return
	}
	for _, g := range st.simpRope(c).segs {
		ok := g.kind == sSub && g.t.op == "boxopen" && len(g.t.args) == 3
		r.ob("only authenticated data", ok, e.Fn, e.Pos, "bytes that no authenticated decryption produced are written to the output file: %s", short(c))
		if !ok {
			return
		}
		k, _ := g.t.args[2].(*Rope)
		r.ob("header key", hk != nil && k != nil && sameRope(st, k, hk), e.Fn, e.Pos, "the chunk is not opened under the key that the header is verified under")
		seen := false
		for _, u := range st.events() {
			if u == e {
				break
			}
			if u.Name == "unseal" && !u.Fail && u.Out != nil && whole(st, ropeOf(u.Out)) == g.t {
				seen = true
			}
		}
		r.ob("only authenticated data", seen, e.Fn, e.Pos, "the chunk is written before its authentication has succeeded")
	}
}

// chunkOut: the chunk is written whole, once.
func (r *Run) chunkOut(a *Analysis, st *State, s segment, where string) {
	out := ropeOf(s.ev.Out)
	w, ok := written(s.wr)
	empty := st.decide(eqPred(out.len(), con(0))) == 1
	good := ok && (sameRope(st, w, out) || empty && len(s.wr) == 0)
	r.ob("each chunk", good, s.ev.Fn, s.ev.Pos, "the chunk opened here is not written, whole and once, to the output file %s (written: %s)", where, short(w))
}

// ---- C16

func ruleC16(r *Run) {
	a := r.seal()
	if a.err != "" {
		return
	}
	isWrite := func(e *Event) bool {
		return e.Name == "write" && codecFile(argTerm(e, 0), "encoder") != nil
	}
	isMsg := func(st *State) func(e *Event) bool {
		return func(e *Event) bool {
			if e.Name != "read" && e.Name != "readfull" && e.Name != "readall" && e.Name != "readfile" {
				return false
			}
			p := idFile(argTerm(e, 0))
			if s, ok := e.Args[0].(*Str); ok {
				p = s.r
			}
			return p != nil && sameRope(st, p, strArg(a, 1))
		}
	}
	groups := loopGroups(a, "seal")
	size := int64(0)
	full := func(st *State, e *Event, last bool, fn *ssa.Function, where string) {
		n, _ := e.Args[1].(*Lin)
		if n == nil {
			return
		}
		sz := n
		if len(e.Args) > 2 {
			if z, ok := e.Args[2].(*Lin); ok {
				sz = st.simp(z)
			}
		}
		if sz.isConst() {
			r.ob("chunk size", size == 0 || size == sz.c, fn, e.Pos, "chunks of different sizes are sealed: %d and %d", size, sz.c)
			size = sz.c
		} else {
			r.ob("chunk size", false, fn, e.Pos, "the size of the chunks is not fixed: %s", short(sz))
		}
		r.ob("full chunks", last || st.prove(n.sub(sz)), fn, e.Pos, "a chunk that is not the last may be short %s", where)
	}
	// each segment seals all that it reads, and writes all of it
	seg := func(st *State, s segment, last bool, where string) {
		got := &Rope{}
		for _, e := range s.read {
			r.site(e)
			if e.Out != nil && (!e.Fail || e.Part == "short") {
				got = cat(got, ropeOf(e.Out))
			}
			r.ob("each chunk", e.Part == "" || e.Part == "short" || e.Part == "none", e.Fn, e.Pos, "a chunk is sealed after reading the message failed %s", where)
		}
		r.ob("each chunk", sameRope(st, ropeOf(s.ev.Args[0]), got), s.ev.Fn, s.ev.Pos, "what is sealed is not what was read from the message %s: %s", where, short(s.ev.Args[0]))
		w, ok := written(s.wr)
		r.ob("each chunk", ok && sameRope(st, w, ropeOf(s.ev.Out)), s.ev.Fn, s.ev.Pos, "the chunk sealed here is not written, whole and once %s", where)
		if r.ob("each chunk", len(s.read) == 1, s.ev.Fn, s.ev.Pos, "a chunk is not read by one read that fills it %s", where) {
			full(st, s.read[0], last, s.ev.Fn, where)
		}
	}
	for _, g := range groups {
		r.ob("each chunk", !g.nested, g.fn, token.NoPos, "chunks are sealed in nested loops")
		var count *Lin
		for _, l := range g.leaves {
			if h := sealHeader(a, Exit{st: l.back}); h != nil {
				if n := l.back.simp(h.len()); n.isConst() && n.c >= 8 && n.c <= 256 {
					count = intAt(l.back, h, 0, 8, true)
				}
			}
			segs, tail := segments(iteration(l), "seal", isMsg(l.back), isWrite)
			r.ob("each chunk", len(segs) == 1, g.fn, token.NoPos, "an iteration seals %d chunks", len(segs))
			for _, e := range tail {
				r.ob("each chunk", e.Out == nil || ropeOf(e.Out) == nil || isEmpty(l.back, ropeOf(e.Out)), e.Fn, e.Pos, "bytes of the message are read and not sealed")
			}
			last := false
			if count != nil {
				for _, c := range g.counters() {
					if l.back.prove(c.doneAt(l).sub(count)) {
						last = true
					}
				}
			}
			for _, s := range segs {
				seg(l.back, s, last, "in an iteration")
			}
		}
	}
	done := 0
	for _, x := range r.successes(a) {
		done++
		st := x.st
		msg := isMsg(st)
		var plain []*Event
		var lastRead *Event
		for _, e := range st.events() {
			if !e.Loop {
				plain = append(plain, e)
			}
			if msg(e) {
				lastRead = e
			}
			if e.Name == "seek" || e.Name == "file.Truncate" {
				if p := idFile(argTerm(e, 0)); p != nil && sameRope(st, p, strArg(a, 1)) {
					r.ob("in order", false, e.Fn, e.Pos, "the position in the message is changed")
				}
			}
		}
		segs, tail := segments(plain, "seal", msg, isWrite)
		for i, s := range segs {
			seg(st, s, i == len(segs)-1, "at exit "+r.leaf(x))
		}
		for _, e := range tail {
			r.ob("each chunk", e.Out == nil || ropeOf(e.Out) == nil || isEmpty(st, ropeOf(e.Out)), e.Fn, e.Pos, "bytes of the message are read and not sealed (exit at %s)", r.leaf(x))
		}
		atEnd := lastRead != nil && !lastRead.Loop && (lastRead.Part == "eof" || lastRead.Part == "short" || lastRead.Name == "readall" || lastRead.Name == "readfile")
		r.ob("up to the end", atEnd, a.fn, x.pos, "sealing may succeed (exit at %s) without having reached the end of the message", r.leaf(x))
		h := sealHeader(a, x)
		if !r.ob("header", h != nil, a.fn, x.pos, "the header is not known (exit at %s)", r.leaf(x)) {
			continue
		}
		totals := chunkTotals(x, groups, int64(len(segs)))
		n := st.simp(h.len())
		ok := false
		if n.isConst() && n.c <= 256 && len(totals) > 0 {
			_, ok = countField(st, h, n.c, totals)
		}
		r.ob("count", ok, a.fn, x.pos, "sealing may succeed (exit at %s) although the number of chunks written, %s, is not that in the header", r.leaf(x), short(totals))
	}
	r.floor("successful sealings", done, 1)
	r.floor("loops that seal", len(groups), 1)
}

func isEmpty(st *State, r *Rope) bool {
	n := st.simp(r.len())
	return n.isConst() && n.c == 0 || st.prove(n.scale(-1))
}

// ---- C17

func ruleC17(r *Run) {
	var as []*Analysis
	as = append(as, r.sigOps()...)
	as = append(as, r.cryOps()...)
	files, fails, leaves := 0, 0, 0
	for _, a := range as {
		if a.err != "" || !a.hasErr() {
			continue
		}
		for _, x := range a.exits {
			if !success(a, x) {
				for _, e := range x.st.events() {
					if e.Fail {
						fails++
					}
				}
				continue
			}
			leaves++
			outs := outFiles(x.st)
			byID := map[*Term]*OutFile{}
			for _, o := range outs {
				if o.id != nil {
					byID[o.id] = o
				}
			}
			r.buffers(a, x)
			closedOK := map[*Term]bool{}
			lastWrite := map[*Term]int{}
			closeAt := map[*Term]int{}
			for i, e := range x.st.events() {
				id := argTerm(e, 0)
				if e.Name == "close" && id != nil && !e.Fail {
					if _, ok := closeAt[id]; !ok {
						closeAt[id] = i
					}
					closedOK[id] = true
				}
				if e.Name == "write" && id != nil {
					lastWrite[id] = i
				}
				if !e.Fail {
					continue
				}
				fails++
				r.site(e)
				ok := false
				switch e.Name {
				case "close":
					// of a file that is only read, or again
					ok = id != nil && byID[id] == nil && (id.op == "file" || id.op == "decoder") || id != nil && closedOK[id]
				case "read", "readfull":
					ok = e.Part == "eof" || e.Part == "short"
				case "unseal", "b64decode", "edverify":
					ok = true // not I/O
				case "kdf":
					ok = true
				case "print":
					ok = true
				}
				r.ob("errors are reported", ok, e.Fn, e.Pos, "%s succeeds (exit at %s) although %s failed", a.name, r.leaf(x), e.Name)
			}
			for _, o := range outs {
				files++
				r.ob("closed", o.whole && !o.failed || o.closed, o.open.Fn, o.open.Pos, "%s succeeds (exit at %s) without having closed the file it wrote", a.name, r.leaf(x))
				if o.id == nil {
					continue
				}
				r.ob("closed last", lastWrite[o.id] < closeAt[o.id] || lastWrite[o.id] == 0, o.open.Fn, o.open.Pos, "%s writes to the file after having closed it (exit at %s)", a.name, r.leaf(x))
				for id, w := range lastWrite {
					if id.op != "encoder" || len(id.args) != 1 || id.args[0] != Value(o.id) {
						continue
					}
					c, ok := closeAt[id]
					r.ob("flushed", ok && c > w, o.open.Fn, o.open.Pos, "%s succeeds (exit at %s) without having closed the encoder after the last write", a.name, r.leaf(x))
					r.ob("flushed", ok && c < closeAt[o.id], o.open.Fn, o.open.Pos, "%s closes the file before the encoder has passed on everything (exit at %s)", a.name, r.leaf(x))
				}
			}
		}
	}
	r.floor("files written on success", files, 5)
	r.floor("failing operations", fails, 50)
	r.floor("exits that report success", leaves, 20)
}

// buffers: what is written through a buffer is flushed, before the file is
// closed or written to directly.
func (r *Run) buffers(a *Analysis, x Exit) {
	pending := map[string]*Event{}
	for _, e := range x.st.events() {
		via := ""
		if e.Via != nil {
			via = e.Via.key()
		}
		switch e.Name {
		case "buffered":
			pending[via] = e
		case "flush":
			if !e.Fail {
				delete(pending, via)
			}
		case "write", "close":
			for k, p := range pending {
				if k != via && argTerm(p, 0) != nil && argTerm(p, 0) == argTerm(e, 0) {
					r.ob("flushed", false, e.Fn, e.Pos, "%s: %s at a point where data for the same file may still wait in a buffer (exit at %s)", a.name, e.Name, r.leaf(x))
				}
			}
		}
	}
	for _, p := range pending {
		if id := argTerm(p, 0); id != nil && (id.op == "file" || id.op == "encoder") {
			r.ob("flushed", false, p.Fn, p.Pos, "%s succeeds (exit at %s) without having flushed the buffer that it writes through", a.name, r.leaf(x))
		}
	}
}

// hasErr: the function can report an error.
func (a *Analysis) hasErr() bool {
	res := a.fn.Signature.Results()
	return res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
}
