package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// ---- C35: sealing and opening need little memory

const enough = 1 << 20 // of one buffer

// longest finds what is kept in memory in a value of an object.
func longest(v Value) []*Rope {
	switch x := v.(type) {
	case *Bytes:
		return []*Rope{x.r}
	case *Mod:
		if s, ok := x.f["r"].(*Str); ok && (x.kind == "buffer" || x.kind == "breader") {
			return []*Rope{s.r}
		}
	}
	return nil
}

// lengthOf is the number of elements of a slice, or of bytes of a string.
func lengthOf(v Value) *Lin {
	switch x := v.(type) {
	case *Slice:
		return x.n
	case *Str:
		return x.r.len()
	}
	return nil
}

// used is the length of the bytes in memory, other than those that an append
// left room for.
func used(rp *Rope) *Lin {
	l := con(0)
	for _, g := range rp.segs {
		if g.t != nil && (g.t.op == "spare" || g.t.op == "ext" && g.t.s == "spare") {
			continue
		}
		l = l.add(g.len())
	}
	return l
}

// notMuch: the bytes fit in memory that is enough, where those that the loops
// carry from one iteration to the next do (see fitting).
func notMuch(st *State, l *Lin, fits map[*Term]bool) bool {
	l = st.simp(l)
	if st.prove(con(enough).sub(l)) {
		return true
	}
	for _, t := range l.ts {
		if fits[t.t] && t.k > 0 && t.k <= 4 {
			l = l.sub(lin(t.t).scale(t.k))
		}
	}
	return len(fits) > 0 && st.prove(con(enough).sub(l))
}

// fitting finds the slices that the loops carry along that never get long:
// they are not before the loop, and every iteration leaves one that is not.
func fitting(a *Analysis) map[*Term]bool {
	fits := map[*Term]bool{}
	for _, g := range groupsOf(a) {
		for i, p := range g.hphi {
			h := lengthOf(p)
			if h == nil || len(h.ts) != 1 || h.c != 0 || h.ts[0].k != 1 {
				continue
			}
			if e := lengthOf(g.ephi[i]); e == nil || !notMuch(g.entry, e, fits) {
				continue
			}
			ok := true
			for _, l := range g.leaves {
				b := lengthOf(l.bphi[i])
				ok = ok && b != nil && (b.equal(h) || notMuch(l.back, b, nil))
			}
			if ok {
				fits[h.ts[0].t] = true
			}
		}
		g.head.each(func(id int, o *Obj) {
			for k, rp := range longest(o.v) {
				h := used(rp)
				if len(h.ts) != 1 || h.c != 0 || h.ts[0].k != 1 || fits[h.ts[0].t] {
					continue
				}
				at := func(st *State, fits map[*Term]bool) bool {
					o := st.obj(id)
					if o == nil {
						return false
					}
					rs := longest(o.v)
					return k < len(rs) && (st != g.entry && used(rs[k]).equal(h) || notMuch(st, used(rs[k]), fits))
				}
				ok := at(g.entry, fits)
				for _, l := range g.leaves {
					ok = ok && at(l.back, nil)
				}
				if ok {
					fits[h.ts[0].t] = true
				}
			}
		})
	}
	return fits
}

func (r *Run) small(a *Analysis, st *State, where string, fits map[*Term]bool) int {
	n := 0
	st.each(func(id int, o *Obj) {
		if st.base[id] == o {
			return
		}
		if m, ok := o.v.(*Mod); ok {
			if l, ok := m.f["size"].(*Lin); ok {
				n++
				r.ob("bounded buffer", notMuch(st, l, fits), a.fn, a.fn.Pos(), "%s has a buffer for %s bytes (%s, %s)", a.name, short(st.simp(l)), o.site, where)
			}
		}
		for _, rp := range longest(o.v) {
			n++
			l := used(rp)
			r.ob("bounded buffer", notMuch(st, l, fits), a.fn, a.fn.Pos(), "%s holds %s bytes in memory at once (%s, %s)", a.name, short(st.simp(l)), o.site, where)
		}
	})
	return n
}

// piles looks for what an iteration of the loop may leave behind other than in
// slices and buffers: deferred calls, goroutines, entries of a map, and what is
// stored in variables of the package.
func (r *Run) piles(a *Analysis, g *loopGroup) {
	body := info(g.fn).loops[g.header]
	seen := map[*ssa.Function]bool{}
	var in func(f *ssa.Function, body map[*ssa.BasicBlock]bool)
	in = func(f *ssa.Function, body map[*ssa.BasicBlock]bool) {
		for _, b := range f.Blocks {
			if body != nil && !body[b] {
				continue
			}
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Defer:
					r.ob("nothing piles up", body == nil, f, x.Pos(), "%s defers a call in every iteration of a loop", f.Name())
				case *ssa.Go:
					r.ob("nothing piles up", false, f, x.Pos(), "%s starts a goroutine in every iteration of the loop of %s", f.Name(), g.fn.Name())
				case *ssa.MapUpdate:
					m, ok := x.Map.(*ssa.MakeMap)
					_, con := x.Key.(*ssa.Const)
					r.ob("nothing piles up", con || ok && (body == nil || body[m.Block()]), f, x.Pos(), "%s adds to a map that outlasts the iteration of the loop of %s", f.Name(), g.fn.Name())
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					h := c.Common().StaticCallee()
					if h != nil && len(h.Blocks) > 0 && a.e.inRepo(pkgOf(h)) && !seen[h] {
						seen[h] = true
						in(h, nil)
					}
				}
			}
		}
	}
	in(g.fn, body)
	for _, l := range g.leaves {
		for _, e := range l.back.events() {
			if e.Name == "globalstore" && len(e.Args) > 1 {
				switch e.Args[1].(type) {
				case *Slice, *Ptr, *Iface, *Str, *Mod:
					r.ob("nothing piles up", false, e.Fn, e.Pos, "%s keeps something in %s in every iteration of the loop of %s", a.name, short(e.Args[0]), g.fn.Name())
				}
			}
		}
	}
}

func ruleC35(r *Run) {
	n := 0
	for _, a := range r.cryOps() {
		if a.err != "" {
			continue
		}
		fits := fitting(a)
		for _, x := range a.exits {
			n += r.small(a, x.st, "exit at "+r.leaf(x), fits)
		}
		for _, rec := range a.log {
			if rec.kind == "note" && rec.msg == "recursion not analysed" {
				r.ob("no recursion", false, rec.fn, rec.pos, "%s calls itself, which takes memory for each call", rec.fn.Name())
			}
		}
		for _, g := range groupsOf(a) {
			r.piles(a, g)
			for _, l := range g.leaves {
				n += r.small(a, l.back, fmt.Sprintf("in the loop of %s", l.fn.Name()), fits)
				for i := range l.bphi {
					b := lengthOf(l.bphi[i])
					if b == nil {
						continue
					}
					n++
					r.ob("bounded list", notMuch(l.back, b, fits), l.fn, l.phis[i].Pos(), "%s carries %s elements from one iteration of the loop of %s to the next", a.name, short(l.back.simp(b)), l.fn.Name())
				}
			}
		}
	}
	r.floor("buffers", n, 100)
	calls := 0
	for ctor, next := range map[string]string{"base64.NewEncoder": "Write", "base64.NewDecoder": ""} {
		c := r.client(ctor, next)
		if c.err != "" {
			continue
		}
		for _, cc := range c.calls {
			calls++
			for _, x := range cc.a.exits {
				walk(c.e.resolve(x.st, c.ptr, 0), map[string]bool{}, func(v Value) bool {
					var l *Lin
					switch y := v.(type) {
					case *Bytes:
						l = y.r.len()
					case *Mod:
						rs := longest(y)
						if len(rs) == 0 {
							return true
						}
						l = used(rs[0])
					case *Slice:
						if y.arr == nil {
							return true
						}
						l = y.n
					case *Term, *Lin, *Rope, *Str:
						return false // what the bytes are, not where they are kept
					default:
						return true
					}
					l = x.st.simp(l)
					r.ob("bounded state", x.st.prove(con(enough).sub(l)), cc.a.fn, x.pos, "%s keeps %s elements", cc.a.name, short(l))
					return false
				})
			}
		}
	}
	r.floor("calls of an encoder and a decoder", calls, 2)
}
