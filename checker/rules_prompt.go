package main

import "strings"

// ---- C34: a passphrase is asked for exactly when one is needed

// unlocks: the operation works with a stored secret key.
func unlocks(a *Analysis) bool {
	return a.name == "signify.Sign" || strings.HasSuffix(a.name, "(*signify.Private).ToBox")
}

func askings(st *State) (prompts, direct []*Event) {
	for _, e := range st.events() {
		switch e.Name {
		case "prompt":
			prompts = append(prompts, e)
		case "readpassword":
			direct = append(direct, e)
		}
	}
	return
}

// needsPass: the path has found that the stored key cannot be used as it is.
func needsPass(st *State, rec *Rope) bool {
	if st.decide(eqPred(intAt(st, rec, 4, 4, true), con(0))) == 0 {
		return true
	}
	stored := sub(st, rec, 40, 64)
	return !keyIsChecked(st, rec, stored) && lockedKey(st, stored)
}

// heldKey is the key in a key object of which nothing else is known.
func heldKey(a *Analysis) (key *Rope, sums []*Rope) {
	p, _ := a.args[0].(*Ptr)
	if p == nil {
		return
	}
	out := map[string]Value{}
	leavesOf(a.e.resolve(a.entry, p, 0), "", out)
	for _, v := range out {
		b, ok := v.(*Bytes)
		switch {
		case !ok:
		case b.r.len().equal(con(64)):
			if key != nil {
				return nil, nil
			}
			key = b.r
		case b.r.len().equal(con(8)):
			sums = append(sums, b.r)
		}
	}
	return
}

// lockedKey: the path has looked at the checksum of the key as it is.
func lockedKey(st *State, key *Rope) bool {
	h := mk("sha512", "", st.simpRope(key).canon())
	found := false
	eachFact(st, func(p *Pred, truth bool) {
		found = found || containsTerm(p.a, h) || p.b != nil && containsTerm(p.b, h)
	})
	return found
}

func confirmed(e *Event) int8 {
	if len(e.Args) > 0 {
		if b, ok := e.Args[0].(*Bool); ok {
			return b.known
		}
	}
	return -1
}

func ruleC34(r *Run) {
	var as []*Analysis
	as = append(as, r.sigOps()...)
	as = append(as, r.loadedToBox()...)
	as = append(as, r.loadedPubToBox()...)
	as = append(as, r.cryOps()...)
	asked, quiet := 0, 0
	for _, a := range as {
		if a.err != "" {
			continue
		}
		for _, x := range a.exits {
			ps, ds := askings(x.st)
			for _, e := range ds {
				r.ob("by the prompt", false, e.Fn, e.Pos, "%s reads a passphrase from the terminal by itself, and not by PassphrasePrompt", a.name)
			}
			if len(ps) == 0 {
				quiet++
				r.ob("asked when needed", true, a.fn, x.pos, "")
				continue
			}
			asked++
			e := ps[0]
			r.site(e)
			if !r.ob("asked when needed", unlocks(a), e.Fn, e.Pos, "%s asks for a passphrase, for which it has no use (exit at %s)", a.name, r.leaf(x)) {
				continue
			}
			many := len(ps) > 1
			for _, p := range ps {
				many = many || p.Loop
				r.ob("not confirmed", confirmed(p) == 0, p.Fn, p.Pos, "the passphrase of an existing key is asked for twice")
			}
			r.ob("asked once", !many, e.Fn, e.Pos, "%s asks more than once (exit at %s)", a.name, r.leaf(x))
			file := strArg(a, 0)
			if a.name != "signify.Sign" {
				file = strArg(r.loadPriv(), 0)
				if recOf(x.st, file) == nil {
					held, sums := heldKey(a)
					locked := held == nil || lockedKey(x.st, held)
					for _, c := range sums {
						locked = locked && !closure(x.st).same(rterm(mk("sha512", "", held.canon())), c, 8)
					}
					r.ob("locked key", locked, e.Fn, e.Pos, "%s asks for a passphrase although the key may have been unlocked before (exit at %s)", a.name, r.leaf(x))
					continue
				}
			}
			rec := recOf(x.st, file)
			ok := rec != nil && isLen(x.st, rec, 104)
			if r.ob("key read first", ok, e.Fn, e.Pos, "%s asks for a passphrase before the key has been read (exit at %s)", a.name, r.leaf(x)) {
				r.ob("protected key", needsPass(x.st, rec), e.Fn, e.Pos, "%s asks for a passphrase although the key may be unprotected and intact (exit at %s)", a.name, r.leaf(x))
			}
		}
	}
	r.floor("exits after asking", asked, 4)
	r.floor("exits without asking", quiet, 100)
	r.commandAsks()
	r.builtinPrompt()
}

// commandAsks: the command itself asks only to protect a new key.
func (r *Run) commandAsks() {
	a := r.mainFn()
	n := 0
	for _, x := range a.exits {
		ps, ds := askings(x.st)
		for _, e := range ds {
			r.ob("by the prompt", false, e.Fn, e.Pos, "the command reads a passphrase from the terminal by itself, and not by PassphrasePrompt")
		}
		if len(ps) == 0 {
			continue
		}
		e := ps[0]
		n++
		r.site(e)
		r.ob("asked to generate", flagOn(x.st, "G") == 1 && flagOn(x.st, "n") == 0, e.Fn, e.Pos, "the command asks for a passphrase without -G, or with -n (exit at %s)", r.leaf(x))
		many := len(ps) > 1
		for _, p := range ps {
			many = many || p.Loop
			r.ob("confirmed", confirmed(p) == 1, p.Fn, p.Pos, "the passphrase of a new key is not confirmed")
		}
		r.ob("asked once", !many, e.Fn, e.Pos, "the command asks more than once (exit at %s)", r.leaf(x))
	}
	r.floor("exits of the command after asking", n, 2)
}

// builtinPrompt: one entry, or two equal ones if it is to be confirmed.
func (r *Run) builtinPrompt() {
	n := 0
	for _, a := range r.promptFns() {
		if len(a.args) == 0 {
			continue
		}
		want, _ := a.args[0].(*Bool)
		if want == nil {
			continue
		}
		for _, x := range a.exits {
			if x.kind != xRet || failure(a, x) {
				continue
			}
			n++
			var in []*Event
			for _, e := range x.st.events() {
				if e.Name == "readpassword" && !e.Fail {
					in = append(in, e)
					r.site(e)
				}
			}
			if !r.ob("entered", len(in) > 0, a.fn, x.pos, "the prompt succeeds without an entry") {
				continue
			}
			last := in[len(in)-1]
			s, _ := resultOf(x, 0).(*Slice)
			var got *Rope
			if s != nil {
				got = a.e.content(x.st, s)
			}
			switch truthOf(x.st, want) {
			case 1:
				ok := len(in) > 1 && got != nil
				if ok {
					p, q := ropeOf(in[len(in)-2].Out), ropeOf(last.Out)
					ok = (sameEntry(x.st, got, p) || sameEntry(x.st, got, q)) && (sameEntry(x.st, p, q) || comparedByLoop(a, x, p, q))
				}
				r.ob("entered alike twice", ok, last.Fn, last.Pos, "the prompt confirms a passphrase that was not entered alike twice (exit at %s)", r.leaf(x))
			case 0:
				r.ob("entered once", len(in) == 1 && !last.Loop, last.Fn, last.Pos, "the prompt asks twice although nothing is to be confirmed (exit at %s)", r.leaf(x))
			default:
				r.ob("confirmed on demand", false, a.fn, x.pos, "the prompt does not regard whether the passphrase is to be confirmed (exit at %s)", r.leaf(x))
			}
		}
	}
	r.floor("answers of the prompt", n, 2)
}

func truthOf(st *State, b *Bool) int8 {
	if b.p == nil {
		return b.known
	}
	t := st.decide(b.p)
	if b.neg && t >= 0 {
		t = 1 - t
	}
	return t
}

func sameEntry(st *State, a, b *Rope) bool {
	return sameRope(st, a, b) || st.decide(eqPred(st.simpRope(a), st.simpRope(b))) == 1
}

// comparedByLoop: the path has passed a loop that compares the two byte by
// byte, and has found no difference.
func comparedByLoop(a *Analysis, x Exit, p, q *Rope) bool {
	if x.st.decide(eqPred(p.len(), q.len())) != 1 {
		return false
	}
	gs := groupsOf(a)
	for _, g := range gs {
		if !g.passed(x) {
			continue
		}
		for k, v := range g.hphi {
			phi, ok := v.(*Lin)
			if !ok || k >= len(g.ephi) {
				continue
			}
			from, ok := g.ephi[k].(*Lin)
			if !ok || !from.isConst() {
				continue
			}
			done := phi.sub(from)
			if !x.st.prove(done.sub(p.len())) {
				continue
			}
			if eachIteration(gs, g, func(l *LoopLeaf) bool {
				b, ok := l.bphi[k].(*Lin)
				if !ok || !b.sub(l.hphi[k].(*Lin)).equal(con(1)) {
					return false
				}
				at := l.hphi[k].(*Lin).sub(from)
				u, w := l.back.byteAt(p, at), l.back.byteAt(q, at)
				return l.back.decide(eqPred(u, w)) == 1 || gathers(x.st, g, l, xor8(u, w))
			}) {
				return true
			}
		}
	}
	return false
}

// eachIteration: f holds in all iterations that come back to this head.
func eachIteration(gs []*loopGroup, g *loopGroup, f func(*LoopLeaf) bool) bool {
	n := 0
	for _, h := range gs {
		if h.header != g.header || h.fn != g.fn || h.entry != g.entry {
			continue
		}
	leaves:
		for _, l := range h.leaves {
			for i, v := range l.bphi {
				if b, ok := v.(*Bool); ok && b.known >= 0 {
					if w, ok := g.hphi[i].(*Bool); ok && w.known >= 0 && w.known != b.known {
						continue leaves
					}
				}
			}
			n++
			if !f(l) {
				return false
			}
		}
	}
	return n > 0
}

// isZeroDiff: the truth value says that the two bytes are equal.
func isZeroDiff(b *Bool, diff *Lin) bool {
	if b.p.op != "eq" || b.neg {
		return false
	}
	u, ok1 := b.p.a.(*Lin)
	w, ok2 := b.p.b.(*Lin)
	return ok1 && ok2 && xor8(u, w).key() == diff.key()
}

// gathers: the difference is ored into a number that is zero in the end.
func gathers(end *State, g *loopGroup, l *LoopLeaf, diff *Lin) bool {
	for j, v := range l.bphi {
		if same, ok := v.(*Bool); ok {
			acc, ok := g.hphi[j].(*Bool)
			if ok && truthOf(end, acc) == 1 && truthOf(l.back, l.hphi[j].(*Bool)) == 1 && same.p != nil && isZeroDiff(same, diff) {
				return true
			}
			continue
		}
		b, ok := v.(*Lin)
		if !ok {
			continue
		}
		acc, ok := g.hphi[j].(*Lin)
		if !ok || end.decide(eqPred(acc, con(0))) != 1 {
			continue
		}
		t := b.single()
		if t == nil || t.op != "or" || len(t.args) != 2 {
			continue
		}
		u, w := t.args[0].key(), t.args[1].key()
		h := l.hphi[j].key()
		if u == h && w == diff.key() || w == h && u == diff.key() {
			return true
		}
	}
	return false
}
