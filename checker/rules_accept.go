package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------------------
// C25: sealing and opening agree.

type cryptoLayout struct {
	size   int64 // of the header
	count  intField
	pub    int64 // offset of the ephemeral public key
	mac    int64 // offset of the authenticator
	macLo  int64 // what it covers
	macLen int64
	chunk  int64 // plain bytes per chunk
	nonces nonceSeq
}

func (l cryptoLayout) String() string {
	o := "big"
	if !l.count.big {
		o = "little"
	}
	return fmt.Sprintf("header of %d bytes: count at %d (%d bytes, %s endian), public key at %d, authenticator at %d over %d bytes from %d; chunks of %d bytes; nonces %s from %x",
		l.size, l.count.off, l.count.n, o, l.pub, l.mac, l.macLen, l.macLo, l.chunk, l.nonces.kind, l.nonces.start)
}

// authenticated: the authenticator covers the n bytes of the header from off.
func (l cryptoLayout) authenticated(off, n int64) bool {
	return l.macLo <= off && off+n <= l.macLo+l.macLen
}

func (r *Run) sealLayouts() []cryptoLayout {
	a := r.seal()
	groups := loopGroups(a, "seal")
	var out []cryptoLayout
	for _, x := range r.successes(a) {
		st := x.st
		h := sealHeader(a, x)
		if h == nil {
			r.ob("header", false, a.fn, x.pos, "the header is not known (exit at %s)", r.leaf(x))
			continue
		}
		n := st.simp(h.len())
		if !r.ob("header", n.isConst() && n.c > 0 && n.c <= 512, a.fn, x.pos, "the header has no fixed length (exit at %s)", r.leaf(x)) {
			continue
		}
		l := cryptoLayout{size: n.c, pub: -1, mac: -1, macLo: -1}
		var g *loopGroup
		for _, c := range groups {
			if c.passed(x) {
				g = c
			}
		}
		if g == nil {
			continue // nothing is sealed
		}
		extra := int64(0)
		for _, e := range st.events() {
			if e.Name == "seal" && !e.Loop {
				extra++
			}
		}
		totals := chunkTotals(x, groups, extra)
		var sym []*Lin
		for _, t := range totals {
			if !t.isConst() {
				sym = append(sym, t)
			}
		}
		if len(sym) == 0 {
			continue
		}
		f, ok := countField(st, h, n.c, sym)
		if !r.ob("header", ok, a.fn, x.pos, "the header does not hold the number of chunks (exit at %s)", r.leaf(x)) {
			continue
		}
		l.count = f
		var key *Rope
		for _, e := range st.events() {
			switch e.Name {
			case "seal":
				key = ropeOf(e.Args[2])
				r.ob("layers", r.sinkOfSeal(a, st, e), e.Fn, e.Pos, "the chunk is not written to an encoder over the encrypted file")
			case "readfull", "read":
				if p := idFile(argTerm(e, 0)); p != nil && sameRope(st, p, strArg(a, 1)) && len(e.Args) > 2 && e.Loop {
					if z, ok := e.Args[2].(*Lin); ok && z.isConst() {
						l.chunk = z.c
					}
				}
			}
		}
		for _, e := range st.events() {
			if e.Name == "boxgen" && !e.Fail {
				sk := whole(st, ropeOf(e.Out))
				if sk != nil {
					l.pub = posIn(st, h, rtermN(mk("boxpub", "", rtermN(sk, con(32))), con(32)))
				}
			}
			if e.Name == "authsum" {
				m := ropeOf(e.Args[0])
				if p := posIn(st, h, ropeOf(e.Out)); p >= 0 {
					l.mac = p
					l.macLo, l.macLen = posIn(st, h, m), st.simp(m.len()).c
					r.ob("key", key == nil || sameRope(st, key, ropeOf(e.Args[1])), e.Fn, e.Pos, "the header is authenticated under another key than the chunks are sealed under")
				}
			}
		}
		seq, why := g.nonces("seal")
		r.ob("nonces", why == "", a.fn, x.pos, "the nonces of sealing are not understood: %s", why)
		l.nonces = seq
		out = append(out, l)
	}
	return out
}

// sinkOfSeal: what the seal produces is only written to the encoder.
func (r *Run) sinkOfSeal(a *Analysis, st *State, s *Event) bool {
	t := whole(st, ropeOf(s.Out))
	for _, e := range st.events() {
		if e.Name != "write" {
			continue
		}
		d, ok := e.Args[1].(*Str)
		if !ok || !containsTerm(d, t) {
			continue
		}
		p := codecFile(argTerm(e, 0), "encoder")
		if p == nil || !pathIs(st, p, strArg(a, 2), cat(strArg(a, 1), rlit(".enc"))) {
			return false
		}
	}
	return true
}

func isDecoderRead(e *Event) bool {
	return (e.Name == "read" || e.Name == "readfull") && codecFile(argTerm(e, 0), "decoder") != nil
}

func (r *Run) openLayouts() []cryptoLayout {
	a := r.open()
	groups := loopGroups(a, "unseal")
	var out []cryptoLayout
	for _, x := range r.successes(a) {
		st := x.st
		hv := headerFact(st)
		if hv == nil {
			continue
		}
		h := &Rope{}
		l := cryptoLayout{pub: -1, mac: -1, macLo: -1}
		verified := false
		for _, e := range st.events() {
			verified = verified || e.Name == "authverify"
			if !isDecoderRead(e) {
				continue
			}
			p := codecFile(argTerm(e, 0), "decoder")
			r.ob("layers", sameRope(st, p, strArg(a, 1)), e.Fn, e.Pos, "what is opened is not read from the encrypted file")
			if e.Loop {
				if len(e.Args) > 2 {
					if z, ok := e.Args[2].(*Lin); ok && z.isConst() {
						l.chunk = z.c - 16
					}
				}
				continue
			}
			if e.Out != nil && !e.Fail && !verified {
				h = cat(h, ropeOf(e.Out))
			}
		}
		n := st.simp(h.len())
		if !r.ob("header", n.isConst() && n.c > 0 && n.c <= 512, a.fn, x.pos, "the header has no fixed length (exit at %s): %s", r.leaf(x), short(h)) {
			continue
		}
		l.size = n.c
		var g *loopGroup
		for _, c := range groups {
			if c.passed(x) {
				g = c
			}
		}
		if g == nil {
			continue
		}
		extra := int64(0)
		key := hv.Args[2].(*Str).r
		for _, e := range st.events() {
			if e.Name == "unseal" && !e.Loop {
				extra++
			}
			if e.Name == "unseal" {
				r.ob("key", sameRope(st, key, ropeOf(e.Args[2])), e.Fn, e.Pos, "the header is verified under another key than the chunks are opened under")
			}
		}
		f, ok := countField(st, h, n.c, chunkTotals(x, groups, extra))
		if !r.ob("header", ok, a.fn, x.pos, "the number of chunks opened is not a number in the header (exit at %s)", r.leaf(x)) {
			continue
		}
		l.count = f
		m := ropeOf(hv.Args[1])
		l.mac, l.macLo, l.macLen = posIn(st, h, ropeOf(hv.Args[0])), posIn(st, h, m), st.simp(m.len()).c
		if peer, _ := sharedKey(st, key); peer != nil {
			l.pub = posIn(st, h, peer)
		}
		seq, why := g.nonces("unseal")
		r.ob("nonces", why == "", a.fn, x.pos, "the nonces of opening are not understood: %s", why)
		l.nonces = seq
		out = append(out, l)
	}
	return out
}

func ruleC25(r *Run) {
	s, o := r.seal(), r.open()
	if s.err != "" || o.err != "" {
		return
	}
	ss, os := r.sealLayouts(), r.openLayouts()
	r.floor("successful sealings with chunks", len(ss), 1)
	r.floor("successful openings with chunks", len(os), 1)
	for _, l := range ss {
		ok := l.count.n > 0 && l.pub >= 0 && l.mac >= 0 && l.macLo >= 0 && l.chunk > 0
		r.ob("layout", ok, s.fn, s.fn.Pos(), "the layout of what is sealed is not understood: %s", l)
		r.ob("layout", !ok || l.authenticated(l.count.off, l.count.n) && l.authenticated(l.pub, 32), s.fn, s.fn.Pos(), "the authenticator does not cover the whole chunk count and the whole ephemeral public key: %s", l)
		for _, k := range os {
			r.ob("layout", l == k, o.fn, o.fn.Pos(), "opening reads another layout than sealing writes: %s, but %s", k, l)
		}
	}
	// a plain read of the header or of a chunk relies on the decoder filling
	plain := 0
	for _, x := range o.exits {
		for _, e := range x.st.events() {
			if isDecoderRead(e) && e.Name == "read" {
				plain++
				r.site(e)
			}
		}
	}
	if plain > 0 {
		c := r.client("base64.NewDecoder", "")
		if c.err == "" {
			r.floor("exits of the decoder", r.decoderRule(c, false), 1)
		}
	}
	r.commentRule(s, o)
	// the base64 alphabet
	enc := map[string]bool{}
	if c := r.client("base64.NewEncoder", "Write"); c.err == "" {
		for _, cc := range c.calls {
			for _, x := range cc.a.exits {
				for _, e := range x.st.events() {
					for _, v := range e.Args {
						walk(v, map[string]bool{}, func(y Value) bool {
							if t, ok := y.(*Term); ok && t.op == "b64enc" {
								enc[t.s] = true
							}
							return true
						})
					}
				}
			}
		}
	}
	n := 0
	if c := r.client("base64.NewDecoder", ""); c.err == "" {
		for _, cc := range c.calls {
			for _, x := range cc.a.exits {
				for _, e := range x.st.events() {
					if t := argTerm(e, 0); t != nil && t.op == "b64stream" {
						n++
						r.ob("alphabet", len(enc) == 1 && enc[t.s], e.Fn, e.Pos, "the decoder reads %s, the encoder writes %v", short(t.s), enc)
					}
				}
			}
		}
	}
	r.floor("reads of base64 text", n, 1)
}

// commentRule: sealing writes one comment line before the base64 text, and
// opening skips exactly one line.
func (r *Run) commentRule(s, o *Analysis) {
	n := 0
	for _, x := range r.successes(s) {
		r.startsEmpty(s, x)
		c := &Rope{}
		began := false
		for _, e := range x.st.events() {
			if e.Name != "write" {
				continue
			}
			if codecFile(argTerm(e, 0), "encoder") != nil {
				began = true
				continue
			}
			if p := idFile(argTerm(e, 0)); p == nil {
				continue
			}
			r.ob("comment", !began && !e.Loop, e.Fn, e.Pos, "something is written to the encrypted file directly after the base64 text has begun")
			if d, ok := e.Args[1].(*Str); ok {
				c = cat(c, d.r)
			}
		}
		n++
		l, ok := c.lit()
		r.ob("comment", ok && strings.HasPrefix(l, "untrusted comment: ") && strings.Count(l, "\n") == 1 && strings.HasSuffix(l, "\n"), s.fn, x.pos, "the encrypted file does not start with one comment line (exit at %s): %s", r.leaf(x), short(c))
	}
	r.floor("comment lines written", n, 1)
	raw := func(e *Event) bool {
		if e.Name != "read" && e.Name != "readfull" {
			return false
		}
		p := idFile(argTerm(e, 0))
		return p != nil
	}
	groups := loopGroups(o, "read", "readfull")
	var loops []*loopGroup
	for _, g := range groups {
		has := false
		for _, l := range g.leaves {
			for _, e := range iteration(l) {
				has = has || raw(e)
			}
		}
		if has {
			loops = append(loops, g)
		}
	}
	newline := func(st *State, v *Lin, truth int8) bool { return st.decide(eqPred(v, con(10))) == truth }
	m := 0
	for _, x := range r.successes(o) {
		st := x.st
		began, inLoop := false, false
		var last, line *Event
		var buf Value
		bufID := (*Term)(nil)
		for _, e := range st.events() {
			if isDecoderRead(e) {
				began = true
			}
			if e.Name == "bufin" && bufID == nil {
				buf, bufID = e.Via, argTerm(e, 0)
				continue
			}
			// a buffer may hold more than was asked for
			if (raw(e) || e.Name == "wrap" || e.Name == "readline") && bufID != nil && argTerm(e, 0) == bufID {
				r.ob("comment", e.Via != nil && e.Via.key() == buf.key(), e.Fn, e.Pos, "the encrypted file is read past a buffer that may hold a part of it")
			}
			if e.Name == "readline" && idFile(argTerm(e, 0)) != nil {
				m++
				d, ok := e.Args[1].(*Lin)
				r.ob("comment", ok && d.isConst() && d.c == 10 && !began && line == nil && last == nil && !e.Loop && !e.Fail, e.Fn, e.Pos, "what is read before the base64 text is not exactly one line")
				line = e
				continue
			}
			if !raw(e) {
				continue
			}
			m++
			r.ob("comment", !began, e.Fn, e.Pos, "the encrypted file is read directly after the base64 text has begun")
			one := false
			if len(e.Args) > 2 {
				z, ok := e.Args[2].(*Lin)
				one = ok && z.isConst() && z.c == 1
			}
			r.ob("comment", one, e.Fn, e.Pos, "the comment line is not read byte by byte: what follows it may be skipped")
			if e.Loop {
				inLoop = true
			} else {
				r.ob("comment", last == nil, e.Fn, e.Pos, "more is read after the comment line")
				last = e
			}
		}
		if line != nil {
			r.ob("comment", last == nil && !inLoop, o.fn, x.pos, "more than the comment line is read before the base64 text (exit at %s)", r.leaf(x))
			continue
		}
		if last != nil && last.Out != nil && inLoop && !newlineRead(st, last) {
			ok := false
			for _, g := range loops {
				ok = ok || g.passed(x) && skipCarrier(g, st, last)
			}
			r.ob("comment", ok, o.fn, x.pos, "opening does not skip exactly one comment line (exit at %s)", r.leaf(x))
			continue
		}
		if last != nil && last.Out != nil {
			// the loop goes on after other bytes, and ends with a newline
			r.ob("comment", newline(st, st.byteAt(ropeOf(last.Out), con(0)), 1), last.Fn, last.Pos, "skipping the comment may end (exit at %s) before the newline", r.leaf(x))
			for _, g := range loops {
				if !g.passed(x) {
					continue
				}
				for _, l := range g.leaves {
					for _, e := range iteration(l) {
						if raw(e) && e.Out != nil {
							r.ob("comment", newline(l.back, l.back.byteAt(ropeOf(e.Out), con(0)), 0), e.Fn, e.Pos, "skipping the comment may go on after its newline")
						}
					}
				}
			}
			continue
		}
		ok := false
		if inLoop {
			for _, g := range loops {
				if g.passed(x) && skipCarrier(g, st, nil) {
					ok = true
				}
			}
		}
		r.ob("comment", ok, o.fn, x.pos, "opening does not skip exactly one comment line (exit at %s)", r.leaf(x))
	}
	r.floor("reads of the comment line", m, 1)
}

func newlineRead(st *State, e *Event) bool {
	return st.decide(eqPred(st.byteAt(ropeOf(e.Out), con(0)), con(10))) == 1
}

// skipCarrier: the loop tests at its head the byte read in the iteration
// before, or before the loop.
func skipCarrier(g *loopGroup, st *State, before *Event) bool {
	try := func(h, e Value, back func(l *LoopLeaf) Value) bool {
		first := func(s *State, v Value) *Lin {
			if l, ok := v.(*Lin); ok {
				return l
			}
			if rp := ropeOf(v); rp != nil {
				if n := s.simp(rp.len()); n.isConst() && n.c == 1 {
					return s.simp(s.byteAt(rp, con(0)))
				}
			}
			return nil
		}
		hc, ec := first(g.head, h), first(g.entry, e)
		if hc == nil || ec == nil || st.decide(eqPred(hc, con(10))) != 1 {
			return false
		}
		if before == nil && g.entry.decide(eqPred(ec, con(10))) != 0 {
			return false
		}
		if before != nil && !g.entry.simp(g.entry.byteAt(ropeOf(before.Out), con(0))).equal(ec) {
			return false
		}
		for _, l := range g.leaves {
			bc := first(l.back, back(l))
			if bc == nil || l.back.decide(eqPred(hc, con(10))) != 0 {
				return false
			}
			ok := false
			for _, e := range iteration(l) {
				if (e.Name == "read" || e.Name == "readfull") && !e.Fail && e.Out != nil {
					ok = l.back.simp(l.back.byteAt(ropeOf(e.Out), con(0))).equal(bc)
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for i := range g.hphi {
		i := i
		if try(g.hphi[i], g.ephi[i], func(l *LoopLeaf) Value { return l.bphi[i] }) {
			return true
		}
	}
	ok := false
	g.head.each(func(id int, o *Obj) {
		eo := g.entry.obj(id)
		if ok || eo == nil {
			return
		}
		ok = try(o.v, eo.v, func(l *LoopLeaf) Value {
			if b := l.back.obj(id); b != nil {
				return b.v
			}
			return Nil{}
		})
	})
	return ok
}

// ---------------------------------------------------------------------------
// C26: nothing well formed is refused.

func ruleC26(r *Run) {
	var as []*Analysis
	for _, n := range []string{"signify.Verify", "signify.Sign", "signify.LoadPublicKey", "signify.LoadPrivateKey"} {
		as = append(as, r.analyse(kPlain, n, nil))
	}
	as = append(as, r.loadedToBox()...)
	as = append(as, r.loadedPubToBox()...)
	as = append(as, r.cryOps()...)
	r.floor("failing exits", r.causes(as), 100)
}

// causes requires a good reason for each failure.
func (r *Run) causes(as []*Analysis) int {
	n := 0
	for _, a := range as {
		if a.err != "" || !a.hasErr() {
			continue
		}
		var total []*loopGroup
		if a.name == "crypto.Seal" {
			total = loopGroups(a, "seal")
		}
		for _, x := range a.exits {
			if !failure(a, x) {
				continue
			}
			n++
			why := r.cause(a, x, total)
			w := x.st.why
			fn, pos := a.fn, x.pos
			last := "nothing"
			if w != nil {
				fn, pos = w.fn, w.pos
				if w.facts != nil {
					last = fmt.Sprintf("%v: %s", w.facts.true, short(w.facts.p))
				}
			}
			r.ob("known cause", why != "", fn, pos, "%s fails with %s for a reason that is not a malformed or mismatching input nor a failed operation; the last decision before was %s", a.name, short(errOf(a, x)), last)
		}
	}
	return n
}

// cause finds the reason why an operation fails.
func (r *Run) cause(a *Analysis, x Exit, loops []*loopGroup) string {
	st := x.st
	errv := errOf(a, x)
	w := st.why
	var facts *FactNode
	var trace *TraceNode
	if w != nil {
		facts, trace = w.facts, w.trace
	} else {
		facts, trace = st.facts, st.trace
	}
	// an operation failed, and its error is reported
	for t := st.trace; t != nil; t = t.prev {
		e := t.e
		if !e.Fail || e.Loop {
			continue
		}
		if e.Part == "eof" || e.Part == "short" {
			continue
		}
		if e.Err != nil && mentions(errv, e.Err) {
			return "failed " + e.Name
		}
	}
	// the last thing that happened failed
	for t := trace; t != nil; t = t.prev {
		e := t.e
		if e.Name == "close" || e.Name == "print" || e.Name == "watchstore" {
			continue
		}
		if e.Fail && !e.Loop {
			if e.Part != "eof" && e.Part != "short" {
				return "failed " + e.Name
			}
			if !r.expectedEnd(a, x, e, loops) && r.countFits(a, x, false) {
				return "end of " + e.Name
			}
		}
		// more data than the header says
		if !e.Fail && !e.Loop && a.name == "crypto.Seal" && (e.Name == "readfull" || e.Name == "read") && e.Part == "" && r.expectedEnd(a, x, e, loops) && r.countFits(a, x, true) {
			return "message too long"
		}
		break
	}
	// the input does not pass a check: malformed or mismatching
	for f := facts; f != nil; f = f.prev {
		if s := refusal(st, f.p, f.true); s != "" {
			return s
		}
	}
	if exhausted(st, facts) {
		return "nonces exhausted"
	}
	if shortHeader(a, st) {
		return "short header"
	}
	return ""
}

// exhausted: a string of 24 bytes, all of them 255, has no successor.
func exhausted(st *State, facts *FactNode) bool {
	seen := map[string]bool{}
	for f := facts; f != nil; f = f.prev {
		if f.p.op == "eq" && !f.true && (overflowed(f.p.a) || f.p.b != nil && overflowed(f.p.b)) {
			return true
		}
		found := false
		walk(f.p.a, map[string]bool{}, func(v Value) bool {
			found = found || nonceAt(st, v, seen)
			return !found
		})
		if f.p.b != nil && !found {
			walk(f.p.b, map[string]bool{}, func(v Value) bool {
				found = found || nonceAt(st, v, seen)
				return !found
			})
		}
		if found {
			return true
		}
	}
	return false
}

// overflowed: v is the carry out of all 24 bytes of a string to which one is
// added.
func overflowed(v Value) bool {
	l, _ := v.(*Lin)
	used := map[int64]bool{}
	var of *Term
	for depth := 0; l != nil && depth <= 24; depth++ {
		t := l.single()
		if t == nil || t.op != "div" || len(t.args) != 2 {
			return false
		}
		s, _ := t.args[0].(*Lin)
		d, _ := t.args[1].(*Lin)
		if s == nil || d == nil || !d.isConst() || d.c != 256 {
			return false
		}
		var cell *Term
		for _, x := range s.ts {
			if x.t.op == "at" && x.k == 1 && len(x.t.args) == 2 {
				cell = x.t
			}
		}
		if cell == nil {
			return false
		}
		b, _ := cell.args[0].(*Term)
		i, _ := cell.args[1].(*Lin)
		if b == nil || i == nil || !i.isConst() || of != nil && of != b {
			return false
		}
		of = b
		used[i.c] = true
		l = s.sub(lin(cell))
		if l.isConst() {
			if len(used) != 24 || l.c != 1 {
				return false
			}
			for k := int64(0); k < 24; k++ {
				if !used[k] {
					return false
				}
			}
			return true
		}
	}
	return false
}

func nonceAt(st *State, v Value, seen map[string]bool) bool {
	t, ok := v.(*Term)
	if !ok || t.op != "at" || len(t.args) == 0 {
		return false
	}
	b, ok := t.args[0].(*Term)
	if !ok || seen[b.key()] {
		return false
	}
	seen[b.key()] = true
	rp := rtermN(b, con(24))
	for i := int64(0); i < 24; i++ {
		if c := st.byteAt(rp, con(i)); st.decide(eqPred(c, con(255))) != 1 && st.decide(eqPred(con(0), add8(c, 1))) != 1 {
			return false
		}
	}
	return true
}

// shortHeader: before the header was verified, the encrypted file gave fewer
// bytes than were asked for.
func shortHeader(a *Analysis, st *State) bool {
	for _, e := range st.events() {
		if e.Name == "authverify" {
			break
		}
		if isDecoderRead(e) && !e.Loop && e.Out != nil && len(e.Args) > 2 {
			if n, ok := e.Args[2].(*Lin); ok && st.decide(eqPred(ropeOf(e.Out).len(), n)) == 0 {
				return true
			}
		}
	}
	return false
}

// expectedEnd: all chunks that the header announces have been sealed before
// the event, so that the end of the message is expected there.
func (r *Run) expectedEnd(a *Analysis, x Exit, e *Event, loops []*loopGroup) bool {
	if a.name != "crypto.Seal" {
		return false
	}
	h := sealHeader(a, x)
	if h == nil {
		return false
	}
	n := x.st.simp(h.len())
	if !n.isConst() || n.c < 8 || n.c > 256 {
		return false
	}
	extra := int64(0)
	for _, s := range x.st.events() {
		if s.Name == "seal" && !s.Loop {
			extra++
		}
	}
	tot := chunkTotals(x, loops, extra)
	cnt := intAt(x.st, h, 0, 8, true)
	for _, t := range tot {
		d := t.sub(cnt)
		if e.Part == "short" {
			d = d.addc(1) // the last chunk may be short
		}
		if x.st.prove(d) {
			return true
		}
	}
	return false
}

// countFits: if the number of chunks in the header is computed from the size
// of the message, then that many chunks hold all of it (enough), or one chunk
// less does not.
func (r *Run) countFits(a *Analysis, x Exit, enough bool) bool {
	if a.name != "crypto.Seal" {
		return true
	}
	st := x.st
	h := sealHeader(a, x)
	if h == nil {
		return true
	}
	cnt := intAt(st, h, 0, 8, true)
	var size *Lin
	walk(cnt, map[string]bool{}, func(v Value) bool {
		if t, ok := v.(*Term); ok && t.op == "fsize" {
			size = lin(t)
		}
		return true
	})
	if size == nil {
		return true
	}
	chunk := int64(0)
	for _, e := range st.events() {
		if (e.Name == "readfull" || e.Name == "read") && len(e.Args) > 2 {
			if z, ok := e.Args[2].(*Lin); ok && z.isConst() && z.c > chunk {
				chunk = z.c
			}
		}
	}
	if enough {
		return st.prove(cnt.scale(chunk).sub(size))
	}
	return st.prove(size.sub(cnt.scale(chunk)).addc(chunk-1)) || st.decide(&Pred{op: "lt", a: cnt.scale(chunk).addc(-chunk), b: size}) == 1
}

func kdfRan(st *State) bool {
	for _, e := range st.events() {
		if e.Name == "kdf" && !e.Fail {
			return true
		}
	}
	return false
}

// refusal: the fact is a check that malformed or mismatching input fails.
func refusal(st *State, p *Pred, truth bool) string {
	recs := map[string]*Term{}
	var sums []*Term
	visit := func(v Value) bool {
		if t, ok := v.(*Term); ok {
			switch t.op {
			case "b64dec":
				recs[t.key()] = t
				return false
			case "sha512":
				sums = append(sums, t)
				return false
			}
		}
		return true
	}
	walk(p.a, map[string]bool{}, visit)
	if p.b != nil {
		walk(p.b, map[string]bool{}, visit)
	}
	if p.op == "true" {
		if t, ok := p.a.(*Term); ok && !truth {
			switch t.op {
			case "edverify", "authverify", "oncurve":
				return t.op
			}
		}
		return ""
	}
	for _, t := range recs {
		rec := rterm(t)
		ok := false
		for _, n := range []int64{42, 74, 104} {
			ok = ok || st.decide(eqPred(rec.len(), con(n))) == 1
		}
		if !ok {
			for _, n := range []int64{42, 74, 104} {
				// this fact rules out the size
				if other := st.decide(eqPred(rec.len(), con(n))); other == 0 {
					ok = true
				}
			}
			if ok {
				return "size"
			}
			continue
		}
		for i, c := range []byte("EdBK") {
			if i >= 2 && st.decide(eqPred(rec.len(), con(104))) != 1 {
				break
			}
			if i%2 == 0 && st.decide(eqPred(sub(st, rec, int64(i), 2), rlit("EdBK"[i:i+2]))) == 0 {
				return "tag"
			}
			if st.decide(eqPred(st.byteAt(rec, con(int64(i))), con(int64(c)))) == 0 {
				return "tag"
			}
		}
	}
	if p.op == "eq" && !truth {
		if len(sums) > 0 {
			// the checksum of a protected key is over the decrypted bytes
			for _, e := range st.events() {
				if e.Name != "kdf" || e.Fail || e.Out == nil {
					continue
				}
				ok := false
				for _, s := range sums {
					for _, v := range s.args {
						walk(v, map[string]bool{}, func(v Value) bool {
							if t, is := v.(*Term); is && t.op == "kdf" {
								ok = true
							}
							return true
						})
					}
				}
				if !ok {
					return ""
				}
			}
			// and that of a key which is used as it is must be unprotected
			for _, t := range recs {
				if kdfRan(st) {
					break
				}
				rec := rterm(t)
				if st.decide(eqPred(rec.len(), con(104))) == 1 && st.decide(eqPred(intAt(st, rec, 4, 4, true), con(0))) != 1 {
					return ""
				}
			}
			return "checksum"
		}
		if len(recs) == 2 {
			return "key number"
		}
	}
	return ""
}
