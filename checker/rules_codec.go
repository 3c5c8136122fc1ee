package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// The most general client: an object from its constructor, between any
// sequence of calls of its methods with any arguments.

type clientCall struct {
	a    *Analysis // the call from the head state
	head *State
	meth string
}

type client struct {
	e     *Engine
	ctor  *Analysis
	obj   Value // the object, behind its interface
	ptr   *Ptr
	init  *State
	heads []*State
	calls []clientCall
	err   string
}

func nonNil(v Value) Value {
	if o, ok := v.(*Opq); ok {
		n := *o
		n.nonnil = true
		return &n
	}
	return v
}

// freeArgs are arbitrary arguments that a correct caller may pass: interfaces
// and functions are not nil.
func freeArgs(e *Engine, st *State, sig *types.Signature) []Value {
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		v := e.fromTerm(st, p.Type(), mk("param", p.Name()))
		switch under(p.Type()).(type) {
		case *types.Interface, *types.Signature:
			v = nonNil(v)
		}
		args = append(args, v)
	}
	return args
}

// client analyses every sequence of calls on what ctor returns. If next is
// given, only calls of that method that succeed are followed by others.
func (r *Run) client(ctor, next string) *client {
	if c := r.clients[ctor+" "+next]; c != nil {
		return c
	}
	c := &client{}
	if r.clients == nil {
		r.clients = map[string]*client{}
	}
	r.clients[ctor+" "+next] = c
	a := r.analyse(kPlain, ctor, func(e *Engine, st *State, fn *ssa.Function) []Value { return freeArgs(e, st, fn.Signature) })
	c.ctor, c.e = a, a.e
	if a.err != "" {
		c.err = a.err
		return c
	}
	if !r.ob("constructor", len(a.exits) == 1 && a.exits[0].kind == xRet, a.fn, fnPos(a.fn), "%s does not simply return an object", ctor) {
		c.err = "constructor"
		return c
	}
	x := a.exits[0]
	v := x.val
	if t, ok := v.(*Tup); ok {
		v = t.vs[0]
	}
	c.obj = v
	var typ types.Type
	switch o := v.(type) {
	case *Iface:
		typ = o.typ
		c.ptr, _ = o.v.(*Ptr)
	case *Ptr:
		typ = a.fn.Signature.Results().At(0).Type()
		c.ptr = o
	}
	if !r.ob("constructor", c.ptr != nil, a.fn, fnPos(a.fn), "%s does not return a new object", ctor) {
		c.err = "constructor"
		return c
	}
	c.init = x.st
	var meths []*ssa.Function
	ms := r.w.prog.MethodSets.MethodSet(typ)
	for i := 0; i < ms.Len(); i++ {
		if f := ms.At(i).Obj(); f.Exported() {
			if g := r.w.prog.MethodValue(ms.At(i)); g != nil && len(g.Blocks) > 0 {
				meths = append(meths, g)
			}
		}
	}
	sort.Slice(meths, func(i, j int) bool { return meths[i].Name() < meths[j].Name() })
	r.ob("methods", len(meths) > 0, a.fn, fnPos(a.fn), "the result of %s has no methods", ctor)
	entry := c.init.clone()
	entry.trace = nil
	margs := map[string][]Value{}
	for _, m := range meths {
		margs[m.Name()] = append([]Value{c.ptr}, freeArgs(c.e, entry, m.Signature)...)
	}
	defer func() {
		if x := recover(); x != nil {
			if g, ok := x.(giveUp); ok {
				c.err = g.msg
				r.ob("analysed", false, a.fn, fnPos(a.fn), "the analysis of the clients of %s did not finish: %s", ctor, c.err)
				return
			}
			panic(x)
		}
	}()
	c.e.steps = 0
	c.e.warm = map[*ssa.BasicBlock][]*fixLeaf{}
	f := c.e.newFixer("clients of "+ctor, entry, nil, nil)
	f.probe = func(h *State, _ []Value) []backState {
		var out []backState
		for _, m := range meths {
			if next != "" && m.Name() != next {
				continue
			}
			for _, x := range c.e.callFn(m, margs[m.Name()], nil, h.clone(), 0) {
				if x.kind == xRet && (next == "" || success(&Analysis{fn: m}, x)) {
					s := x.st
					s.trace = nil
					s.hist = nil
					out = append(out, backState{st: s})
				}
			}
		}
		return out
	}
	f.solve()
	f.loopEv = nil
	for i, h := range f.finalHeads() {
		h.st.trace = nil
		c.heads = append(c.heads, h.st)
		for _, m := range meths {
			b := c.e.analyse(fmt.Sprintf("%s in client state %d", shortFn(m), i), m, h.st.clone(), margs[m.Name()])
			r.checkDone(b)
			c.calls = append(c.calls, clientCall{b, h.st, m.Name()})
		}
	}
	return c
}

// ---- C20

// encCand says which parts of the encoder hold the bytes that are waiting, and
// the column.
type encCand struct {
	buf  int // field with the waiting bytes
	idx  int // field with their number, or -1: all of buf
	line int // field with the column, or -1: not kept
	unit int64
	full *Lin // with a column that counts down: what it counts down from
}

// flat lists the fields of a value and of the structs in it or behind its
// pointers.
func (c *client) flat(st *State, v Value, depth int) []Value {
	switch x := v.(type) {
	case *Struct:
		var out []Value
		for _, f := range x.fs {
			out = append(out, c.flat(st, f, depth)...)
		}
		return out
	case *Ptr:
		if depth > 0 && x.obj > 0 && st.obj(x.obj) != nil {
			if s, ok := c.e.loadPath(st, st.obj(x.obj).v, x.path, nil).(*Struct); ok {
				return append([]Value{v}, c.flat(st, s, depth-1)...)
			}
		}
	}
	return []Value{v}
}

// fields lists the fields of the client's value.
func (c *client) fields(st *State) []Value {
	return c.flat(st, c.e.loadPath(st, st.obj(c.ptr.obj).v, c.ptr.path, nil), 2)
}

func (c encCand) String() string {
	return fmt.Sprintf("waiting bytes in field %d up to field %d, column in field %d", c.buf, c.idx, c.line)
}

type encView struct {
	pend *Rope
	n    int64
	col  int64
	ok   bool
}

// view reads the encoder's state.
func (c *client) view(st *State, k encCand) encView {
	fs := c.fields(st)
	if k.buf >= len(fs) || k.idx >= len(fs) || k.line >= len(fs) {
		return encView{}
	}
	rp := func() *Rope {
		switch f := fs[k.buf].(type) {
		case *Slice:
			return c.e.content(st, f)
		case *Bytes:
			return f.r
		case *Mod:
			if t, ok := f.f["r"].(*Str); ok {
				return t.r
			}
		}
		return nil
	}()
	if rp == nil {
		return encView{}
	}
	n := st.simp(rp.len())
	if k.idx >= 0 {
		l, ok := fs[k.idx].(*Lin)
		if !ok {
			return encView{}
		}
		n = st.simp(l)
	}
	if !n.isConst() || n.c < 0 || n.c > 4096 {
		return encView{}
	}
	col := int64(0)
	if k.line >= 0 {
		l, ok := fs[k.line].(*Lin)
		if !ok {
			return encView{}
		}
		if k.full != nil {
			l = k.full.sub(l)
		}
		l = st.simp(l)
		if !l.isConst() || l.c*4%k.unit != 0 {
			return encView{}
		}
		col = l.c * 4 / k.unit
	}
	return encView{sub(st, rp, 0, n.c), n.c, col, true}
}

// encSeg checks a stretch of execution from s to t, in which the bytes
// p[i:j] were taken. w are the writes. It returns a description of what is
// wrong, or "".
func encSeg(st *State, a, b encView, p *Rope, i *Lin, m int64, w []*Event, closing bool) string {
	if !a.ok || !b.ok && !closing {
		return "the state of the encoder is not tracked"
	}
	var data []*Lin // bytes passed on
	col := a.col
	padded := false
	for _, e := range w {
		s, ok := e.Args[1].(*Str)
		if !ok {
			return "what is written is not known"
		}
		for _, g := range s.r.canon().segs {
			switch {
			case g.kind == sLit:
				for _, ch := range g.lit {
					if ch != '\n' {
						return fmt.Sprintf("%q is written, which is neither encoded data nor a newline", g.lit)
					}
					if col != 72 && !closing {
						return fmt.Sprintf("a newline is written after %d characters", col)
					}
					col = 0
				}
			case g.kind == sSub && g.t.op == "b64enc" && g.off.isConst() && g.off.c == 0 && g.n.equal(seqLen(g.t)):
				if !strings.HasSuffix(g.t.s, "base64.StdEncoding") {
					return "the data is not encoded as standard base64 but with " + g.t.s
				}
				in := g.t.args[0].(*Rope)
				n := st.simp(in.len())
				if !n.isConst() {
					return "the length of what is encoded is not known"
				}
				if padded {
					return "more data follows after padding"
				}
				if n.c%3 != 0 {
					if !closing {
						return fmt.Sprintf("%d bytes are encoded on their own, which adds padding within the text", n.c)
					}
					padded = true
				}
				data = append(data, cells(st, in, n.c)...)
				col += (n.c + 2) / 3 * 4
				if col > 72 {
					return fmt.Sprintf("a line grows to %d characters", col)
				}
			default:
				return "something other than encoded data and newlines is written: " + short(s.r)
			}
		}
	}
	var want []*Lin
	want = append(want, cells(st, a.pend, a.n)...)
	for k := int64(0); k < m; k++ {
		want = append(want, st.simp(st.byteAt(p, i.addc(k))))
	}
	have := data
	if !closing {
		have = append(have, cells(st, b.pend, b.n)...)
	}
	if len(have) != len(want) {
		return fmt.Sprintf("%d bytes were waiting and %d were taken, but %d were passed on or kept", a.n, m, len(have))
	}
	for k := range have {
		if have[k].key() != want[k].key() {
			return fmt.Sprintf("byte %d that is passed on or kept is not the one that was given: %s instead of %s", k, short(have[k]), short(want[k]))
		}
	}
	if !closing && col != b.col {
		return fmt.Sprintf("the column is %d but is recorded as %d", col, b.col)
	}
	return ""
}

// since lists the events of st after those of base, oldest first, leaving out
// summaries of loops.
func since(st, base *State) []*Event {
	var out []*Event
	for t := st.trace; t != nil; t = t.prev {
		if base != nil && base.trace != nil && t == base.trace {
			break
		}
		out = append(out, t.e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func writesIn(evs []*Event) []*Event {
	var out []*Event
	for _, e := range evs {
		if e.Name == "write" && !e.Fail && !e.Loop {
			out = append(out, e)
		}
	}
	return out
}

// posCand picks, from the values that a loop carries, the number of bytes
// taken so far.
type posCand struct{ phi int }

// phiPos is the linear value of a phi that may count positions, relative to
// its value at the loop's entry.
func phiPos(v, v0 Value) *Lin {
	switch x := v.(type) {
	case *Lin:
		if y, ok := v0.(*Lin); ok {
			return x.sub(y)
		}
	case *Slice:
		if y, ok := v0.(*Slice); ok && x.arr != nil && y.arr != nil && x.arr.key() == y.arr.key() {
			return x.off.sub(y.off)
		}
	}
	return nil
}

// position is the number of bytes taken at st, given the loops it came
// through and the choice of counters.
func position(st *State, pick map[*ssa.BasicBlock]int) (*Lin, *State, bool) {
	h := st.hist
	if h == nil {
		return con(0), nil, true
	}
	return headPos(h, pick), h.head, headPos(h, pick) != nil
}

func headPos(h *HistNode, pick map[*ssa.BasicBlock]int) *Lin {
	before := con(0)
	if h.prev != nil {
		before = headPos(h.prev, pick)
		if before == nil {
			return nil
		}
		return nil // several loops in sequence are not related
	}
	k, ok := pick[h.header]
	if !ok || k >= len(h.hphi) {
		return nil
	}
	d := phiPos(h.hphi[k], h.ephi[k])
	if d == nil {
		return nil
	}
	return before.add(d)
}

// encWrite checks a Write from one client state. It returns the first thing
// that is wrong.
func (c *client) encWrite(cc clientCall, k encCand, pick map[*ssa.BasicBlock]int, count func()) (string, Exit) {
	a := cc.a
	p := c.e.content(a.entry, a.args[1])
	in := c.view(a.entry, k)
	for _, rec := range a.log {
		if rec.kind != "loop" {
			continue
		}
		l := rec.loop
		if l.entry.hist != nil {
			return "several loops follow each other", Exit{}
		}
		count()
		// up to the loop
		if why := encSeg(l.entry, in, c.view(l.entry, k), p, con(0), 0, writesIn(since(l.entry, a.entry)), false); why != "" {
			return why, Exit{st: l.entry}
		}
		j, ok := pick[l.header]
		if !ok {
			return "no counter", Exit{}
		}
		i, i2 := phiPos(l.hphi[j], l.ephi[j]), phiPos(l.bphi[j], l.ephi[j])
		if i == nil || i2 == nil {
			return "no counter", Exit{}
		}
		m := l.back.simp(i2.sub(i))
		if !m.isConst() || m.c < 0 || m.c > 4096 {
			return "no counter", Exit{}
		}
		if why := encSeg(l.back, c.view(l.head, k), c.view(l.back, k), p, i, m.c, writesIn(since(l.back, l.head)), false); why != "" {
			return why, Exit{st: l.back}
		}
	}
	for _, x := range a.exits {
		if x.kind != xRet {
			continue
		}
		count()
		for _, e := range x.st.events() {
			if e.Fail && !(failure(a, x) && !success(a, x)) {
				return "a failed write is not reported", x
			}
		}
		if !success(a, x) {
			continue
		}
		i, head, ok := position(x.st, pick)
		if !ok {
			return "no counter", x
		}
		from := in
		base := a.entry
		if head != nil {
			from, base = c.view(head, k), head
		}
		n, _ := resultOf(x, 0).(*Lin)
		plen := p.len()
		if n == nil || x.st.decide(eqPred(n, plen)) != 1 {
			return fmt.Sprintf("success is reported with a count of %s instead of the length given", short(n)), x
		}
		m := x.st.simp(plen.sub(i))
		if !m.isConst() || m.c < 0 {
			// the loop has taken everything
			if x.st.prove(i.sub(plen)) && x.st.prove(plen.sub(i)) {
				m = con(0)
			} else {
				return "success is reported before all bytes were taken", x
			}
		}
		if why := encSeg(x.st, from, c.view(x.st, k), p, i, m.c, writesIn(since(x.st, base)), false); why != "" {
			return why, x
		}
	}
	return "", Exit{}
}

func (c *client) encClose(cc clientCall, k encCand, count func()) (string, Exit) {
	a := cc.a
	for _, x := range a.exits {
		if x.kind != xRet {
			continue
		}
		count()
		for _, e := range x.st.events() {
			if e.Fail && !(failure(a, x) && !success(a, x)) {
				return "a failed write is not reported", x
			}
		}
		if !success(a, x) {
			continue
		}
		if x.st.hist != nil {
			return "closing writes in a loop", x
		}
		if why := encSeg(x.st, c.view(a.entry, k), encView{}, &Rope{}, con(0), 0, writesIn(since(x.st, a.entry)), true); why != "" {
			return "closing: " + why, x
		}
		// closing again, as a deferred call may
		again := x.st.clone()
		again.trace = nil
		for _, y := range c.e.callFn(a.fn, []Value{a.args[0]}, nil, again, 0) {
			if y.kind != xRet {
				continue
			}
			for _, e := range writesIn(y.st.events()) {
				w, _ := e.Args[1].(*Str)
				if w == nil {
					continue
				}
				for _, g := range w.r.canon().segs {
					if g.kind != sLit || strings.Trim(g.lit, "\n") != "" {
						return "closing again adds data", x
					}
				}
			}
		}
	}
	return "", Exit{}
}

// encCands lists the ways in which the encoder's fields may be used.
func (c *client) encCands() []encCand {
	fs := c.fields(c.init)
	var bufs, ints []int
	for i, f := range fs {
		switch f.(type) {
		case *Slice, *Bytes, *Mod:
			bufs = append(bufs, i)
		case *Lin:
			ints = append(ints, i)
		}
	}
	var out []encCand
	for _, b := range bufs {
		for _, i := range append([]int{-1}, ints...) {
			for _, l := range append(ints, -1) {
				if l >= 0 && l == i {
					continue
				}
				for _, u := range []int64{3, 4} {
					k := encCand{b, i, l, u, nil}
					if l >= 0 {
						if n := c.init.simp(fs[l].(*Lin)); n.isConst() && n.c > 0 {
							k.full = n
						}
					}
					if v := c.view(c.init, k); v.ok && v.n == 0 && v.col == 0 {
						out = append(out, k)
					}
				}
			}
		}
	}
	return out
}

func ruleC20(r *Run) {
	c := r.client("base64.NewEncoder", "Write")
	if c.err != "" {
		return
	}
	var writes, closes []clientCall
	for _, cc := range c.calls {
		switch cc.meth {
		case "Write":
			writes = append(writes, cc)
		case "Close":
			closes = append(closes, cc)
		}
	}
	r.floor("client states in which Write was analysed", len(writes), 3)
	r.floor("client states in which Close was analysed", len(closes), 3)
	// everything goes to the destination that was given
	dst := c.e.sinkOf(c.ctor.args[0])
	bad := map[string]bool{}
	for _, cc := range c.calls {
		for _, x := range cc.a.exits {
			for _, e := range x.st.events() {
				if e.Name == "write" && e.Args[0].key() != dst.key() && !bad[e.Name] {
					bad[e.Name] = true
					r.ob("destination", false, e.Fn, e.Pos, "the encoder writes to something other than its destination: %s", short(e.Args[0]))
				}
			}
		}
	}
	best, bestWhy, bestN := -1, "the state of the encoder is not tracked", 0
	var bestX Exit
	var bestA *Analysis
	cands := c.encCands()
	for ci, k := range cands {
		for _, pick := range loopPicks(writes) {
			n := 0
			why, x, an := "", Exit{}, (*Analysis)(nil)
			cnt := func() { n++ }
			for _, cc := range writes {
				if why, x = c.encWrite(cc, k, pick, cnt); why != "" {
					an = cc.a
					break
				}
			}
			if why == "" {
				for _, cc := range closes {
					if why, x = c.encClose(cc, k, cnt); why != "" {
						an = cc.a
						break
					}
				}
			}
			if why == "" {
				r.oblN["stream relation"] += n
				r.oblOK["stream relation"] += n
				r.notes = append(r.notes, fmt.Sprintf("relation used: %s", k))
				return
			}
			if n > bestN || best < 0 {
				best, bestWhy, bestN, bestX, bestA = ci, why, n, x, an
			}
		}
	}
	fn := c.ctor.fn
	pos := fnPos(fn)
	if bestA != nil {
		fn = bestA.fn
		pos = fnPos(fn)
		if bestX.pos.IsValid() {
			pos = bestX.pos
		}
		if bestX.st != nil {
			for t := bestX.st.trace; t != nil; t = t.prev {
				if t.e.Name == "write" {
					pos = t.e.Pos
					break
				}
			}
		}
	}
	r.ob("stream relation", false, fn, pos, "what the encoder passes on is not the base64 of what it was given: %s", bestWhy)
}

func (e *Engine) sinkOf(v Value) Value { return unwrap(v) }

// loopPicks lists the choices of a counter for each loop.
func loopPicks(cs []clientCall) []map[*ssa.BasicBlock]int {
	n := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	for _, cc := range cs {
		for _, rec := range cc.a.log {
			if rec.kind == "loop" {
				if _, ok := n[rec.loop.header]; !ok {
					order = append(order, rec.loop.header)
				}
				n[rec.loop.header] = len(rec.loop.phis)
			}
		}
	}
	out := []map[*ssa.BasicBlock]int{{}}
	for _, b := range order {
		var nx []map[*ssa.BasicBlock]int
		for _, m := range out {
			for j := 0; j < n[b]; j++ {
				c := map[*ssa.BasicBlock]int{b: j}
				for k, v := range m {
					c[k] = v
				}
				nx = append(nx, c)
			}
		}
		out = nx
		if len(out) > 64 {
			out = out[:64]
		}
	}
	return out
}

// ---- C21

func ruleC21(r *Run) {
	c := r.client("base64.NewDecoder", "")
	if c.err != "" {
		return
	}
	n := r.decoderRule(c, true)
	r.floor("exits of Read", n, 4)
}

// decoderRule checks Read of the decoder. If full is false only that it fills
// its buffer is checked.
func (r *Run) decoderRule(c *client, faithful bool) int {
	src := unwrap(c.ctor.args[0])
	n := 0
	for _, cc := range c.calls {
		if cc.meth != "Read" {
			continue
		}
		a := cc.a
		dst, _ := a.args[1].(*Slice)
		if dst == nil {
			continue
		}
		for _, x := range a.exits {
			if x.kind != xRet {
				continue
			}
			n++
			st := x.st
			// what was there before the loop that the path came through
			before, base, okLoop := c.decoded(a, dst, x.st.hist)
			data := &Rope{}
			var failed *Event
			for _, e := range st.events() {
				switch e.Name {
				case "read", "readfull", "readall":
					r.site(e)
					t, _ := e.Args[0].(*Term)
					okSrc := t != nil && t.op == "b64stream" && strings.HasSuffix(t.s, "base64.StdEncoding") && len(t.args) == 1 && t.args[0].key() == src.key()
					if faithful {
						r.ob("source", okSrc, e.Fn, e.Pos, "the data is read from something other than the standard base64 stream of the whole source: %s", short(e.Args[0]))
					}
				}
			}
			for _, e := range since(st, base) {
				switch e.Name {
				case "read", "readfull", "readall":
					if e.Out != nil {
						data = cat(data, e.Out.(*Rope))
					}
					if e.Fail {
						failed = e
					}
				}
			}
			data = cat(before, data)
			cnt, _ := resultOf(x, 0).(*Lin)
			if cnt == nil {
				r.ob("count", false, a.fn, x.pos, "the count is not a number")
				continue
			}
			fills := st.decide(eqPred(cnt, dst.n)) == 1 || failed != nil
			if !faithful {
				r.ob("decoder fills", fills, a.fn, x.pos, "the decoder may return fewer bytes than asked for although the input goes on (exit at %s)", r.leaf(x))
				continue
			}
			okN := okLoop && st.decide(eqPred(cnt, data.len())) == 1
			r.ob("count", okN, a.fn, x.pos, "the count %s that Read returns (exit at %s) is not the number of bytes it got, %s", short(cnt), r.leaf(x), short(data.len()))
			if okN {
				got := c.e.content(st, &Slice{arr: dst.arr, off: dst.off, n: cnt, c: dst.c, elem: dst.elem})
				r.ob("data", sameRope(st, got, data), a.fn, x.pos, "the buffer does not hold what was decoded, in order (exit at %s): %s instead of %s", r.leaf(x), short(got), short(data))
			}
			r.ob("count", st.prove(cnt) && st.prove(dst.n.sub(cnt)), a.fn, x.pos, "the count may exceed the buffer (exit at %s)", r.leaf(x))
			ev := errOf(a, x)
			_, evNil := ev.(Nil)
			isEOF := isSentinel(ev, "io.EOF")
			if failed == nil {
				r.ob("end of input", !isEOF, a.fn, x.pos, "Read reports the end of the input although there was none (exit at %s)", r.leaf(x))
				r.ob("end of input", evNil, a.fn, x.pos, "Read fails although nothing failed (exit at %s)", r.leaf(x))
				r.ob("progress", st.decide(eqPred(cnt, con(0))) != 1 || st.decide(eqPred(dst.n, con(0))) == 1, a.fn, x.pos, "Read returns neither data nor an error for a buffer that is not empty (exit at %s)", r.leaf(x))
				continue
			}
			// an error after some data may be left to the next call, as the
			// stream repeats it
			someData := st.prove(data.len().addc(-1))
			switch failed.Part {
			case "eof":
				r.ob("end of input", isEOF || someData && evNil, a.fn, x.pos, "the end of the input is not reported as such (exit at %s): %s", r.leaf(x), short(ev))
			case "short":
				r.ob("end of input", evNil && someData || isEOF || isSentinel(ev, "io.ErrUnexpectedEOF"), a.fn, x.pos, "the end of the input is reported as %s (exit at %s)", short(ev), r.leaf(x))
			default:
				r.ob("errors", !isEOF, a.fn, x.pos, "an error of the source or malformed text is reported as the end of the input (exit at %s)", r.leaf(x))
				r.ob("errors", evNil && someData || mentions(ev, failed.Err), a.fn, x.pos, "an error of the source or malformed text is not reported (exit at %s): %s", r.leaf(x), short(ev))
			}
		}
	}
	return n
}

// decoded is the content of the buffer at the head of the loop that a path
// through Read came through, if it is all that was decoded so far: an induction
// over the loop's iterations, with one of its variables as the count.
func (c *client) decoded(a *Analysis, dst *Slice, h *HistNode) (*Rope, *State, bool) {
	if h == nil {
		return &Rope{}, nil, true
	}
	if h.prev != nil {
		return &Rope{}, nil, false
	}
	part := func(st *State, n *Lin) *Rope {
		return c.e.content(st, &Slice{arr: dst.arr, off: dst.off, n: st.simp(n), c: dst.c, elem: dst.elem})
	}
	read := func(st, base *State) (*Rope, bool) {
		d, ok := &Rope{}, true
		for _, e := range since(st, base) {
			switch e.Name {
			case "read", "readfull", "readall":
				if e.Out != nil {
					d = cat(d, e.Out.(*Rope))
				}
				ok = ok && !e.Fail
			}
		}
		return d, ok
	}
	var leaves []*LoopLeaf
	for _, rec := range a.log {
		if rec.kind == "loop" && rec.loop.header == h.header {
			leaves = append(leaves, rec.loop)
		}
	}
	for j := range h.hphi {
		ok := len(leaves) > 0
		for _, l := range leaves {
			if l.entry.hist != nil {
				ok = false
				break
			}
			d0, ok0 := read(l.entry, nil)
			d1, ok1 := read(l.back, l.head)
			p, q := phiPos(l.hphi[j], l.ephi[j]), phiPos(l.bphi[j], l.ephi[j])
			if !ok0 || !ok1 || p == nil || q == nil {
				ok = false
				break
			}
			p, q = p.add(d0.len()), q.add(d0.len())
			st := l.back
			ok = sameRope(l.entry, part(l.entry, d0.len()), d0) &&
				st.decide(eqPred(q.sub(p), d1.len())) == 1 &&
				sameRope(st, part(st, q), cat(part(l.head, p), d1))
			if !ok {
				break
			}
		}
		if ok {
			d0, _ := read(leaves[0].entry, nil)
			p := phiPos(h.hphi[j], h.ephi[j])
			if p == nil {
				continue
			}
			return part(h.head, p.add(d0.len())), h.head, true
		}
	}
	return &Rope{}, h.head, false
}

// mentions: the error is, or wraps, the other one.
func mentions(v, err Value) bool {
	if err == nil || v == nil {
		return false
	}
	if v.key() == err.key() {
		return true
	}
	o, ok := err.(*Opq)
	return ok && containsTerm(v, o.t)
}
