package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

type model func(c *callCtx) []Outcome

var models = map[string]model{}

func reg(m model, names ...string) {
	for _, n := range names {
		models[n] = m
	}
}

// zeroMod is the zero value of an external struct type with a model.
func zeroMod(name string) Value {
	switch name {
	case "bytes.Buffer", "strings.Builder":
		return &Mod{kind: "buffer", f: map[string]Value{"r": &Str{&Rope{}}}}
	}
	return nil
}

var fakePkg = types.NewPackage("model", "model")
var fakeTypes = map[string]types.Type{}

// fakeType is the dynamic type of a value that a modelled function returns
// behind an interface.
func fakeType(kind string) types.Type {
	if t := fakeTypes[kind]; t != nil {
		return t
	}
	t := types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, fakePkg, kind, nil), types.NewStruct(nil, nil), nil))
	fakeTypes[kind] = t
	return t
}

func (c *callCtx) modIface(st *State, kind string, m *Mod) Value {
	p := c.e.newObj(st, nil, m, kind)
	return &Iface{fakeType(kind), p}
}

func unwrap(v Value) Value {
	for {
		i, ok := v.(*Iface)
		if !ok {
			return v
		}
		v = i.v
	}
}

// modOf is the model state behind a pointer or interface.
func (c *callCtx) modOf(st *State, v Value) (*Mod, *Ptr) {
	p, ok := unwrap(v).(*Ptr)
	if !ok {
		return nil, nil
	}
	o := st.obj(p.obj)
	if o == nil {
		return nil, nil
	}
	m, _ := c.e.loadPath(st, o.v, p.path, nil).(*Mod)
	return m, p
}

func (c *callCtx) setMod(st *State, p *Ptr, m *Mod) { c.e.store(c.fr, st, p, m, c.pos) }

func sentinel(name string) *Opq { return &Opq{t: mk("global", name), nonnil: true} }

func isSentinel(v Value, name string) bool {
	o, ok := v.(*Opq)
	return ok && o.t.op == "global" && o.t.s == name
}

func (c *callCtx) str(i int) *Rope {
	if i < len(c.args) {
		if s, ok := c.args[i].(*Str); ok {
			return s.r
		}
	}
	return rterm(fresh("ext", "str"))
}

func strBool(op string, lit string, args ...Value) *Bool {
	return &Bool{known: -1, p: &Pred{op: "true", a: mk(op, lit, args...)}}
}

func (c *callCtx) one(v Value) []Outcome { return one(c.st, v) }

// forkOn splits on a predicate.
func (c *callCtx) forkOn(b *Bool) (yes, no *State) {
	if b.known == 1 {
		return c.st, nil
	}
	if b.known == 0 {
		return nil, c.st
	}
	no = c.st.clone()
	yes = c.st
	if !yes.assume(b, true) {
		yes = nil
	}
	if !no.assume(b, false) {
		no = nil
	}
	return
}

// variadic lists the elements of a ...interface{} argument.
func (c *callCtx) variadic(i int) ([]Value, bool) {
	if i >= len(c.args) {
		return nil, true
	}
	s, ok := c.args[i].(*Slice)
	if !ok {
		return nil, false
	}
	return c.e.elems(c.st, s)
}

// ---------------------------------------------------------------------------
// Readers and writers.

// readKind says how a source behaves.
//
//	file:  os.File (a read gives data, or io.EOF, or an error)
//	rand:  the secure random source (fills, or fails)
//	any:   any io.Reader
func (c *callCtx) readKind(src Value) string {
	v := unwrap(src)
	if o, ok := v.(*Opq); ok && o.t.op == "global" && o.t.s == "crypto/rand.Reader" {
		return "rand"
	}
	if m, _ := c.modOf(c.st, src); m != nil {
		return m.kind
	}
	return "any"
}

func (c *callCtx) srcTerm(src Value) Value {
	if m, p := c.modOf(c.st, src); m != nil {
		if id := m.f["id"]; id != nil {
			return id
		}
		_ = p
		return m
	}
	return unwrap(src)
}

// sink identifies what is written to.
func (c *callCtx) sink(w Value) Value {
	if m, _ := c.modOf(c.st, w); m != nil {
		if id := m.f["id"]; id != nil {
			return id
		}
	}
	return unwrap(w)
}

// fill puts n bytes of new data from src at the start of dst.
func (c *callCtx) fill(st *State, op string, src Value, dst *Slice, n *Lin) *Rope {
	if n.isConst() && n.c <= 0 {
		return &Rope{}
	}
	t := fresh(op, "", src)
	r := rtermN(t, n)
	c.e.setContent(c.fr, st, dst, con(0), r, c.pos)
	return r
}

// via follows a buffered reader to its source.
func (c *callCtx) via(src Value) (Value, *Ptr) {
	if m, p := c.modOf(c.st, src); m != nil && m.kind == "bufreader" {
		s, _ := c.via(m.f["src"])
		return s, p
	}
	return src, nil
}

func through(p *Ptr, outs []Outcome) []Outcome {
	for _, o := range outs {
		if o.hlt == nil && o.st.trace != nil {
			o.st.trace.e.Via = p
		}
	}
	return outs
}

// readers: outcomes of one Read(dst).
func (c *callCtx) read(src Value, dst *Slice) []Outcome {
	e := c.e
	if s, p := c.via(src); p != nil {
		return through(p, c.read(s, dst))
	}
	kind := c.readKind(src)
	id := c.srcTerm(src)
	switch kind {
	case "buffer", "breader":
		return c.bufRead(src, dst)
	case "rand":
		return c.randRead(dst)
	}
	var outs []Outcome
	yes, no := c.forkOn(e.known(c.st, eqPred(dst.n, con(0))))
	if yes != nil {
		y := yes.clone()
		y.emit(&Event{Name: "read", Args: []Value{id, con(0), dst.n}, Part: "none", Out: &Rope{}, Pos: c.pos, Fn: c.fr.fn})
		outs = append(outs, Outcome{st: y, ret: tup(con(0), Nil{})})
		if kind == "any" || kind == "b64r" {
			z := yes.clone()
			outs = append(outs, c.failIn(z, "read", "eof", []Value{id, con(0), dst.n}, sentinel("io.EOF"), con(0)))
			z = yes.clone()
			outs = append(outs, c.failIn(z, "read", "err", []Value{id, con(0), dst.n}, nil, con(0)))
		}
	}
	if no == nil {
		return outs
	}
	mk1 := func(lo int64) (*State, *Lin, *Rope) {
		st := no.clone()
		n := lin(freshIv("nread", "", 0, maxLen, id))
		st.addIneq(dst.n.sub(n))
		st.addIneq(n.addc(-lo))
		return st, n, c.fill(st, "read", id, dst, n)
	}
	lo := int64(0)
	if kind == "file" || kind == "decoder" {
		lo = 1
	}
	st, n, r := mk1(lo)
	st.emit(&Event{Name: "read", Args: []Value{id, n, dst.n}, Out: r, Pos: c.pos, Fn: c.fr.fn})
	outs = append(outs, Outcome{st: st, ret: tup(n, Nil{})})
	if kind == "file" || kind == "decoder" {
		st = no.clone()
		outs = append(outs, c.failIn(st, "read", "eof", []Value{id, con(0), dst.n}, sentinel("io.EOF"), con(0)))
		st = no.clone()
		outs = append(outs, c.failIn(st, "read", "err", []Value{id, con(0), dst.n}, nil, con(0)))
		return outs
	}
	st, n, r = mk1(0)
	o := c.failIn(st, "read", "eof", []Value{id, n, dst.n}, sentinel("io.EOF"), n)
	st.trace.e.Out = r
	outs = append(outs, o)
	st, n, r = mk1(0)
	o = c.failIn(st, "read", "err", []Value{id, n, dst.n}, nil, n)
	st.trace.e.Out = r
	outs = append(outs, o)
	if kind == "b64r" { // the text ends within a group
		st, n, r = mk1(0)
		o = c.failIn(st, "read", "cut", []Value{id, n, dst.n}, sentinel("io.ErrUnexpectedEOF"), n)
		st.trace.e.Out = r
		outs = append(outs, o)
	}
	return outs
}

// randRead fills dst from the secure random source.
func (c *callCtx) randRead(dst *Slice) []Outcome {
	bad := c.st.clone()
	n := lin(freshIv("nread", "", 0, maxLen))
	bad.addIneq(dst.n.sub(n).addc(-1))
	c.e.setContent(c.fr, bad, dst, con(0), rtermN(fresh("ext", "failedrand"), dst.n), c.pos)
	ob := c.failIn(bad, "rand", "", nil, nil, n)
	r := c.fill(c.st, "rand", Nil{}, dst, dst.n)
	c.st.emit(&Event{Name: "rand", Out: r, Args: []Value{dst.n}, Pos: c.pos, Fn: c.fr.fn})
	return []Outcome{{st: c.st, ret: tup(dst.n, Nil{})}, ob}
}

// readFull is io.ReadFull.
func (c *callCtx) readFull(src Value, dst *Slice) []Outcome {
	if s, p := c.via(src); p != nil {
		return through(p, c.readFull(s, dst))
	}
	kind := c.readKind(src)
	id := c.srcTerm(src)
	if kind == "rand" {
		return c.randRead(dst)
	}
	if kind == "buffer" || kind == "breader" {
		return c.bufReadFull(src, dst)
	}
	var outs []Outcome
	yes, no := c.forkOn(c.e.known(c.st, eqPred(dst.n, con(0))))
	if yes != nil {
		yes = yes.clone()
		yes.emit(&Event{Name: "readfull", Args: []Value{id, con(0), dst.n}, Part: "none", Out: &Rope{}, Pos: c.pos, Fn: c.fr.fn})
		outs = append(outs, Outcome{st: yes, ret: tup(con(0), Nil{})})
	}
	if no == nil {
		return outs
	}
	st := no.clone()
	st.addIneq(dst.n.addc(-1))
	r := c.fill(st, "read", id, dst, dst.n)
	st.emit(&Event{Name: "readfull", Args: []Value{id, dst.n, dst.n}, Out: r, Pos: c.pos, Fn: c.fr.fn})
	outs = append(outs, Outcome{st: st, ret: tup(dst.n, Nil{})})

	st = no.clone()
	st.addIneq(dst.n.addc(-1))
	outs = append(outs, c.failIn(st, "readfull", "eof", []Value{id, con(0), dst.n}, sentinel("io.EOF"), con(0)))

	part := func(lo int64, what string, err Value) {
		if st := no.clone(); st.prove(dst.n.addc(-1-lo)) || !st.prove(con(lo).sub(dst.n)) {
			n := lin(freshIv("nread", "", 0, maxLen, id))
			st.addIneq(n.addc(-lo))
			st.addIneq(dst.n.sub(n).addc(-1))
			r := c.fill(st, "read", id, dst, n)
			o := c.failIn(st, "readfull", what, []Value{id, n, dst.n}, err, n)
			st.trace.e.Out = r
			outs = append(outs, o)
		}
	}
	part(1, "short", sentinel("io.ErrUnexpectedEOF"))
	part(0, "err", nil)
	if kind == "b64r" { // the text ends within a group
		part(0, "cut", sentinel("io.ErrUnexpectedEOF"))
	}
	return outs
}

// bufRead reads from a reader whose content is known.
func (c *callCtx) bufRead(src Value, dst *Slice) []Outcome {
	m, p := c.modOf(c.st, src)
	r := m.f["r"].(*Str).r
	var outs []Outcome
	yes, no := c.forkOn(c.e.known(c.st, eqPred(r.len(), con(0))))
	if yes != nil {
		yes = yes.clone()
		if yes.decide(eqPred(dst.n, con(0))) == 1 && m.kind == "buffer" {
			outs = append(outs, Outcome{st: yes, ret: tup(con(0), Nil{})})
		} else {
			outs = append(outs, Outcome{st: yes, ret: tup(con(0), sentinel("io.EOF"))})
		}
	}
	if no == nil {
		return outs
	}
	no.addIneq(r.len().addc(-1))
	for _, o := range c.e.minMax(no, []*Lin{dst.n, r.len()}, true) {
		n := o.ret.(*Lin)
		c.e.setContent(c.fr, o.st, dst, con(0), o.st.sliceRope(r, con(0), n), c.pos)
		c.setMod(o.st, p, m.set("r", &Str{o.st.sliceRope(r, n, r.len().sub(n))}))
		outs = append(outs, Outcome{st: o.st, ret: tup(n, Nil{})})
	}
	return outs
}

func (c *callCtx) bufReadFull(src Value, dst *Slice) []Outcome {
	m, p := c.modOf(c.st, src)
	r := m.f["r"].(*Str).r
	var outs []Outcome
	short, full := c.forkOn(c.e.less(c.st, r.len(), dst.n))
	if full != nil {
		full = full.clone()
		c.e.setContent(c.fr, full, dst, con(0), full.sliceRope(r, con(0), dst.n), c.pos)
		c.setMod(full, p, m.set("r", &Str{full.sliceRope(r, dst.n, r.len().sub(dst.n))}))
		outs = append(outs, Outcome{st: full, ret: tup(dst.n, Nil{})})
	}
	if short != nil {
		short = short.clone()
		n := r.len()
		c.e.setContent(c.fr, short, dst, con(0), r, c.pos)
		c.setMod(short, p, m.set("r", &Str{&Rope{}}))
		err := &Opq{t: fresh("err", "short read"), nonnil: true}
		outs = append(outs, Outcome{st: short, ret: tup(n, err)})
	}
	return outs
}

// write is w.Write(r): it succeeds, or fails after some of it.
func (c *callCtx) write(w Value, r *Rope) []Outcome {
	e := c.e
	if m, p := c.modOf(c.st, w); m != nil {
		switch m.kind {
		case "buffer":
			c.setMod(c.st, p, m.set("r", &Str{cat(m.f["r"].(*Str).r, r)}))
			return c.one(tup(r.len(), Nil{}))
		case "hash":
			c.setMod(c.st, p, m.set("r", &Str{cat(m.f["r"].(*Str).r, r)}))
			return c.one(tup(r.len(), Nil{}))
		case "bufw":
			return c.bufWrite(m, p, con(0), func(cc *callCtx) []Outcome { return cc.write(m.f["dst"], r) })
		}
		if d := m.f["dst"]; d != nil { // an encoder that passes on to a buffer
			if bm, bp := c.modOf(c.st, d); bm != nil && bm.kind == "bufw" {
				u := c.sink(w)
				return c.bufWrite(bm, bp, con(0), func(cc *callCtx) []Outcome { return cc.writeTo(u, r) })
			} else if bm != nil && bm.kind == "buffer" {
				x := rterm(fresh("ext", "encoded", c.srcTerm(w), &Str{r}))
				c.setMod(c.st, bp, bm.set("r", &Str{cat(bm.f["r"].(*Str).r, x)}))
			}
		}
	}
	u := unwrap(w)
	if o, ok := u.(*Opq); ok && o.t.op == "global" && (o.t.s == "os.Stdout" || o.t.s == "os.Stderr" || o.t.s == "io.Discard") {
		c.st.emit(&Event{Name: "print", Args: []Value{u, &Str{r}}, In: []Value{&Str{r}}, Pos: c.pos, Fn: c.fr.fn})
		return c.one(tup(r.len(), &Opq{t: fresh("ext", "printerr")}))
	}
	// a writer that the repository itself defines
	if i, ok := w.(*Iface); ok && !isFake(i.typ) {
		if f := e.w.method(i.typ, nil, "Write"); f != nil && len(f.Blocks) > 0 && !e.opaque[f.String()] {
			return e.callFunc(c.fr, c.st, f, []Value{i.v, e.bytes(c.st, r, "arg")}, nil, c.pos)
		}
	}
	if _, ok := u.(Nil); ok {
		c.need("nil dereference", false, "write to a nil writer")
		return nil
	}
	return c.writeTo(c.sink(w), r)
}

// bufWrite writes through a buffer: what was written must be flushed, and the
// buffer keeps its first error.
func (c *callCtx) bufWrite(m *Mod, p *Ptr, zero Value, do func(cc *callCtx) []Outcome) []Outcome {
	ret := func(err Value) Value {
		if zero == nil {
			return err
		}
		return tup(zero, err)
	}
	if _, ok := m.f["err"].(Nil); !ok {
		return c.one(ret(m.f["err"]))
	}
	outs := do(c)
	for _, o := range outs {
		if o.hlt != nil {
			continue
		}
		if o.st.trace != nil {
			o.st.trace.e.Via = p
		}
		err := o.ret
		if t, ok := o.ret.(*Tup); ok {
			err = t.vs[len(t.vs)-1]
		}
		if m2, _ := c.modOf(o.st, p); m2 != nil {
			if _, ok := err.(Nil); !ok {
				c.setMod(o.st, p, m2.set("err", err))
			} else {
				o.st.emit(&Event{Name: "buffered", Args: []Value{m.f["id"]}, Via: p, Pos: c.pos, Fn: c.fr.fn})
			}
		}
	}
	return outs
}

func (c *callCtx) writeTo(u Value, r *Rope) []Outcome {
	bad := c.st.clone()
	n := lin(freshIv("nwritten", "", 0, maxLen))
	bad.addIneq(r.len().sub(n))
	ob := c.failIn(bad, "write", "", []Value{u, &Str{r}, n}, nil, n)
	c.st.emit(&Event{Name: "write", Args: []Value{u, &Str{r}, r.len()}, Pos: c.pos, Fn: c.fr.fn})
	return []Outcome{{st: c.st, ret: tup(r.len(), Nil{})}, ob}
}

func isFake(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() == fakePkg
}

// closer is x.Close() on something whose close may fail.
func (c *callCtx) closer(x Value) []Outcome {
	u := unwrap(x)
	if _, ok := u.(Nil); ok {
		return c.one(c.newErr("close of nil"))
	}
	u = c.sink(x)
	if m, _ := c.modOf(c.st, x); m != nil && m.f["dst"] != nil {
		if bm, bp := c.modOf(c.st, m.f["dst"]); bm != nil && bm.kind == "bufw" {
			return c.bufWrite(bm, bp, nil, func(cc *callCtx) []Outcome {
				o := cc.fail("close", []Value{u})
				cc.event(cc.st, "close", u)
				return []Outcome{{st: cc.st, ret: Nil{}}, o}
			})
		}
	}
	o := c.fail("close", []Value{u})
	c.event(c.st, "close", u)
	return []Outcome{{st: c.st, ret: Nil{}}, o}
}

// openFile is os.OpenFile.
func (c *callCtx) openFile(path *Rope, flags, perm *Lin) []Outcome {
	args := []Value{&Str{path}, flags, perm}
	bad := c.fail("open", args, Nil{})
	id := fresh("file", "", &Str{path})
	p := c.e.newObj(c.st, nil, &Mod{kind: "file", f: map[string]Value{"path": &Str{path}, "id": id, "flags": flags, "perm": perm}}, "file")
	c.st.emit(&Event{Name: "open", Args: args, Ret: p, Out: id, Pos: c.pos, Fn: c.fr.fn})
	return []Outcome{{st: c.st, ret: tup(p, Nil{})}, bad}
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (c *callCtx) readFile(path *Rope) []Outcome {
	bad := c.fail("readfile", []Value{&Str{path}}, &Slice{off: con(0), n: con(0), c: con(0), elem: types.Typ[types.Uint8]})
	t := fresh("file", "", &Str{path})
	c.st.emit(&Event{Name: "readfile", Args: []Value{&Str{path}}, Out: rterm(t), Pos: c.pos, Fn: c.fr.fn})
	return []Outcome{{st: c.st, ret: tup(c.e.bytes(c.st, rterm(t), "file"), Nil{})}, bad}
}

func (c *callCtx) writeFile(path, data *Rope, perm *Lin) []Outcome {
	args := []Value{&Str{path}, &Str{data}, perm}
	bad := c.fail("writefile", args)
	c.event(c.st, "writefile", args...)
	return []Outcome{{st: c.st, ret: Nil{}}, bad}
}

// effect is a function with an outside effect that may fail.
func effect(name string) model {
	return func(c *callCtx) []Outcome {
		bad := c.fail(name, c.args)
		c.event(c.st, name, c.args...)
		return []Outcome{{st: c.st, ret: Nil{}}, bad}
	}
}

// sprintf formats, keeping string operands apart.
func (c *callCtx) sprintf(f *Rope, args []Value) *Rope {
	lit, ok := f.lit()
	if !ok {
		var in []Value
		for _, a := range args {
			in = append(in, c.e.resolve(c.st, a, 0))
		}
		return rterm(mk("fmt", "", append([]Value{&Str{f}}, in...)...))
	}
	var out []*Rope
	ai := 0
	for i := 0; i < len(lit); i++ {
		j := strings.IndexByte(lit[i:], '%')
		if j < 0 {
			out = append(out, rlit(lit[i:]))
			break
		}
		out = append(out, rlit(lit[i:i+j]))
		i += j + 1
		st := i
		for i < len(lit) && strings.IndexByte("+-# 0123456789.*", lit[i]) >= 0 {
			i++
		}
		if i >= len(lit) {
			break
		}
		if lit[i] == '%' {
			out = append(out, rlit("%"))
			continue
		}
		if ai >= len(args) {
			out = append(out, rlit("%!"+string(lit[i])+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		out = append(out, c.fmtArg(lit[st:i+1], a))
	}
	return cat(out...)
}

func (c *callCtx) fmtArg(verb string, a Value) *Rope {
	u := unwrap(a)
	if verb == "s" || verb == "v" {
		switch x := u.(type) {
		case *Str:
			return x.r
		case *Slice:
			if verb == "s" && x.elem != nil && isByte(x.elem) {
				return c.e.content(c.st, x)
			}
		case *Bytes:
			if verb == "s" {
				return x.r
			}
		}
	}
	if verb == "d" || verb == "v" {
		if l, ok := u.(*Lin); ok && l.isConst() {
			return rlit(fmt.Sprint(l.c))
		}
	}
	return rterm(mk("fmt", verb, c.e.resolve(c.st, u, 0)))
}

// emitText is fmt.Fprint*(w, ...) with the text r.
func (c *callCtx) emitText(w Value, r *Rope, args []Value) []Outcome {
	u := unwrap(w)
	if o, ok := u.(*Opq); ok && o.t.op == "global" {
		var in []Value
		for _, a := range args {
			in = append(in, c.e.resolve(c.st, a, 0))
		}
		c.st.emit(&Event{Name: "print", Args: []Value{u, &Str{r}}, In: in, Pos: c.pos, Fn: c.fr.fn})
		return c.one(tup(lin(freshIv("ext", "n", 0, maxLen)), &Opq{t: fresh("ext", "printerr")}))
	}
	return c.write(w, r)
}

func (c *callCtx) println(args []Value) *Rope {
	var out []*Rope
	for i, a := range args {
		if i > 0 {
			out = append(out, rlit(" "))
		}
		out = append(out, c.fmtArg("v", a))
	}
	return cat(append(out, rlit("\n"))...)
}

func (c *callCtx) print(args []Value) *Rope {
	var out []*Rope
	for _, a := range args {
		out = append(out, c.fmtArg("v", a))
	}
	return cat(out...)
}

// bigEndianOf: 1 big, 0 little, -1 unknown.
func orderOf(v Value, name string) int {
	s := name
	if i, ok := v.(*Iface); ok {
		s += i.typ.String()
	}
	switch {
	case strings.Contains(s, "bigEndian"):
		return 1
	case strings.Contains(s, "littleEndian"):
		return 0
	}
	return -1
}

// byteOf is byte k (from the least significant) of v.
func byteOf(v *Lin, k int) *Lin {
	if v.isConst() {
		return con(v.c >> uint(8*k) & 255)
	}
	if k == 0 {
		if lo, hi := v.iv(); lo >= 0 && hi <= 255 {
			return v
		}
	}
	if b := digit(v, k); b != nil {
		return b
	}
	if lo, hi := v.iv(); lo >= 0 && k < 7 && hi < 1<<uint(8*k) {
		return con(0)
	}
	return lin(mkIv("byteof", fmt.Sprint(k), 0, 255, v))
}

// digit is byte k of a number that was put together from bytes.
func digit(v *Lin, k int) *Lin {
	if t := v.single(); t != nil && t.op == "be" {
		if r, ok := t.args[0].(*Rope); ok && fmt.Sprint(r.len()) == t.s && int64(k) < r.len().c {
			return (&State{}).byteAt(r, con(r.len().c-1-int64(k)))
		}
	}
	if v.c != 0 || k > 7 {
		return nil
	}
	b := con(0)
	used := map[int64]bool{}
	for _, x := range v.ts {
		if x.t.lo < 0 || x.t.hi > 255 || used[x.k] {
			return nil
		}
		used[x.k] = true
		j := 0
		for j < 7 && x.k != 1<<uint(8*j) {
			j++
		}
		if j == 7 && x.k != 1<<56 {
			return nil
		}
		if j == k {
			b = lin(x.t)
		}
	}
	return b
}

func zeros(n int) []*Lin {
	var out []*Lin
	for i := 0; i < n; i++ {
		out = append(out, con(0))
	}
	return out
}

// digits are the n bytes of a number that was put together from bytes, the
// lowest first.
func digits(v *Lin, n int) []*Lin {
	if v.isConst() && v.c < 0 {
		return nil
	}
	var out []*Lin
	for k := 0; k < n; k++ {
		d := con(0)
		if v.isConst() {
			d = con(v.c >> uint(8*k) & 255)
		} else if d = digit(v, k); d == nil {
			if k > 0 && v.single() != nil && v.single().op == "be" {
				d = con(0)
			} else {
				return nil
			}
		}
		out = append(out, d)
	}
	return out
}

// joinDigits is the sum of two numbers that have no byte in common.
func joinDigits(a, b *Lin, n int) *Lin {
	p, q := digits(a, n), digits(b, n)
	if p == nil || q == nil {
		return nil
	}
	var out []*Lin
	for i := range p {
		switch {
		case p[i].isConst() && p[i].c == 0:
			out = append(out, q[i])
		case q[i].isConst() && q[i].c == 0:
			out = append(out, p[i])
		default:
			return nil
		}
	}
	return intOf(out)
}

// isQuotient: v is what is left of a number without its lowest bytes.
func isQuotient(v *Lin) bool {
	t := v.single()
	if t == nil || t.op != "div" || len(t.args) != 2 {
		return false
	}
	d, ok := t.args[1].(*Lin)
	return ok && d.isConst() && (d.c == 1<<8 || d.c == 1<<16 || d.c == 1<<24 || d.c == 1<<32 || d.c == 1<<40 || d.c == 1<<48 || d.c == 1<<56)
}

// lowByte is a number modulo 256.
func lowByte(v *Lin) *Lin {
	if t := v.single(); t != nil && t.op == "div" && len(t.args) == 2 {
		x, ok := t.args[0].(*Lin)
		d, ok2 := t.args[1].(*Lin)
		if ok && ok2 && d.isConst() {
			for k := 1; k < 8; k++ {
				if d.c == 1<<uint(8*k) {
					return byteOf(x, k)
				}
			}
		}
	}
	return byteOf(v, 0)
}

func putInt(v *Lin, n int, big bool) *Rope {
	r := &Rope{}
	for i := 0; i < n; i++ {
		k := i
		if big {
			k = n - 1 - i
		}
		r.segs = append(r.segs, Seg{kind: sCell, cell: byteOf(v, k)})
	}
	return r.norm()
}

func (c *callCtx) getInt(r *Rope, n int, big bool) *Lin {
	var cells []*Lin
	for i := 0; i < n; i++ {
		k := i
		if big {
			k = n - 1 - i
		}
		cells = append(cells, c.st.byteAt(r, con(int64(k)))) // least significant first
	}
	return intOf(cells)
}

// intOf is the integer with the given bytes, least significant first.
func intOf(cells []*Lin) *Lin {
	n := len(cells)
	if t := cells[0].single(); t != nil && t.op == "byteof" {
		same := true
		v := t.args[0].(*Lin)
		for i, x := range cells {
			if !x.equal(byteOf(v, i)) {
				same = false
			}
		}
		if lo, hi := v.iv(); same && lo >= 0 && (n == 8 || hi < 1<<uint(8*n)) {
			return v
		}
	}
	for n > 4 && cells[n-1].isConst() && cells[n-1].c == 0 {
		n--
	}
	if n > 4 {
		n = len(cells)
	}
	if n <= 4 {
		r := con(0)
		for i, x := range cells[:n] {
			r = r.add(x.scale(1 << uint(8*i)))
		}
		return r
	}
	all := true
	v := int64(0)
	for i := n - 1; i >= 0; i-- {
		if !cells[i].isConst() {
			all = false
			break
		}
		v = v<<8 | cells[i].c
	}
	if all && v >= 0 && v < maxI {
		return con(v)
	}
	var r Rope
	for i := n - 1; i >= 0; i-- {
		r.segs = append(r.segs, Seg{kind: sCell, cell: cells[i]})
	}
	return lin(mkIv("be", fmt.Sprint(n), 0, maxI, r.norm()))
}

// encodeFixed is the encoding/binary encoding of v.
func (c *callCtx) encodeFixed(v Value, t types.Type, big bool) (*Rope, bool) {
	if p, ok := v.(*Ptr); ok {
		pt, ok := under(t).(*types.Pointer)
		if !ok {
			return nil, false
		}
		return c.encodeFixed(c.e.load(c.st, p, pt.Elem()), pt.Elem(), big)
	}
	switch x := v.(type) {
	case *Lin:
		n := basicSize(t)
		if n == 0 {
			return nil, false
		}
		return putInt(x, n, big), true
	case *Bytes:
		return x.r, true
	case *Slice:
		if x.elem != nil && isByte(x.elem) {
			return c.e.content(c.st, x), true
		}
	case *Struct:
		s, ok := under(t).(*types.Struct)
		if !ok {
			return nil, false
		}
		var rs []*Rope
		for i, f := range x.fs {
			r, ok := c.encodeFixed(f, s.Field(i).Type(), big)
			if !ok {
				return nil, false
			}
			rs = append(rs, r)
		}
		return cat(rs...), true
	}
	return nil, false
}

// decodeFixed is the value of type t with the given encoding. It names a field
// that reflection cannot set.
func (c *callCtx) decodeFixed(r *Rope, t types.Type, big bool) (v Value, unexported string) {
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
		return nil, ""
	}
	if n := basicSize(t); n > 0 {
		return c.getInt(r, n, big), ""
	}
	switch u := under(t).(type) {
	case *types.Array:
		if isByte(u.Elem()) {
			return &Bytes{r}, ""
		}
	case *types.Struct:
		s := &Struct{typ: t}
		off := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			n := fixedSize(f.Type())
			if n == 0 {
				return nil, ""
			}
			x, bad := c.decodeFixed(c.st.sliceRope(r, con(off), con(n)), f.Type(), big)
			if x == nil {
				return nil, ""
			}
			if bad != "" {
				unexported = bad
			}
			if !f.Exported() {
				unexported = f.Name()
			}
			s.fs = append(s.fs, x)
			off += n
		}
		return s, unexported
	}
	return nil, ""
}

func basicSize(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8, types.Bool:
		return 1
	case types.Uint16, types.Int16:
		return 2
	case types.Uint32, types.Int32:
		return 4
	case types.Uint64, types.Int64:
		return 8
	}
	return 0
}

// fixedSize of a type for encoding/binary.
func fixedSize(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		return int64(basicSize(t))
	case *types.Array:
		return u.Len() * fixedSize(u.Elem())
	case *types.Struct:
		sum := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if n == 0 {
				return 0
			}
			sum += n
		}
		return sum
	}
	return 0
}

// b64len is the length of the standard encoding of n bytes.
func b64len(n *Lin, enc string) *Lin {
	if n.isConst() {
		if strings.Contains(enc, "Raw") {
			return con((n.c*8 + 5) / 6)
		}
		return con((n.c + 2) / 3 * 4)
	}
	return lin(mkIv("b64len", enc, 0, 2*maxLen, n))
}

func encName(v Value) string {
	if o, ok := v.(*Opq); ok {
		return o.t.String()
	}
	return "unknown"
}

func b64enc(enc string, r *Rope) *Rope {
	return rtermN(mk("b64enc", enc, r.canon()), b64len(r.len(), enc))
}

func (c *callCtx) b64dec(st *State, enc string, r *Rope) *Rope {
	n := r.norm()
	if len(n.segs) == 1 && n.segs[0].kind == sSub && n.segs[0].t.op == "b64enc" && n.segs[0].t.s == enc && n.key() == rterm(n.segs[0].t).key() {
		return n.segs[0].t.args[0].(*Rope)
	}
	t := mk("b64dec", enc, r.canon())
	out := rterm(t)
	// 4 characters give at most 3 bytes; nothing gives nothing
	st.addIneq(r.len().sub(out.len()))
	return out
}

// newBytesAppend is append(dst, r...) for functions with an out argument.
func (c *callCtx) appendOut(st *State, dst Value, r *Rope) Value {
	s, ok := dst.(*Slice)
	if !ok || s.arr == nil {
		return c.e.bytes(st, r, "out")
	}
	return c.e.appendRope(c.fr, st, s, r, c.pos)
}

func (c *callCtx) ptrRope(i int) *Rope {
	if p, ok := c.args[i].(*Ptr); ok {
		c.need("nil dereference", true, "")
		return c.e.content(c.st, p)
	}
	if _, ok := c.args[i].(Nil); ok {
		c.need("nil dereference", false, "nil array pointer passed to "+c.name)
	}
	return c.e.content(c.st, c.args[i])
}

func init() {
	// ---- os, io
	reg(func(c *callCtx) []Outcome { return c.openFile(c.str(0), con(0), con(0)) }, "os.Open")
	reg(func(c *callCtx) []Outcome {
		return c.openFile(c.str(0), con(oRDWR|oCREATE|oTRUNC), con(0666))
	}, "os.Create")
	reg(func(c *callCtx) []Outcome { return c.openFile(c.str(0), c.lin(1), c.lin(2)) }, "os.OpenFile")
	reg(func(c *callCtx) []Outcome { return c.readFile(c.str(0)) }, "os.ReadFile", "io/ioutil.ReadFile")
	reg(func(c *callCtx) []Outcome { return c.writeFile(c.str(0), c.rope(1), c.lin(2)) }, "os.WriteFile", "io/ioutil.WriteFile")
	for _, n := range []string{"Remove", "RemoveAll", "Rename", "Chmod", "Chown", "Link", "Symlink", "Mkdir", "MkdirAll", "Truncate", "Chtimes", "Setenv", "Unsetenv", "Chdir"} {
		reg(effect("os."+n), "os."+n)
	}
	reg(effect("file.Chmod"), "(*os.File).Chmod")
	reg(effect("file.Truncate"), "(*os.File).Truncate")
	reg(effect("file.Sync"), "(*os.File).Sync")
	reg(func(c *callCtx) []Outcome {
		if _, ok := c.args[0].(Nil); ok {
			return c.one(tup(con(0), c.newErr("nil file")))
		}
		return c.read(c.args[0], c.slice(1))
	}, "(*os.File).Read")
	reg(func(c *callCtx) []Outcome { return c.write(c.args[0], c.rope(1)) }, "(*os.File).Write", "(*os.File).WriteString")
	reg(func(c *callCtx) []Outcome { return c.closer(c.args[0]) }, "(*os.File).Close")
	reg(func(c *callCtx) []Outcome {
		if m, _ := c.modOf(c.st, c.args[0]); m != nil && m.kind == "file" {
			return c.one(m.f["path"])
		}
		return c.one(&Str{rterm(fresh("ext", "name"))})
	}, "(*os.File).Name")
	reg(func(c *callCtx) []Outcome {
		bad := c.fail("seek", c.args, con(0))
		c.event(c.st, "seek", c.srcTerm(c.args[0]))
		return []Outcome{{st: c.st, ret: tup(lin(freshIv("ext", "seek", 0, maxLen)), Nil{})}, bad}
	}, "(*os.File).Seek")
	reg(func(c *callCtx) []Outcome {
		id := c.srcTerm(c.args[0])
		if s, ok := c.args[0].(*Str); ok {
			id = s
		}
		bad := c.fail("stat", []Value{id}, Nil{})
		fi := &Opq{t: fresh("fileinfo", "", id), nonnil: true}
		c.event(c.st, "stat", id)
		return []Outcome{{st: c.st, ret: tup(fi, Nil{})}, bad}
	}, "(*os.File).Stat", "os.Stat", "os.Lstat")
	reg(func(c *callCtx) []Outcome {
		if o, ok := c.args[0].(*Opq); ok {
			return c.one(lin(mkIv("fsize", "", 0, 1<<62, o.t)))
		}
		return c.one(lin(freshIv("ext", "size", 0, maxLen)))
	}, "invoke.Size")
	reg(func(c *callCtx) []Outcome { // FileInfo and error methods
		if o, ok := c.args[0].(*Opq); ok {
			return c.one(c.e.fromTerm(c.st, c.sig.Results().At(0).Type(), mk("method", c.name, o.t)))
		}
		return c.one(c.e.fromTerm(c.st, c.sig.Results().At(0).Type(), fresh("ext", c.name)))
	}, "invoke.Mode", "invoke.IsDir", "invoke.ModTime", "invoke.Name", "invoke.Error", "(io/fs.FileMode).IsRegular", "(io/fs.FileMode).Perm", "(io/fs.FileMode).IsDir")
	reg(func(c *callCtx) []Outcome {
		var code Value = con(0)
		if len(c.args) > 0 {
			code = c.args[0]
		}
		c.event(c.st, "exit", code)
		return []Outcome{{hlt: &Exit{xHalt, c.st, code, c.pos}}}
	}, "os.Exit")
	logFatal := func(c *callCtx) []Outcome {
		in := c.resolveAll()
		c.st.emit(&Event{Name: "print", Args: append([]Value{sentinel("os.Stderr")}, c.args...), In: in, Pos: c.pos, Fn: c.fr.fn})
		c.event(c.st, "exit", con(1))
		return []Outcome{{hlt: &Exit{xHalt, c.st, con(1), c.pos}}}
	}
	reg(logFatal, "log.Fatal", "log.Fatalf", "log.Fatalln")
	reg(func(c *callCtx) []Outcome {
		in := c.resolveAll()
		c.st.emit(&Event{Name: "print", Args: append([]Value{sentinel("os.Stderr")}, c.args...), In: in, Pos: c.pos, Fn: c.fr.fn})
		return c.one(Nil{})
	}, "log.Print", "log.Printf", "log.Println")

	reg(func(c *callCtx) []Outcome {
		if m, _ := c.modOf(c.st, c.args[0]); m == nil || m.kind != "b64r" {
			if outs := c.repoMethod(c.args[0], "Read", c.args[1]); outs != nil {
				return outs
			}
		}
		return c.read(c.args[0], c.slice(1))
	}, "invoke.Read", "model.Read")
	reg(func(c *callCtx) []Outcome { return c.write(c.args[0], c.rope(1)) }, "invoke.Write", "invoke.WriteString")
	reg(func(c *callCtx) []Outcome { return c.closer(c.args[0]) }, "invoke.Close")
	reg(func(c *callCtx) []Outcome { return c.readFull(c.args[0], c.slice(1)) }, "io.ReadFull")
	reg(func(c *callCtx) []Outcome {
		if c.lin(2).equal(c.slice(1).n) {
			return c.readFull(c.args[0], c.slice(1))
		}
		return c.external(false)
	}, "io.ReadAtLeast")
	reg(func(c *callCtx) []Outcome { return c.write(c.args[0], c.str(1)) }, "io.WriteString")
	reg(func(c *callCtx) []Outcome { // io.ReadAll
		id := c.srcTerm(c.args[0])
		if m, p := c.modOf(c.st, c.args[0]); m != nil && (m.kind == "buffer" || m.kind == "breader") {
			r := m.f["r"].(*Str).r
			c.setMod(c.st, p, m.set("r", &Str{&Rope{}}))
			return c.one(tup(c.e.bytes(c.st, r, "readall"), Nil{}))
		}
		bad := c.fail("readall", []Value{id}, &Slice{off: con(0), n: con(0), c: con(0), elem: types.Typ[types.Uint8]})
		t := fresh("read", "all", id)
		c.st.emit(&Event{Name: "readall", Args: []Value{id}, Out: rterm(t), Pos: c.pos, Fn: c.fr.fn})
		return []Outcome{{st: c.st, ret: tup(c.e.bytes(c.st, rterm(t), "readall"), Nil{})}, bad}
	}, "io.ReadAll", "io/ioutil.ReadAll")
	reg(func(c *callCtx) []Outcome { // io.Copy
		if m, p := c.modOf(c.st, c.args[1]); m != nil && (m.kind == "buffer" || m.kind == "breader") {
			r := m.f["r"].(*Str).r
			c.setMod(c.st, p, m.set("r", &Str{&Rope{}}))
			return c.write(c.args[0], r)
		}
		id := c.srcTerm(c.args[1])
		bad := c.fail("readall", []Value{id}, con(0))
		t := rterm(fresh("read", "all", id))
		c.st.emit(&Event{Name: "readall", Args: []Value{id}, Out: t, Pos: c.pos, Fn: c.fr.fn})
		return append(c.write(c.args[0], t), bad)
	}, "io.Copy")

	// ---- bytes, bufio
	reg(func(c *callCtx) []Outcome {
		var r *Rope
		if s, ok := c.args[0].(*Str); ok {
			r = s.r
		} else {
			r = c.rope(0)
		}
		kind := "buffer"
		if strings.HasSuffix(c.name, "NewReader") {
			kind = "breader"
		}
		return c.one(c.e.newObj(c.st, nil, &Mod{kind: kind, f: map[string]Value{"r": &Str{r}}}, kind))
	}, "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader")
	buf := func(f func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome) model {
		return func(c *callCtx) []Outcome {
			m, p := c.modOf(c.st, c.args[0])
			if m == nil || m.f["r"] == nil {
				return c.external(false)
			}
			s, ok := m.f["r"].(*Str)
			if !ok {
				return c.external(false)
			}
			return f(c, m, p, s.r)
		}
	}
	bufNames := func(ms ...string) []string {
		var r []string
		for _, m := range ms {
			for _, t := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(*bytes.Reader).", "(*strings.Reader)."} {
				r = append(r, t+m)
			}
		}
		return r
	}
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome { return c.write(c.args[0], c.rope(1)) }), bufNames("Write", "WriteString")...)
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome {
		c.setMod(c.st, p, m.set("r", &Str{cat(r, rcell(c.lin(1)))}))
		return c.one(Nil{})
	}), bufNames("WriteByte")...)
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome {
		x := rterm(mk("runestr", "", c.lin(1)))
		if l := c.lin(1); l.isConst() {
			x = rlit(string(rune(l.c)))
		}
		c.setMod(c.st, p, m.set("r", &Str{cat(r, x)}))
		return c.one(tup(x.len(), Nil{}))
	}), bufNames("WriteRune")...)
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome { return c.bufRead(c.args[0], c.slice(1)) }), bufNames("Read")...)
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome { return c.one(c.e.bytes(c.st, r, "buffer")) }), bufNames("Bytes")...)
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome { return c.one(&Str{r}) }), bufNames("String")...)
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome { return c.one(r.len()) }), bufNames("Len")...)
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome {
		c.setMod(c.st, p, m.set("r", &Str{&Rope{}}))
		return c.one(Nil{})
	}), bufNames("Reset")...)
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome {
		if l := c.st.simp(r.len()); l.isConst() && l.c == 0 {
			return c.one(tup(con(0), Nil{}))
		}
		outs := c.write(c.args[1], r)
		for _, o := range outs {
			left := &Rope{}
			if t, ok := o.ret.(*Tup); !ok || !isNilValue(o.st, t.vs[1]) {
				n := lin(freshIv("ext", "unwritten", 0, maxLen))
				o.st.addIneq(r.len().sub(n))
				left = rtermN(fresh("ext", "unwritten", &Str{r}), n)
			}
			c.setMod(o.st, p, m.set("r", &Str{left}))
		}
		return outs
	}), bufNames("WriteTo")...)
	reg(func(c *callCtx) []Outcome {
		n := c.lin(1)
		c.need("make size", c.st.prove(n) && c.st.prove(con(maxLen<<5).sub(n)), "a buffer is grown by "+n.String()+", which may be negative or more than could be allocated")
		if m, p := c.modOf(c.st, c.args[0]); m != nil && m.kind == "buffer" {
			c.setMod(c.st, p, m.set("size", n))
		}
		return c.one(Nil{})
	}, bufNames("Grow")...)
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome {
		var outs []Outcome
		for _, o := range c.e.minMax(c.st, []*Lin{c.lin(1), r.len()}, true) {
			n := o.ret.(*Lin)
			x := o.st.sliceRope(r, con(0), n)
			c.setMod(o.st, p, m.set("r", &Str{o.st.sliceRope(r, n, r.len().sub(n))}))
			outs = append(outs, Outcome{st: o.st, ret: c.e.bytes(o.st, x, "next")})
		}
		return outs
	}), "(*bytes.Buffer).Next")
	reg(buf(func(c *callCtx, m *Mod, p *Ptr, r *Rope) []Outcome {
		yes, no := c.forkOn(c.e.known(c.st, eqPred(r.len(), con(0))))
		var outs []Outcome
		if yes != nil {
			outs = append(outs, Outcome{st: yes.clone(), ret: tup(con(0), sentinel("io.EOF"))})
		}
		if no != nil {
			no.addIneq(r.len().addc(-1))
			b := no.byteAt(r, con(0))
			c.setMod(no, p, m.set("r", &Str{no.sliceRope(r, con(1), r.len().addc(-1))}))
			outs = append(outs, Outcome{st: no, ret: tup(b, Nil{})})
		}
		return outs
	}), bufNames("ReadByte")...)

	// scanning lines
	reg(func(c *callCtx) []Outcome {
		r := c.contentOf(c.args[0])
		p := c.e.newObj(c.st, nil, &Mod{kind: "scanner", f: map[string]Value{"r": &Str{r}, "tok": &Str{&Rope{}}}}, "scanner")
		return c.one(p)
	}, "bufio.NewScanner")
	reg(func(c *callCtx) []Outcome {
		m, p := c.modOf(c.st, c.args[0])
		if m == nil || m.kind != "scanner" {
			return c.external(false)
		}
		no := c.st.clone()
		c.setMod(no, p, m.set("tok", &Str{&Rope{}}))
		t := fresh("line", "", m.f["r"])
		c.setMod(c.st, p, m.set("tok", &Str{rterm(t)}))
		c.event(c.st, "scanline", t)
		return []Outcome{{st: c.st, ret: bconst(true)}, {st: no, ret: bconst(false)}}
	}, "(*bufio.Scanner).Scan")
	reg(func(c *callCtx) []Outcome {
		m, _ := c.modOf(c.st, c.args[0])
		if m == nil || m.kind != "scanner" {
			return c.external(false)
		}
		t := m.f["tok"].(*Str)
		if strings.HasSuffix(c.name, "Bytes") {
			return c.one(c.e.bytes(c.st, t.r, "token"))
		}
		return c.one(t)
	}, "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes")
	reg(func(c *callCtx) []Outcome {
		st := c.st.clone()
		err := c.newErr("scan")
		st.emit(&Event{Name: "scan", Fail: true, Err: err, Pos: c.pos, Fn: c.fr.fn})
		return []Outcome{{st: c.st, ret: Nil{}}, {st: st, ret: err}}
	}, "(*bufio.Scanner).Err")
	reg(func(c *callCtx) []Outcome { return c.one(Nil{}) }, "(*bufio.Scanner).Buffer")
	reg(func(c *callCtx) []Outcome {
		f := map[string]Value{"src": c.args[0], "id": c.srcTerm(c.args[0])}
		if m, _ := c.modOf(c.st, c.args[0]); m != nil && m.f["r"] != nil {
			f["r"] = m.f["r"]
		}
		if len(c.args) > 1 {
			f["size"] = c.lin(1)
		}
		p := c.e.newObj(c.st, nil, &Mod{kind: "bufreader", f: f}, "bufreader")
		c.st.emit(&Event{Name: "bufin", Args: []Value{f["id"]}, Via: p, Pos: c.pos, Fn: c.fr.fn})
		return c.one(p)
	}, "bufio.NewReader", "bufio.NewReaderSize")
	reg(func(c *callCtx) []Outcome { return c.read(c.args[0], c.slice(1)) }, "(*bufio.Reader).Read")
	reg(func(c *callCtx) []Outcome {
		tmp := c.e.bytes(c.st, rzero(con(1)), "byte")
		var outs []Outcome
		for _, o := range c.readFull(c.args[0], tmp) {
			t := o.ret.(*Tup)
			if _, ok := t.vs[1].(Nil); ok {
				outs = append(outs, Outcome{st: o.st, ret: tup(o.st.byteAt(c.e.content(o.st, tmp), con(0)), Nil{})})
			} else {
				outs = append(outs, Outcome{st: o.st, ret: tup(con(0), t.vs[1])})
			}
		}
		return outs
	}, "(*bufio.Reader).ReadByte")
	reg(func(c *callCtx) []Outcome {
		ret := func(st *State, r *Rope) Value {
			if strings.HasSuffix(c.name, "ReadString") {
				return &Str{r}
			}
			return c.e.bytes(st, r, "line")
		}
		src, p := c.via(c.args[0])
		delim := c.lin(1)
		if m, _ := c.modOf(c.st, src); m == nil && p == nil || !delim.isConst() {
			return c.external(true)
		}
		id := c.srcTerm(src)
		args := []Value{id, delim}
		t := fresh("line", "", id)
		var outs []Outcome
		for _, part := range []string{"eof", "err"} {
			st := c.st.clone()
			var err Value
			if part == "eof" {
				err = sentinel("io.EOF")
			}
			rest := rterm(fresh("line", "", id))
			o := c.failIn(st, "readline", part, args, err, ret(st, rest))
			st.trace.e.Out = rest
			outs = append(outs, o)
		}
		r := cat(rterm(t), rcell(delim))
		c.st.emit(&Event{Name: "readline", Args: args, Out: r, Pos: c.pos, Fn: c.fr.fn})
		outs = append(outs, Outcome{st: c.st, ret: tup(ret(c.st, r), Nil{})})
		return through(p, outs)
	}, "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadSlice")
	// buffered output goes where it is going at once; that it is flushed is
	// recorded
	reg(func(c *callCtx) []Outcome {
		m := &Mod{kind: "bufw", f: map[string]Value{"dst": c.args[0], "id": c.sink(c.args[0]), "err": Nil{}}}
		if len(c.args) > 1 {
			m.f["size"] = c.lin(1)
		}
		return c.one(c.e.newObj(c.st, nil, m, "bufw"))
	}, "bufio.NewWriter", "bufio.NewWriterSize")
	reg(func(c *callCtx) []Outcome { return c.write(c.args[0], c.rope(1)) }, "(*bufio.Writer).Write", "(*bufio.Writer).WriteString")
	reg(func(c *callCtx) []Outcome {
		outs := c.write(c.args[0], rcell(c.lin(1)))
		for i, o := range outs {
			if t, ok := o.ret.(*Tup); ok {
				outs[i].ret = t.vs[1]
			}
		}
		return outs
	}, "(*bufio.Writer).WriteByte")
	reg(func(c *callCtx) []Outcome {
		m, p := c.modOf(c.st, c.args[0])
		if m == nil || m.kind != "bufw" {
			return c.external(true)
		}
		if _, ok := m.f["err"].(Nil); !ok {
			return c.one(m.f["err"])
		}
		bad := c.fail("flush", []Value{m.f["id"]})
		bad.st.trace.e.Via = p
		c.setMod(bad.st, p, m.set("err", bad.ret))
		c.st.emit(&Event{Name: "flush", Args: []Value{m.f["id"]}, Via: p, Pos: c.pos, Fn: c.fr.fn})
		outs := []Outcome{{st: c.st, ret: Nil{}}, bad}
		// a buffer below this one receives what is flushed
		if bm, bp := c.modOf(c.st, m.f["dst"]); bm != nil {
			if bm.kind != "bufw" && bm.f["dst"] != nil {
				bm, bp = c.modOf(c.st, bm.f["dst"])
			}
			if bm != nil && bm.kind == "bufw" {
				c.st.emit(&Event{Name: "buffered", Args: []Value{bm.f["id"]}, Via: bp, Pos: c.pos, Fn: c.fr.fn})
			}
		}
		return outs
	}, "(*bufio.Writer).Flush")

	// bytes and strings
	reg(func(c *callCtx) []Outcome { return c.one(c.e.ropeEq(c.st, c.rope(0), c.rope(1))) }, "bytes.Equal", "crypto/hmac.Equal")
	reg(func(c *callCtx) []Outcome {
		dst := c.slice(0)
		x, y := c.rope(1), c.rope(2)
		n := c.st.simp(x.len())
		if k := c.st.simp(y.len()); dst == nil || !n.isConst() || !k.isConst() {
			return c.external(true)
		} else if k.c < n.c {
			n = k
		}
		if n.c > 4096 {
			return c.external(true)
		}
		c.e.oblig(c.fr, c.pos, "precondition", c.st.prove(dst.n.sub(n)), "subtle.XORBytes: the destination may be too short", c.st)
		out := &Rope{}
		for i := int64(0); i < n.c; i++ {
			out.segs = append(out.segs, Seg{kind: sCell, cell: xor8(c.st.byteAt(x, con(i)), c.st.byteAt(y, con(i)))})
		}
		c.e.setContent(c.fr, c.st, dst, con(0), out.norm(), c.pos)
		return c.one(n)
	}, "crypto/subtle.XORBytes")
	reg(func(c *callCtx) []Outcome {
		b := c.e.ropeEq(c.st, c.rope(0), c.rope(1))
		yes, no := c.forkOn(b)
		var outs []Outcome
		if yes != nil {
			outs = append(outs, Outcome{st: yes, ret: con(1)})
		}
		if no != nil {
			outs = append(outs, Outcome{st: no, ret: con(0)})
		}
		return outs
	}, "crypto/subtle.ConstantTimeCompare")
	reg(func(c *callCtx) []Outcome {
		b := c.e.ropeEq(c.st, c.rope(0), c.rope(1))
		yes, no := c.forkOn(b)
		var outs []Outcome
		if yes != nil {
			outs = append(outs, Outcome{st: yes, ret: con(0)})
		}
		if no != nil {
			outs = append(outs, Outcome{st: no.clone(), ret: con(1)}, Outcome{st: no, ret: con(-1)})
		}
		return outs
	}, "bytes.Compare", "strings.Compare")
	reg(func(c *callCtx) []Outcome {
		s, p := c.str(0), c.str(1)
		pl, ok1 := p.lit()
		sl, ok2 := s.lit()
		suffix := strings.HasSuffix(c.name, "Suffix")
		if ok1 && ok2 {
			if suffix {
				return c.one(bconst(strings.HasSuffix(sl, pl)))
			}
			return c.one(bconst(strings.HasPrefix(sl, pl)))
		}
		if ok1 && ok2 == false && len(s.segs) > 0 && !suffix && s.segs[0].kind == sLit && len(s.segs[0].lit) >= len(pl) {
			return c.one(bconst(strings.HasPrefix(s.segs[0].lit, pl)))
		}
		if n := len(s.segs); ok1 && n > 0 && suffix && s.segs[n-1].kind == sLit && len(s.segs[n-1].lit) >= len(pl) {
			return c.one(bconst(strings.HasSuffix(s.segs[n-1].lit, pl)))
		}
		b := strBool(map[bool]string{false: "hasprefix", true: "hassuffix"}[suffix], "", s, p)
		yes, no := c.forkOn(b)
		var outs []Outcome
		if yes != nil {
			if ok1 {
				yes.addIneq(s.len().addc(-int64(len(pl))))
			}
			outs = append(outs, Outcome{st: yes, ret: bconst(true)})
		}
		if no != nil {
			outs = append(outs, Outcome{st: no, ret: bconst(false)})
		}
		return outs
	}, "strings.HasPrefix", "strings.HasSuffix")
	reg(func(c *callCtx) []Outcome {
		op := "hasprefix"
		if strings.HasSuffix(c.name, "Suffix") {
			op = "hassuffix"
		}
		s, p := c.rope(0), c.rope(1)
		if n := p.len(); c.st.prove(s.len().sub(n)) {
			off := con(0)
			if op == "hassuffix" {
				off = s.len().sub(n)
			}
			return c.one(c.e.ropeEq(c.st, c.st.sliceRope(s, off, n), p))
		}
		b := strBool(op, "", s, p)
		return c.one(c.e.known(c.st, b.p))
	}, "bytes.HasPrefix", "bytes.HasSuffix")
	reg(func(c *callCtx) []Outcome {
		var outs []Outcome
		op := "trimprefix"
		if strings.HasSuffix(c.name, "Suffix") {
			op = "trimsuffix"
		}
		isStr := strings.HasPrefix(c.name, "strings.")
		text := func(i int) *Rope {
			if isStr {
				return c.str(i)
			}
			return c.rope(i)
		}
		s, p := text(0), text(1)
		var yes, no *State
		if k := strBool(strings.Replace(op, "trim", "has", 1), "", s, p); true {
			yes, no = c.forkOn(c.e.known(c.st, k.p))
		}
		if sl, ok := s.lit(); ok {
			if pl, ok := p.lit(); ok {
				yes, no = c.st, nil
				if op == "trimprefix" && !strings.HasPrefix(sl, pl) || op == "trimsuffix" && !strings.HasSuffix(sl, pl) {
					yes, no = nil, c.st
				}
			}
		}
		if no != nil {
			outs = append(outs, Outcome{st: no, ret: tup(c.args[0], bconst(false))})
		}
		if yes != nil {
			n := s.len().sub(p.len())
			yes.addIneq(n)
			off := p.len()
			if op == "trimsuffix" {
				off = con(0)
			}
			if v, ok := c.args[0].(*Slice); ok && !isStr {
				w := *v
				w.off, w.n, w.c = v.off.add(off), n, v.c.sub(off)
				outs = append(outs, Outcome{st: yes, ret: tup(&w, bconst(true))})
			} else {
				outs = append(outs, Outcome{st: yes, ret: tup(&Str{yes.sliceRope(s, off, n)}, bconst(true))})
			}
		}
		return outs
	}, "strings.CutPrefix", "strings.CutSuffix", "bytes.CutPrefix", "bytes.CutSuffix")
	reg(func(c *callCtx) []Outcome {
		s, p := c.str(0), c.str(1)
		op := "trimprefix"
		if strings.HasSuffix(c.name, "Suffix") {
			op = "trimsuffix"
		}
		if sl, ok := s.lit(); ok {
			if pl, ok := p.lit(); ok {
				if op == "trimprefix" {
					return c.one(&Str{rlit(strings.TrimPrefix(sl, pl))})
				}
				return c.one(&Str{rlit(strings.TrimSuffix(sl, pl))})
			}
		}
		t := mk(op, "", s, p)
		out := rterm(t)
		c.st.addIneq(s.len().sub(out.len()))
		return c.one(&Str{out})
	}, "strings.TrimPrefix", "strings.TrimSuffix")
	reg(func(c *callCtx) []Outcome {
		vs, ok := c.variadicStr(0)
		if !ok {
			return c.external(true)
		}
		sep := c.rope(1)
		var rs []*Rope
		for i, v := range vs {
			if i > 0 {
				rs = append(rs, sep)
			}
			rs = append(rs, v)
		}
		if c.name == "bytes.Join" {
			return c.one(c.e.bytes(c.st, cat(rs...), "join"))
		}
		return c.one(&Str{cat(rs...)})
	}, "strings.Join", "bytes.Join")
	reg(func(c *callCtx) []Outcome {
		vs, ok := c.variadicStr(0)
		if !ok {
			return c.external(true)
		}
		var in []Value
		for _, v := range vs {
			in = append(in, v)
		}
		out := rterm(mk("pathjoin", "", in...))
		for _, v := range vs {
			if c.st.prove(v.len().addc(-1)) {
				// cleaning a path never leaves nothing
				c.st.addIneq(out.len().addc(-1))
				break
			}
		}
		return c.one(&Str{out})
	}, "path/filepath.Join", "path.Join")
	reg(func(c *callCtx) []Outcome { return c.one(&Str{rterm(mk("basename", "", c.str(0)))}) }, "path/filepath.Base", "path.Base")
	reg(func(c *callCtx) []Outcome { return c.one(c.e.bytes(c.st, c.rope(0), "clone")) }, "bytes.Clone", "slices.Clone")
	reg(func(c *callCtx) []Outcome { return c.one(&Str{c.str(0)}) }, "strings.Clone")

	// ---- fmt, errors
	reg(func(c *callCtx) []Outcome {
		o := &Opq{t: fresh("err", "new", c.args...), nonnil: true}
		return c.one(o)
	}, "errors.New")
	reg(func(c *callCtx) []Outcome {
		vs, _ := c.variadic(1)
		args := []Value{c.args[0]}
		for _, v := range vs {
			args = append(args, c.e.resolve(c.st, v, 0))
		}
		return c.one(&Opq{t: fresh("err", "new", args...), nonnil: true})
	}, "fmt.Errorf")
	reg(func(c *callCtx) []Outcome {
		a, b := unwrap(c.args[0]), unwrap(c.args[1])
		if o, ok := a.(*Opq); ok && o.t.op == "err" && o.t.s == "new" {
			wraps := false
			walk(o.t, map[string]bool{}, func(v Value) bool {
				if v.key() == b.key() {
					wraps = true
				}
				return true
			})
			if a.key() == b.key() {
				return c.one(bconst(true))
			}
			if !wraps {
				return c.one(bconst(false))
			}
			return c.one(strBool("errorsis", "", a, b))
		}
		return c.one(c.e.equal(c.st, c.args[0], c.args[1]))
	}, "errors.Is")
	reg(func(c *callCtx) []Outcome {
		vs, ok := c.variadic(1)
		if !ok {
			return c.external(true)
		}
		return c.one(&Str{c.sprintf(c.str(0), vs)})
	}, "fmt.Sprintf")
	reg(func(c *callCtx) []Outcome {
		vs, ok := c.variadic(0)
		if !ok {
			return c.external(true)
		}
		if strings.HasSuffix(c.name, "ln") {
			return c.one(&Str{c.println(vs)})
		}
		return c.one(&Str{c.print(vs)})
	}, "fmt.Sprint", "fmt.Sprintln")
	reg(func(c *callCtx) []Outcome {
		vs, _ := c.variadic(1)
		return c.emitText(sentinel("os.Stdout"), c.sprintf(c.str(0), vs), vs)
	}, "fmt.Printf")
	reg(func(c *callCtx) []Outcome {
		vs, _ := c.variadic(0)
		r := c.println(vs)
		if !strings.HasSuffix(c.name, "ln") {
			r = c.print(vs)
		}
		return c.emitText(sentinel("os.Stdout"), r, vs)
	}, "fmt.Println", "fmt.Print")
	reg(func(c *callCtx) []Outcome {
		vs, _ := c.variadic(2)
		return c.emitText(c.args[0], c.sprintf(c.str(1), vs), vs)
	}, "fmt.Fprintf")
	reg(func(c *callCtx) []Outcome {
		vs, _ := c.variadic(1)
		r := c.println(vs)
		if !strings.HasSuffix(c.name, "ln") {
			r = c.print(vs)
		}
		return c.emitText(c.args[0], r, vs)
	}, "fmt.Fprintln", "fmt.Fprint")

	// ---- encodings
	reg(func(c *callCtx) []Outcome { return c.one(&Str{b64enc(encName(c.args[0]), c.rope(1))}) }, "(*encoding/base64.Encoding).EncodeToString")
	reg(func(c *callCtx) []Outcome { return c.one(b64len(c.lin(1), encName(c.args[0]))) }, "(*encoding/base64.Encoding).EncodedLen")
	reg(func(c *callCtx) []Outcome {
		dst, src := c.slice(1), c.rope(2)
		out := b64enc(encName(c.args[0]), src)
		empty := src.len().isConst() && src.len().c == 0
		c.need("encode buffer", empty || c.st.prove(dst.n.sub(out.len())), "base64 destination of length "+dst.n.String()+" may be shorter than "+out.len().String())
		if !empty {
			c.e.setContent(c.fr, c.st, dst, con(0), out, c.pos)
		}
		return c.one(Nil{})
	}, "(*encoding/base64.Encoding).Encode")
	reg(func(c *callCtx) []Outcome {
		return c.one(c.e.appendRope(c.fr, c.st, c.slice(1), b64enc(encName(c.args[0]), c.rope(2)), c.pos))
	}, "(*encoding/base64.Encoding).AppendEncode")
	decoded := func(c *callCtx, src *Rope) (*State, *Rope, *State, Value) {
		bad := c.st.clone()
		err := c.newErr("base64")
		bad.emit(&Event{Name: "b64decode", Args: []Value{&Str{src}}, Fail: true, Err: err, Pos: c.pos, Fn: c.fr.fn})
		if notBase64(bad, src) {
			return nil, nil, bad, err
		}
		r := c.b64dec(c.st, encName(c.args[0]), src)
		c.st.emit(&Event{Name: "b64decode", Args: []Value{&Str{src}}, Out: r, Pos: c.pos, Fn: c.fr.fn})
		return c.st, r, bad, err
	}
	reg(func(c *callCtx) []Outcome {
		st, r, bad, err := decoded(c, c.str(1))
		part := c.e.bytes(bad, rterm(fresh("partial", "b64", c.args[1])), "partial")
		if st == nil {
			return []Outcome{{st: bad, ret: tup(part, err)}}
		}
		return []Outcome{{st: st, ret: tup(c.e.bytes(st, r, "decoded"), Nil{})}, {st: bad, ret: tup(part, err)}}
	}, "(*encoding/base64.Encoding).DecodeString")
	reg(func(c *callCtx) []Outcome {
		n := c.lin(1)
		if n.isConst() {
			return c.one(con(n.c / 4 * 3))
		}
		return c.one(lin(mkIv("b64declen", encName(c.args[0]), 0, maxLen, n)))
	}, "(*encoding/base64.Encoding).DecodedLen")
	reg(func(c *callCtx) []Outcome {
		dst, src := c.slice(1), c.rope(2)
		dl := lin(mkIv("b64declen", encName(c.args[0]), 0, maxLen, src.len()))
		if src.len().isConst() {
			dl = con(src.len().c / 4 * 3)
		}
		c.need("decode buffer", c.st.prove(dst.n.sub(dl)), "base64 destination of length "+dst.n.String()+" may be shorter than "+dl.String())
		st, r, bad, err := decoded(c, src)
		if st != nil {
			st.addIneq(dst.n.sub(r.len()))
			c.e.setContent(c.fr, st, dst, con(0), r, c.pos)
		}
		n := lin(freshIv("ext", "n", 0, maxLen))
		bad.addIneq(dst.n.sub(n))
		c.e.setContent(c.fr, bad, dst, con(0), rtermN(fresh("partial", "b64", &Str{src}), dst.n), c.pos)
		if st == nil {
			return []Outcome{{st: bad, ret: tup(n, err)}}
		}
		return []Outcome{{st: st, ret: tup(r.len(), Nil{})}, {st: bad, ret: tup(n, err)}}
	}, "(*encoding/base64.Encoding).Decode")
	reg(func(c *callCtx) []Outcome { // reader
		id := mk("b64stream", encName(c.args[0]), c.srcTerm(c.args[1]))
		return c.one(c.modIface(c.st, "b64r", &Mod{kind: "b64r", f: map[string]Value{"id": id}}))
	}, "encoding/base64.NewDecoder")
	reg(func(c *callCtx) []Outcome { // writer
		id := mk("b64sink", encName(c.args[0]), c.sink(c.args[1]))
		return c.one(c.modIface(c.st, "b64w", &Mod{kind: "b64w", f: map[string]Value{"id": id}}))
	}, "encoding/base64.NewEncoder")

	for n, bits := range map[string]int{"16": 2, "32": 4, "64": 8} {
		for _, o := range []string{"big", "little"} {
			bits, big := bits, o == "big"
			recv := "(encoding/binary." + o + "Endian)."
			reg(func(c *callCtx) []Outcome {
				d := c.slice(1)
				c.need("put buffer", c.st.prove(d.n.addc(int64(-bits))), "destination of length "+d.n.String()+" may be too short")
				c.e.setContent(c.fr, c.st, d, con(0), putInt(c.lin(2), bits, big), c.pos)
				return c.one(Nil{})
			}, recv+"PutUint"+n)
			reg(func(c *callCtx) []Outcome {
				d := c.slice(1)
				c.need("get buffer", c.st.prove(d.n.addc(int64(-bits))), "source of length "+d.n.String()+" may be too short")
				return c.one(c.getInt(c.rope(1), bits, big))
			}, recv+"Uint"+n)
			reg(func(c *callCtx) []Outcome {
				return c.one(c.e.appendRope(c.fr, c.st, c.slice(1), putInt(c.lin(2), bits, big), c.pos))
			}, recv+"AppendUint"+n)
		}
	}
	reg(func(c *callCtx) []Outcome {
		if i, ok := c.args[0].(*Iface); ok {
			t := i.typ
			if p, ok := under(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			if n := fixedSize(t); n > 0 {
				return c.one(con(n))
			}
		}
		return c.external(false)
	}, "encoding/binary.Size")
	reg(func(c *callCtx) []Outcome {
		ord := orderOf(c.args[1], "")
		i, ok := c.args[2].(*Iface)
		if !ok || ord < 0 {
			return c.external(false)
		}
		r, ok := c.encodeFixed(i.v, i.typ, ord == 1)
		if !ok {
			return c.external(false)
		}
		outs := c.write(c.args[0], r)
		for j, o := range outs {
			if t, ok := o.ret.(*Tup); ok {
				outs[j].ret = t.vs[1]
			}
		}
		return outs
	}, "encoding/binary.Write")
	reg(func(c *callCtx) []Outcome {
		ord := orderOf(c.args[1], "")
		i, ok := c.args[2].(*Iface)
		if !ok || ord < 0 {
			return c.external(false)
		}
		var size int64
		var el types.Type
		if p, ok := under(i.typ).(*types.Pointer); ok {
			el = p.Elem()
			size = fixedSize(el)
		} else if s, ok := i.v.(*Slice); ok && s.elem != nil && isByte(s.elem) {
			outs := c.readFull(c.args[0], s)
			for j, o := range outs {
				if t, ok := o.ret.(*Tup); ok {
					outs[j].ret = t.vs[1]
				}
			}
			return outs
		}
		ptr, ok := i.v.(*Ptr)
		if size == 0 || !ok {
			return c.external(false)
		}
		tmp := c.e.bytes(c.st, rzero(con(size)), "binary.Read")
		var outs []Outcome
		for _, o := range c.readFull(c.args[0], tmp) {
			t := o.ret.(*Tup)
			if _, ok := t.vs[1].(Nil); ok {
				r := c.e.content(o.st, tmp)
				cc := *c
				cc.st = o.st
				v, unexported := cc.decodeFixed(r, el, ord == 1)
				if v == nil {
					return c.external(false)
				}
				if unexported != "" {
					c.need("settable", false, "field "+unexported+" is not exported")
				}
				c.e.store(c.fr, o.st, ptr, v, c.pos)
			}
			outs = append(outs, Outcome{st: o.st, ret: t.vs[1]})
		}
		return outs
	}, "encoding/binary.Read")

	// ---- cryptography
	reg(func(c *callCtx) []Outcome { return c.randRead(c.slice(0)) }, "crypto/rand.Read")
	reg(func(c *callCtx) []Outcome { return c.one(&Bytes{rterm(mk("sha512", "", c.rope(0).canon()))}) }, "crypto/sha512.Sum512")
	reg(func(c *callCtx) []Outcome {
		return c.one(c.modIface(c.st, "hash", &Mod{kind: "hash", f: map[string]Value{"r": &Str{&Rope{}}}}))
	}, "crypto/sha512.New")
	reg(func(c *callCtx) []Outcome {
		if m, _ := c.modOf(c.st, c.args[0]); m != nil && m.kind == "hash" {
			return c.one(c.e.appendRope(c.fr, c.st, c.slice(1), rterm(mk("sha512", "", m.f["r"].(*Str).r.canon())), c.pos))
		}
		return c.external(false)
	}, "invoke.Sum")
	reg(func(c *callCtx) []Outcome {
		// requires a passphrase, a salt and at least one round
		args := []Value{&Str{c.rope(0)}, &Str{c.rope(1)}, c.lin(2), c.lin(3)}
		bad := c.fail("kdf", args, &Slice{off: con(0), n: con(0), c: con(0), elem: types.Typ[types.Uint8]})
		n := c.lin(3)
		c.st.addIneq(c.lin(2).addc(-1))
		t := mk("kdf", "", c.rope(0).canon(), c.rope(1).canon(), c.lin(2), n)
		r := rtermN(t, n)
		c.st.emit(&Event{Name: "kdf", Args: args, Out: r, Pos: c.pos, Fn: c.fr.fn})
		return []Outcome{{st: c.st, ret: tup(c.e.bytes(c.st, r, "kdf"), Nil{})}, bad}
	}, "github.com/dchest/bcrypt_pbkdf.Key")

	for _, pk := range []string{"golang.org/x/crypto/ed25519.", "crypto/ed25519."} {
		reg(func(c *callCtx) []Outcome {
			nilb := &Slice{off: con(0), n: con(0), c: con(0), elem: types.Typ[types.Uint8]}
			bad := c.fail("keygen", []Value{unwrap(c.args[0])}, nilb, nilb)
			seed := rtermN(fresh("edseed", "", unwrap(c.args[0])), con(32))
			pub := rtermN(mk("edpubof", "", seed), con(32))
			c.st.emit(&Event{Name: "keygen", Args: []Value{unwrap(c.args[0])}, Out: seed, Pos: c.pos, Fn: c.fr.fn})
			return []Outcome{{st: c.st, ret: tup(c.e.bytes(c.st, pub, "edpub"), c.e.bytes(c.st, cat(seed, pub), "edpriv"), Nil{})}, bad}
		}, pk+"GenerateKey")
		reg(func(c *callCtx) []Outcome {
			seed := c.rope(0)
			c.need("seed length", c.st.decide(eqPred(seed.len(), con(32))) == 1, "seed length "+seed.len().String()+" may not be 32")
			pub := rtermN(mk("edpubof", "", seed), con(32))
			return c.one(c.e.bytes(c.st, cat(seed, pub), "edpriv"))
		}, pk+"NewKeyFromSeed")
		reg(func(c *callCtx) []Outcome {
			c.need("private key length", c.st.decide(eqPred(c.slice(0).n, con(64))) == 1, "private key length "+c.slice(0).n.String()+" may not be 64")
			k, m := c.rope(0), c.rope(1)
			r := rterm(mk("edsign", "", k.canon(), m.canon()))
			c.st.emit(&Event{Name: "edsign", Args: []Value{&Str{k}, &Str{m}}, Out: r, Pos: c.pos, Fn: c.fr.fn})
			return c.one(c.e.bytes(c.st, r, "edsign"))
		}, pk+"Sign")
		reg(func(c *callCtx) []Outcome {
			c.need("public key length", c.st.decide(eqPred(c.slice(0).n, con(32))) == 1, "public key length "+c.slice(0).n.String()+" may not be 32")
			p, m, s := c.rope(0), c.rope(1), c.rope(2)
			t := mk("edverify", "", p.canon(), m.canon(), s.canon())
			c.event(c.st, "edverify", &Str{p}, &Str{m}, &Str{s}, t)
			return c.one(c.e.known(c.st, &Pred{op: "true", a: t}))
		}, pk+"Verify")
	}
	for _, pk := range []string{"golang.org/x/crypto/ed25519", "crypto/ed25519"} {
		pk := pk
		full := func(c *callCtx) {
			c.need("private key length", c.st.decide(eqPred(c.slice(0).n, con(64))) == 1, "private key length "+c.slice(0).n.String()+" may not be 64")
		}
		reg(func(c *callCtx) []Outcome {
			full(c)
			return c.one(c.e.bytes(c.st, c.st.sliceRope(c.rope(0), con(0), con(32)), "seed"))
		}, "("+pk+".PrivateKey).Seed")
		reg(func(c *callCtx) []Outcome {
			full(c)
			b := c.e.bytes(c.st, c.st.sliceRope(c.rope(0), con(32), con(32)), "pub")
			return c.one(&Iface{c.e.w.typ(pk, "PublicKey"), b})
		}, "("+pk+".PrivateKey).Public")
		reg(func(c *callCtx) []Outcome {
			// only the plain scheme (no prehash) is known
			if h, ok := unwrap(c.args[3]).(*Lin); !ok || !h.isConst() || h.c != 0 {
				return c.external(true)
			}
			full(c)
			k, m := c.rope(0), c.rope(2)
			r := rterm(mk("edsign", "", k.canon(), m.canon()))
			c.st.emit(&Event{Name: "edsign", Args: []Value{&Str{k}, &Str{m}}, Out: r, Pos: c.pos, Fn: c.fr.fn})
			return c.one(tup(c.e.bytes(c.st, r, "edsign"), Nil{}))
		}, "("+pk+".PrivateKey).Sign")
	}

	reg(func(c *callCtx) []Outcome {
		bad := c.fail("boxgen", []Value{unwrap(c.args[0])}, Nil{}, Nil{})
		sk := rtermN(fresh("boxsk", "", unwrap(c.args[0])), con(32))
		pk := rtermN(mk("boxpub", "", sk), con(32))
		c.st.emit(&Event{Name: "boxgen", Args: []Value{unwrap(c.args[0])}, Out: sk, Pos: c.pos, Fn: c.fr.fn})
		return []Outcome{{st: c.st, ret: tup(c.e.ptrBytes(c.st, pk, "boxpub"), c.e.ptrBytes(c.st, sk, "boxsk"), Nil{})}, bad}
	}, "golang.org/x/crypto/nacl/box.GenerateKey")
	shared := func(peer, priv *Rope) *Rope { return rtermN(mk("boxshared", "", peer.canon(), priv.canon()), con(32)) }
	reg(func(c *callCtx) []Outcome {
		r := shared(c.ptrRope(1), c.ptrRope(2))
		if p, ok := c.args[0].(*Ptr); ok {
			c.e.store(c.fr, c.st, p, &Bytes{r}, c.pos)
		}
		c.st.emit(&Event{Name: "precompute", Args: []Value{&Str{c.ptrRope(1)}, &Str{c.ptrRope(2)}}, Out: r, Pos: c.pos, Fn: c.fr.fn})
		return c.one(Nil{})
	}, "golang.org/x/crypto/nacl/box.Precompute")
	sealOp := func(c *callCtx, out Value, msg, nonce, key *Rope) []Outcome {
		t := mk("boxseal", "", msg.canon(), nonce.canon(), key.canon())
		r := rtermN(t, msg.len().addc(16))
		c.st.emit(&Event{Name: "seal", Args: []Value{&Str{msg}, &Str{nonce}, &Str{key}}, Out: r, Pos: c.pos, Fn: c.fr.fn})
		return c.one(c.appendOut(c.st, out, r))
	}
	openOp := func(c *callCtx, out Value, box, nonce, key *Rope) []Outcome {
		bad := c.st.clone()
		args := []Value{&Str{box}, &Str{nonce}, &Str{key}}
		bad.emit(&Event{Name: "unseal", Args: args, Fail: true, Pos: c.pos, Fn: c.fr.fn})
		t := mk("boxopen", "", box.canon(), nonce.canon(), key.canon())
		c.st.addIneq(box.len().addc(-16))
		r := rtermN(t, box.len().addc(-16))
		c.st.emit(&Event{Name: "unseal", Args: args, Out: r, Pos: c.pos, Fn: c.fr.fn})
		nilb := &Slice{off: con(0), n: con(0), c: con(0), elem: types.Typ[types.Uint8]}
		return []Outcome{{st: c.st, ret: tup(c.appendOut(c.st, out, r), bconst(true))}, {st: bad, ret: tup(nilb, bconst(false))}}
	}
	reg(func(c *callCtx) []Outcome { return sealOp(c, c.args[0], c.rope(1), c.ptrRope(2), c.ptrRope(3)) },
		"golang.org/x/crypto/nacl/box.SealAfterPrecomputation", "golang.org/x/crypto/nacl/secretbox.Seal")
	reg(func(c *callCtx) []Outcome { return openOp(c, c.args[0], c.rope(1), c.ptrRope(2), c.ptrRope(3)) },
		"golang.org/x/crypto/nacl/box.OpenAfterPrecomputation", "golang.org/x/crypto/nacl/secretbox.Open")
	reg(func(c *callCtx) []Outcome {
		return sealOp(c, c.args[0], c.rope(1), c.ptrRope(2), shared(c.ptrRope(3), c.ptrRope(4)))
	}, "golang.org/x/crypto/nacl/box.Seal")
	reg(func(c *callCtx) []Outcome {
		return openOp(c, c.args[0], c.rope(1), c.ptrRope(2), shared(c.ptrRope(3), c.ptrRope(4)))
	}, "golang.org/x/crypto/nacl/box.Open")
	reg(func(c *callCtx) []Outcome {
		m, k := c.rope(0), c.ptrRope(1)
		r := rterm(mk("authsum", "", m.canon(), k.canon()))
		c.st.emit(&Event{Name: "authsum", Args: []Value{&Str{m}, &Str{k}}, Out: r, Pos: c.pos, Fn: c.fr.fn})
		return c.one(c.e.ptrBytes(c.st, r, "tag"))
	}, "golang.org/x/crypto/nacl/auth.Sum")
	reg(func(c *callCtx) []Outcome {
		d, m, k := c.rope(0), c.rope(1), c.ptrRope(2)
		t := mk("authverify", "", d.canon(), m.canon(), k.canon())
		c.event(c.st, "authverify", &Str{d}, &Str{m}, &Str{k}, t)
		return c.one(c.e.known(c.st, &Pred{op: "true", a: t}))
	}, "golang.org/x/crypto/nacl/auth.Verify")

	// ---- the terminal and the prompt
	reg(func(c *callCtx) []Outcome {
		bad := c.fail("readpassword", c.args, &Slice{off: con(0), n: con(0), c: con(0), elem: types.Typ[types.Uint8]})
		t := fresh("passphrase", "tty")
		b := c.e.bytes(c.st, rterm(t), "passphrase")
		c.st.emit(&Event{Name: "readpassword", Args: c.args, Ret: b, Out: rterm(t), Pos: c.pos, Fn: c.fr.fn})
		return []Outcome{{st: c.st, ret: tup(b, Nil{})}, bad}
	}, "golang.org/x/crypto/ssh/terminal.ReadPassword", "golang.org/x/term.ReadPassword")
	reg(func(c *callCtx) []Outcome {
		bad := c.fail("prompt", c.args, &Slice{off: con(0), n: con(0), c: con(0), elem: types.Typ[types.Uint8]})
		t := fresh("passphrase", "prompt")
		b := c.e.bytes(c.st, rterm(t), "passphrase")
		c.st.emit(&Event{Name: "prompt", Args: c.args, Ret: b, Out: rterm(t), Pos: c.pos, Fn: c.fr.fn})
		return []Outcome{{st: c.st, ret: tup(b, Nil{})}, bad}
	}, "hook:"+modPath+"/signify.PassphrasePrompt")

	// ---- command line
	reg(func(c *callCtx) []Outcome {
		bad := c.fail("user", nil, Nil{})
		c.event(c.st, "user")
		return []Outcome{{st: c.st, ret: tup(&Opq{t: mk("user", ""), nonnil: true}, Nil{})}, bad}
	}, "os/user.Current")
	// the functions act on the default set, the methods on their own
	for _, n := range []string{"String", "Bool", "Int", "Uint"} {
		n := n
		def := func(set bool) func(c *callCtx) []Outcome {
			return func(c *callCtx) []Outcome {
				if set {
					c.args = c.args[1:]
				}
				c.event(c.st, "flagdef", c.args[0], c.args[1], c.args[2])
				if p, ok := c.args[0].(*Ptr); ok {
					c.e.store(c.fr, c.st, p, c.args[2], c.pos)
				}
				return c.one(Nil{})
			}
		}
		reg(def(false), "flag."+n+"Var")
		reg(def(true), "(*flag.FlagSet)."+n+"Var")
		mkf := func(set bool) func(c *callCtx) []Outcome {
			return func(c *callCtx) []Outcome {
				if set {
					c.args = c.args[1:]
				}
				t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
				p := c.e.newObj(c.st, t, c.args[1], "flag")
				c.event(c.st, "flagdef", p, c.args[0], c.args[1])
				return c.one(p)
			}
		}
		reg(mkf(false), "flag."+n)
		reg(mkf(true), "(*flag.FlagSet)."+n)
	}
	reg(func(c *callCtx) []Outcome {
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		v := c.e.zero(t)
		if s, ok := v.(*Struct); ok {
			if i := fieldNamed(t, "errorHandling"); i >= 0 {
				s.fs[i] = c.args[1]
			}
		}
		return c.one(c.e.newObj(c.st, t, v, "flagset"))
	}, "flag.NewFlagSet")
	reg(func(c *callCtx) []Outcome { return c.one(Nil{}) }, "(*flag.FlagSet).SetOutput")
	reg(func(c *callCtx) []Outcome {
		if p, ok := c.args[0].(*Ptr); ok {
			if s, ok := c.e.loadPath(c.st, c.st.obj(p.obj).v, p.path, nil).(*Struct); ok {
				if i := fieldNamed(s.typ, "errorHandling"); i >= 0 {
					n := &Struct{typ: s.typ, fs: append([]Value(nil), s.fs...)}
					n.fs[i] = c.args[2]
					c.e.store(c.fr, c.st, p, n, c.pos)
					return c.one(Nil{})
				}
			}
		}
		c.event(c.st, "flaginit", c.args[0], c.args[2])
		return c.one(Nil{})
	}, "(*flag.FlagSet).Init")
	reg(func(c *callCtx) []Outcome {
		a := c.slice(1)
		if a.arr == nil || !a.off.isConst() || a.off.c != 1 || !c.e.isArgs(c.st, a) {
			return c.external(true)
		}
		return flagParse(c)
	}, "(*flag.FlagSet).Parse")
	reg(func(c *callCtx) []Outcome { return c.one(lin(mkIv("narg", "", 0, maxLen))) }, "(*flag.FlagSet).NArg")
	reg(func(c *callCtx) []Outcome { return c.one(&Str{rterm(mk("flagarg", "", c.args[1:]...))}) }, "(*flag.FlagSet).Arg")
	reg(func(c *callCtx) []Outcome {
		return c.one(c.e.fromTerm(c.st, c.sig.Results().At(0).Type(), mk("flagargs", "")))
	}, "(*flag.FlagSet).Args")
	reg(flagParse, "flag.Parse")
	reg(func(c *callCtx) []Outcome { return c.one(lin(mkIv("narg", "", 0, maxLen))) }, "flag.NArg")
	reg(func(c *callCtx) []Outcome { return c.one(&Str{rterm(mk("flagarg", "", c.args...))}) }, "flag.Arg")
	reg(func(c *callCtx) []Outcome {
		return c.one(c.e.fromTerm(c.st, c.sig.Results().At(0).Type(), mk("flagargs", "")))
	}, "flag.Args")
	reg(func(c *callCtx) []Outcome {
		c.st.emit(&Event{Name: "print", Args: []Value{sentinel("os.Stderr")}, Pos: c.pos, Fn: c.fr.fn})
		return c.one(Nil{})
	}, "flag.PrintDefaults", "(*flag.FlagSet).PrintDefaults")
}

// contentOf is all that a reader will deliver.
func (c *callCtx) contentOf(src Value) *Rope {
	if m, _ := c.modOf(c.st, src); m != nil {
		if s, ok := m.f["r"].(*Str); ok {
			return s.r
		}
	}
	return rterm(fresh("read", "stream", c.srcTerm(src)))
}

func (c *callCtx) variadicStr(i int) ([]*Rope, bool) {
	vs, ok := c.variadic(i)
	if !ok {
		return nil, false
	}
	var r []*Rope
	for _, v := range vs {
		switch x := v.(type) {
		case *Str:
			r = append(r, x.r)
		case *Bytes:
			r = append(r, x.r)
		case *Slice:
			if x.elem == nil || !isByte(x.elem) {
				return nil, false
			}
			r = append(r, c.e.content(c.st, x))
		default:
			return nil, false
		}
	}
	return r, true
}

// repoMethod calls a method of a repository type behind an interface.
func (c *callCtx) repoMethod(recv Value, name string, args ...Value) []Outcome {
	i, ok := recv.(*Iface)
	if !ok || isFake(i.typ) {
		return nil
	}
	f := c.e.w.method(i.typ, nil, name)
	if f == nil || len(f.Blocks) == 0 || c.e.opaque[f.String()] {
		return nil
	}
	return c.e.callFunc(c.fr, c.st, f, append([]Value{i.v}, args...), nil, c.pos)
}

// isArgs reports whether s is a part of os.Args.
func (e *Engine) isArgs(st *State, s *Slice) bool {
	g := e.w.global("os", "Args")
	if g == nil {
		return false
	}
	o := st.obj(e.globalObj(st, g).obj)
	if o == nil {
		return false
	}
	a, ok := o.v.(*Slice)
	return ok && a.arr != nil && a.arr.key() == s.arr.key()
}

// fieldNamed is the index of a struct's field, or -1.
func fieldNamed(t types.Type, name string) int {
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}

// flagParse: success with arbitrary option values; an invalid command line
// (the usage function runs, then exit status 2); or -h (usage, then status 0).
// A set may return the error instead.
func flagParse(c *callCtx) []Outcome {
	var defs []*Event
	for _, ev := range c.st.events() {
		if ev.Name == "flagdef" {
			defs = append(defs, ev)
		}
	}
	var usage Value = Nil{}
	if g := c.e.w.global("flag", "Usage"); g != nil {
		usage = c.st.obj(c.e.globalObj(c.st, g).obj).v
	}
	handling := int64(1)
	isSet := c.sig.Recv() != nil
	for _, ev := range c.st.events() {
		if ev.Name == "flaginit" && !(isSet && len(c.args) > 0 && c.args[0].key() != ev.Args[0].key()) {
			if l, ok := ev.Args[1].(*Lin); ok && l.isConst() {
				handling = l.c
			} else {
				handling = 0
			}
		}
	}
	var set Value = Nil{}
	if isSet {
		set = c.args[0]
	} else if g := c.e.w.global("flag", "CommandLine"); g != nil {
		set = c.st.obj(c.e.globalObj(c.st, g).obj).v
	}
	if set != nil {
		if p, ok := set.(*Ptr); ok {
			if o := c.st.obj(p.obj); o != nil {
				if s, ok := c.e.loadPath(c.st, o.v, p.path, nil).(*Struct); ok {
					if i := fieldNamed(s.typ, "errorHandling"); i >= 0 {
						if l, ok := s.fs[i].(*Lin); ok && l.isConst() {
							handling = l.c
						}
					}
					if i := fieldNamed(s.typ, "Usage"); i >= 0 && (isSet || c.e.nilness(s.fs[i]) == 0) {
						usage = s.fs[i]
					}
				}
			}
		}
	}
	// options gives the options arbitrary values.
	options := func(st *State) {
		for _, d := range defs {
			p, ok := d.Args[0].(*Ptr)
			if !ok {
				continue
			}
			name := "?"
			if s, ok := d.Args[1].(*Str); ok {
				name, _ = s.r.lit()
			}
			tm := mk("flag", name)
			var v Value
			switch d.Args[2].(type) {
			case *Bool:
				v = &Bool{known: -1, p: &Pred{op: "true", a: tm}}
			case *Str:
				v = &Str{rterm(tm)}
			default:
				v = lin(tm)
			}
			c.e.store(c.fr, st, p, v, c.pos)
		}
	}
	var outs []Outcome
	for _, how := range []string{"help", "invalid"} {
		st := c.st.clone()
		st.emit(&Event{Name: "flagparse", Part: how, Fail: true, Pos: c.pos, Fn: c.fr.fn})
		var after []Outcome
		if f, ok := usage.(*Fn); ok {
			after = c.e.callFunc(c.fr, st, f.fn, nil, f.binds, c.pos)
		} else {
			after = one(st, Nil{})
		}
		for _, o := range after {
			switch {
			case o.hlt != nil:
				outs = append(outs, o)
			case handling == 1:
				code := con(2)
				if how == "help" {
					code = con(0)
				}
				o.st.emit(&Event{Name: "exit", Args: []Value{code}, Pos: c.pos, Fn: c.fr.fn})
				outs = append(outs, Outcome{hlt: &Exit{xHalt, o.st, code, c.pos}})
			case handling == 0 && !isSet: // the error is dropped
				options(o.st) // some were set before it
				outs = append(outs, Outcome{st: o.st, ret: Nil{}})
			case handling == 0 && how == "help":
				outs = append(outs, Outcome{st: o.st, ret: sentinel("flag.ErrHelp")})
			case handling == 0:
				outs = append(outs, Outcome{st: o.st, ret: c.newErr("flagparse")})
			default:
				outs = append(outs, Outcome{hlt: &Exit{xPanic, o.st, con(2), c.pos}})
			}
		}
	}
	st := c.st
	st.emit(&Event{Name: "flagparse", Pos: c.pos, Fn: c.fr.fn})
	options(st)
	return append([]Outcome{{st: st, ret: Nil{}}}, outs...)
}

// notBase64 reports whether the text is known to begin with something that
// base64 does not allow.
func notBase64(st *State, src *Rope) bool {
	bad := func(s string) bool {
		for i := 0; i < len(s); i++ {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("+/-_=\r\n", c) >= 0) {
				return true
			}
		}
		return false
	}
	for _, g := range src.norm().segs {
		if g.kind == sLit && bad(g.lit) {
			return true
		}
	}
	for f := st.facts; f != nil; f = f.prev {
		if t, ok := f.p.a.(*Term); ok && f.true && f.p.op == "true" && t.op == "hasprefix" && len(t.args) == 2 {
			a, b := ropeOf(t.args[0]), ropeOf(t.args[1])
			if a == nil || b == nil {
				continue
			}
			if l, ok := b.lit(); ok && bad(l) && st.simpRope(a).key() == st.simpRope(src).key() {
				return true
			}
		}
	}
	return false
}
