package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callCtx is what a model of an external function gets.
type callCtx struct {
	e    *Engine
	fr   *Frame
	st   *State
	args []Value
	name string
	pos  token.Pos
	sig  *types.Signature
}

func (e *Engine) call(fr *Frame, st *State, c *ssa.CallCommon, in ssa.CallInstruction) []Outcome {
	fn := e.val(fr, st, c.Value)
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	return e.callVals(fr, st, c, fn, args, in)
}

func (e *Engine) callVals(fr *Frame, st *State, c *ssa.CallCommon, fn Value, args []Value, in ssa.CallInstruction) []Outcome {
	pos := in.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, b.Name(), c, args, pos)
	}
	if c.IsInvoke() {
		return e.invoke(fr, st, fn, c.Method, args, pos)
	}
	if f, ok := fn.(*Fn); ok {
		return e.callFunc(fr, st, f.fn, args, f.binds, pos)
	}
	sig := c.Signature()
	if o, ok := fn.(*Opq); ok {
		e.needNonNil(fr, st, o, "call of a function that may be nil: ", pos)
		if o.t.op == "hook" {
			cc := &callCtx{e, fr, st, args, "hook:" + o.t.s, pos, sig}
			if m := models[cc.name]; m != nil {
				return m(cc)
			}
			return cc.external(true)
		}
	}
	if _, ok := fn.(Nil); ok {
		e.oblig(fr, pos, "nil function call", false, "call of a nil function", st)
		return nil
	}
	e.note(fr.fn, pos, "call of unknown function "+fn.String())
	cc := &callCtx{e, fr, st, args, "unknown function value", pos, sig}
	return cc.external(false)
}

func (e *Engine) callFunc(fr *Frame, st *State, f *ssa.Function, args, binds []Value, pos token.Pos) []Outcome {
	name := f.String()
	if strings.HasSuffix(name, "$bound") || strings.HasSuffix(name, "$thunk") || f.Synthetic != "" && len(f.Blocks) > 0 {
		// wrappers have bodies
	}
	if e.opaque[name] || len(f.Blocks) == 0 {
		cc := &callCtx{e, fr, st, args, name, pos, f.Signature}
		if m := e.local[name]; m != nil {
			return m(cc)
		}
		if m := models[name]; m != nil {
			return m(cc)
		}
		if e.inRepo(pkgOf(f)) {
			return cc.external(true)
		}
		if f.Name() == "init" && len(args) == 0 {
			return one(st, Nil{})
		}
		return cc.external(false)
	}
	if m := e.local[name]; m != nil {
		return m(&callCtx{e, fr, st, args, name, pos, f.Signature})
	}
	if m := models[name]; m != nil {
		return m(&callCtx{e, fr, st, args, name, pos, f.Signature})
	}
	n := 0
	for _, s := range e.stack {
		if s == f {
			n++
		}
	}
	if n > 40 || len(e.stack) > 80 {
		e.note(f, pos, "recursion not analysed")
		return (&callCtx{e, fr, st, args, name, pos, f.Signature}).external(false)
	}
	var outs []Outcome
	for _, x := range e.callFn(f, args, binds, st, fr.depth+1) {
		x := x
		if x.kind == xRet {
			outs = append(outs, Outcome{st: x.st, ret: x.val})
		} else {
			outs = append(outs, Outcome{hlt: &x})
		}
	}
	return outs
}

func pkgOf(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (e *Engine) invoke(fr *Frame, st *State, recv Value, m *types.Func, args []Value, pos token.Pos) []Outcome {
	sig := m.Type().(*types.Signature)
	switch r := recv.(type) {
	case *Iface:
		f := e.w.method(r.typ, m.Pkg(), m.Name())
		if f == nil {
			break
		}
		return e.callFunc(fr, st, f, append([]Value{r.v}, args...), nil, pos)
	case Nil:
		e.oblig(fr, pos, "nil interface call", false, "method "+m.Name()+" called on nil", st)
		return nil
	case *Opq:
		e.needNonNil(fr, st, r, "method "+m.Name()+" called on a value that may be nil: ", pos)
	}
	// by method shape
	cc := &callCtx{e, fr, st, append([]Value{recv}, args...), "invoke." + m.Name(), pos, sig}
	if f := models[cc.name]; f != nil {
		return f(cc)
	}
	cc.name = "invoke " + m.FullName()
	return cc.external(false)
}

// external is the default for functions without a model. It may do anything
// to what it can reach; its results are unknown.
func (c *callCtx) external(known bool) []Outcome {
	if !known && !pureExternal(c.name) {
		c.e.unmod[c.name] = c.pos
	}
	in := c.resolveAll()
	if !pureExternal(c.name) {
		seen := map[int]bool{}
		for _, a := range c.args {
			c.e.havocReach(c.st, a, seen)
		}
		for i, a := range c.args {
			c.shared(i, a)
		}
	}
	var outs []Outcome
	res := c.sig.Results()
	hasErr := res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
	mkRes := func(st *State, fail bool) Value {
		tm := fresh("ext", c.name, in...)
		if pureExternal(c.name) {
			tm = mk("pure", c.name, in...)
		}
		var vs []Value
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if isErrorType(t) && i == res.Len()-1 {
				if fail {
					vs = append(vs, c.newErr("unmodelled"))
				} else {
					vs = append(vs, Nil{})
				}
				continue
			}
			r := tm
			if res.Len() > 1 {
				r = mk("res", fmt.Sprint(i), tm)
			}
			v := c.e.fromTerm(st, t, r)
			if o, ok := v.(*Opq); ok && !fail && !isErrorType(t) && hasErr {
				o.nonnil = true // Go convention: a result without an error is usable
			}
			vs = append(vs, v)
		}
		switch len(vs) {
		case 0:
			return Nil{}
		case 1:
			return vs[0]
		}
		return &Tup{vs}
	}
	if hasErr {
		st2 := c.st.clone()
		r := mkRes(st2, true)
		ev := &Event{Name: c.name, Args: c.args, In: in, Ret: r, Fail: true, Pos: c.pos, Fn: c.fr.fn}
		if t, ok := r.(*Tup); ok {
			ev.Err = t.vs[len(t.vs)-1]
		} else {
			ev.Err = r
		}
		st2.emit(ev)
		outs = append(outs, Outcome{st: st2, ret: r})
	}
	r := mkRes(c.st, false)
	if !pureExternal(c.name) || hasErr {
		c.st.emit(&Event{Name: c.name, Args: c.args, In: in, Ret: r, Pos: c.pos, Fn: c.fr.fn})
	}
	return append([]Outcome{{st: c.st, ret: r}}, outs...)
}

// shared: an object that all operations share, handed to a function that may
// modify it.
func (c *callCtx) shared(i int, a Value) {
	if f, ok := a.(*Iface); ok {
		a = f.v
	}
	p, ok := a.(*Ptr)
	if !ok || c.e.initSt == nil {
		return
	}
	o := c.st.obj(p.obj)
	if o == nil || o.global == nil && c.e.initSt.base[p.obj] == nil {
		return
	}
	if t := typeAt(o.typ, p.path); t != nil {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "sync", "sync/atomic", "regexp", "log", "encoding/base64", "encoding/binary":
				return // safe for concurrent use
			case "math/big":
				if i > 0 {
					return // only read
				}
			}
		}
	}
	name := o.site
	if o.global != nil {
		name = o.global.String()
	}
	c.st.emit(&Event{Name: "globalstore", Args: []Value{&Str{rlit(name)}, &Str{rlit(c.name)}}, Pos: c.pos, Fn: c.fr.fn})
}

func (e *Engine) havocReach(st *State, v Value, seen map[int]bool) {
	switch x := v.(type) {
	case *Ptr:
		if seen[x.obj] {
			return
		}
		seen[x.obj] = true
		o := st.obj(x.obj)
		if o == nil {
			return
		}
		e.havocReach(st, o.v, seen)
		n := *o
		n.v = e.havoc(st, o.v, o.typ, "escaped")
		st.setObj(x.obj, &n)
	case *Slice:
		if x.arr != nil {
			e.havocReach(st, x.arr, seen)
		}
	case *Struct:
		for _, f := range x.fs {
			e.havocReach(st, f, seen)
		}
	case *Arr:
		for _, f := range x.es {
			e.havocReach(st, f, seen)
		}
	case *Iface:
		e.havocReach(st, x.v, seen)
	case *Fn:
		for _, f := range x.binds {
			e.havocReach(st, f, seen)
		}
	case *Mod:
		for _, f := range x.f {
			e.havocReach(st, f, seen)
		}
	}
}

// resolve replaces pointers and slices by what they refer to.
func (e *Engine) resolve(st *State, v Value, depth int) Value {
	if depth > 6 {
		return v
	}
	switch x := v.(type) {
	case *Slice:
		if x.arr == nil {
			return &Bytes{&Rope{}}
		}
		if x.elem != nil && isByte(x.elem) {
			return &Bytes{e.content(st, x)}
		}
		o := st.obj(x.arr.obj)
		if o == nil {
			return v
		}
		b := e.loadPath(st, o.v, x.arr.path, nil)
		if a, ok := b.(*Arr); ok && x.off.isConst() && x.n.isConst() && x.off.c+x.n.c <= int64(len(a.es)) {
			n := &Arr{}
			for i := x.off.c; i < x.off.c+x.n.c; i++ {
				n.es = append(n.es, e.resolve(st, a.es[i], depth+1))
			}
			return n
		}
		return b
	case *Ptr:
		o := st.obj(x.obj)
		if o == nil {
			return v
		}
		return e.resolve(st, e.loadPath(st, o.v, x.path, nil), depth+1)
	case *Iface:
		return e.resolve(st, x.v, depth+1)
	case *Struct:
		n := &Struct{typ: x.typ}
		for _, f := range x.fs {
			n.fs = append(n.fs, e.resolve(st, f, depth+1))
		}
		return n
	case *Mod:
		n := &Mod{kind: x.kind, f: map[string]Value{}}
		for k, f := range x.f {
			n.f[k] = e.resolve(st, f, depth+1)
		}
		return n
	}
	return v
}

func (c *callCtx) resolveAll() []Value {
	var r []Value
	for _, a := range c.args {
		r = append(r, c.e.resolve(c.st, a, 0))
	}
	return r
}

// newErr is a new error value, different from every sentinel.
func (c *callCtx) newErr(why string, args ...Value) *Opq {
	return &Opq{t: fresh("err", why, args...), nonnil: true}
}

// event records what happened in st.
func (c *callCtx) event(st *State, name string, args ...Value) *Event {
	ev := &Event{Name: name, Args: args, Pos: c.pos, Fn: c.fr.fn}
	st.emit(ev)
	return ev
}

// fail is the outcome of c in which it returns vals and a new error.
func (c *callCtx) fail(name string, evArgs []Value, vals ...Value) Outcome {
	st := c.st.clone()
	return c.failIn(st, name, "", evArgs, nil, vals...)
}

func (c *callCtx) failIn(st *State, name, part string, evArgs []Value, err Value, vals ...Value) Outcome {
	if err == nil {
		why := name
		if len(evArgs) > 0 {
			if t, ok := evArgs[0].(*Term); ok && (t.op == "decoder" || t.op == "b64stream") && name == "read" {
				why = "decoder"
			}
		}
		err = c.newErr(why)
	}
	st.emit(&Event{Name: name, Args: evArgs, Fail: true, Part: part, Err: err, Pos: c.pos, Fn: c.fr.fn})
	return Outcome{st: st, ret: tup(append(append([]Value(nil), vals...), err)...)}
}

func tup(vs ...Value) Value {
	switch len(vs) {
	case 0:
		return Nil{}
	case 1:
		return vs[0]
	}
	return &Tup{vs}
}

func (c *callCtx) lin(i int) *Lin {
	if i < len(c.args) {
		if l, ok := c.args[i].(*Lin); ok {
			return l
		}
	}
	return lin(fresh("ext", "arg"))
}

func (c *callCtx) slice(i int) *Slice {
	if i < len(c.args) {
		switch x := c.args[i].(type) {
		case *Slice:
			return x
		}
	}
	return &Slice{off: con(0), n: con(0), c: con(0)}
}

// rope is the byte content of argument i.
func (c *callCtx) rope(i int) *Rope { return c.e.content(c.st, c.args[i]) }

func (c *callCtx) need(what string, ok bool, msg string) {
	c.e.oblig(c.fr, c.pos, what, ok, msg, c.st)
}

// bytes makes a new byte slice with content r.
func (e *Engine) bytes(st *State, r *Rope, site string) *Slice {
	p := e.newObj(st, nil, &Bytes{r}, site)
	return &Slice{arr: p, off: con(0), n: r.len(), c: r.len(), elem: types.Typ[types.Uint8]}
}

// ptrBytes makes a new byte array with content r.
func (e *Engine) ptrBytes(st *State, r *Rope, site string) *Ptr {
	return e.newObj(st, nil, &Bytes{r}, site)
}

// ---------------------------------------------------------------------------
// Builtins.

func (e *Engine) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Slice:
			if name == "cap" {
				return one(st, x.c)
			}
			return one(st, x.n)
		case *Str:
			return one(st, x.r.len())
		case *Ptr:
			if n := arrayLen(c.Args[0].Type()); n >= 0 {
				return one(st, con(n))
			}
		case *Bytes:
			return one(st, x.r.len())
		case *Arr:
			return one(st, con(int64(len(x.es))))
		case *Opq:
			return one(st, lin(mkIv("len", "", 0, maxLen, x.t)))
		case Nil:
			return one(st, con(0))
		}
		return one(st, lin(freshIv("ext", name, 0, maxLen)))
	case "copy":
		dst, ok := args[0].(*Slice)
		if !ok {
			break
		}
		var src *Rope
		switch y := args[1].(type) {
		case *Str:
			src = y.r
		case *Slice:
			if y.elem != nil && !isByte(y.elem) {
				e.note(fr.fn, pos, "copy of non-bytes")
				return one(st, lin(freshIv("ext", "copy", 0, maxLen)))
			}
			src = e.content(st, y)
		default:
			src = e.content(st, y)
		}
		return e.copyTo(fr, st, dst, src, pos)
	case "append":
		return e.appendTo(fr, st, args, pos)
	case "clear":
		if s, ok := args[0].(*Slice); ok {
			if s.elem != nil && isByte(s.elem) {
				e.setContent(fr, st, s, con(0), rzero(s.n), pos)
			}
			return one(st, Nil{})
		}
	case "min", "max":
		var ls []*Lin
		for _, a := range args {
			l, ok := a.(*Lin)
			if !ok {
				return one(st, e.unknown(st, c.Args[0].Type(), name))
			}
			ls = append(ls, l)
		}
		return e.minMax(st, ls, name == "min")
	case "print", "println":
		st.emit(&Event{Name: "print", Args: append([]Value{&Str{rlit("stderr")}}, args...), In: args, Pos: pos, Fn: fr.fn})
		return one(st, Nil{})
	case "recover":
		if p := st.panicking; p != nil && p.depth == fr.depth {
			st.panicking = nil
			return one(st, p.val)
		}
		return one(st, Nil{})
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	e.note(fr.fn, pos, "builtin "+name+" not modelled")
	if c.Signature().Results().Len() == 0 {
		return one(st, Nil{})
	}
	return one(st, e.unknown(st, c.Signature().Results().At(0).Type(), name))
}

// minMax forks on which is smaller, unless that is known.
func (e *Engine) minMax(st *State, ls []*Lin, isMin bool) []Outcome {
	outs := one(st, ls[0])
	for _, l := range ls[1:] {
		var next []Outcome
		for _, o := range outs {
			a, l := o.st.simp(o.ret.(*Lin)), o.st.simp(l)
			lt := e.less(o.st, a, l)
			if lt.known >= 0 {
				r := l
				if (lt.known == 1) == isMin {
					r = a
				}
				next = append(next, Outcome{st: o.st, ret: r})
				continue
			}
			s2 := o.st.clone()
			x, y := a, l
			if !isMin {
				x, y = l, a
			}
			if o.st.assume(lt, true) {
				next = append(next, Outcome{st: o.st, ret: x})
			}
			if s2.assume(lt, false) {
				next = append(next, Outcome{st: s2, ret: y})
			}
		}
		outs = next
	}
	return outs
}

func (e *Engine) copyTo(fr *Frame, st *State, dst *Slice, src *Rope, pos token.Pos) []Outcome {
	var outs []Outcome
	for _, o := range e.minMax(st, []*Lin{dst.n, src.len()}, true) {
		n := o.st.simp(o.ret.(*Lin))
		// a copy into a small buffer that is not filled: one case per length
		if w := dst.n; w.isConst() && w.c <= 4 && !n.isConst() && !o.st.prove(n.sub(w)) {
			for k := int64(0); k < w.c; k++ {
				s := o.st.clone()
				if !s.assume(e.known(s, eqPred(n, con(k))), true) {
					continue
				}
				if k > 0 {
					e.setContent(fr, s, dst, con(0), s.sliceRope(src, con(0), con(k)), pos)
				}
				outs = append(outs, Outcome{st: s, ret: con(k)})
			}
			continue
		}
		if !(n.isConst() && n.c == 0) {
			e.setContent(fr, o.st, dst, con(0), o.st.sliceRope(src, con(0), n), pos)
		}
		outs = append(outs, Outcome{st: o.st, ret: n})
	}
	return outs
}

func (e *Engine) appendTo(fr *Frame, st *State, args []Value, pos token.Pos) []Outcome {
	s, ok := args[0].(*Slice)
	if !ok || len(args) < 2 {
		return one(st, args[0])
	}
	if s.elem != nil && isByte(s.elem) {
		add := e.content(st, args[1])
		return one(st, e.appendRope(fr, st, s, add, pos))
	}
	// other element types: known arrays only
	t, ok := args[1].(*Slice)
	if !ok {
		return one(st, args[0])
	}
	a, oka := e.elems(st, s)
	b, okb := e.elems(st, t)
	if oka && okb {
		all := append(append([]Value(nil), a...), b...)
		p := e.newObj(st, nil, &Arr{all}, "append")
		n := con(int64(len(all)))
		return one(st, &Slice{arr: p, off: con(0), n: n, c: n, elem: s.elem})
	}
	n := s.n.add(t.n)
	p := e.newObj(st, nil, &Opq{t: fresh("ext", "append", e.resolve(st, s, 0), e.resolve(st, t, 0))}, "append")
	return one(st, &Slice{arr: p, off: con(0), n: n, c: n, elem: s.elem})
}

func (e *Engine) elems(st *State, s *Slice) ([]Value, bool) {
	if s.arr == nil {
		return nil, true
	}
	o := st.obj(s.arr.obj)
	if o == nil {
		return nil, false
	}
	a, ok := e.loadPath(st, o.v, s.arr.path, nil).(*Arr)
	if !ok || !s.off.isConst() || !s.n.isConst() || s.off.c+s.n.c > int64(len(a.es)) {
		return nil, false
	}
	return a.es[s.off.c : s.off.c+s.n.c], true
}

// appendRope appends to a byte slice: in place if the capacity is known to
// suffice, to a new array otherwise. If the capacity is unknown, both are
// possible; the spare part of the old array becomes unknown.
func (e *Engine) appendRope(fr *Frame, st *State, s *Slice, add *Rope, pos token.Pos) *Slice {
	n := s.n.add(add.len())
	if s.arr != nil && st.prove(s.c.sub(n)) {
		if add.len().isConst() && add.len().c == 0 {
			return s
		}
		long := &Slice{arr: s.arr, off: s.off, n: n, c: s.c, elem: s.elem}
		e.setContent(fr, st, long, s.n, add, pos)
		return long
	}
	r := cat(e.content(st, s), add)
	if s.arr != nil && !st.prove(n.sub(s.c).addc(-1)) && !s.c.equal(s.n) {
		if b, ok := e.loadPath(st, st.obj(s.arr.obj).v, s.arr.path, nil).(*Bytes); ok {
			end := s.off.add(s.n)
			tail := b.r.len().sub(end)
			if st.prove(tail) {
				e.store(fr, st, s.arr, &Bytes{cat(st.sliceRope(b.r, con(0), end), rtermN(fresh("ext", "spare"), tail))}, pos)
			}
		}
	}
	out := e.bytes(st, r, "append")
	out.elem = s.elem
	// the new array may have spare capacity
	c := lin(freshIv("cap", "", 0, maxLen))
	st.addIneq(c.sub(n))
	o := *st.obj(out.arr.obj)
	sp := c.sub(n)
	o.v = &Bytes{cat(r, rtermN(fresh("ext", "spare"), sp))}
	st.setObj(out.arr.obj, &o)
	out.c = c
	return out
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "math.", "math/bits.", "path.", "path/filepath.", "errors.", "bytes.", "encoding/hex.", "sort.", "html.", "net/url.", "time."}

// pureExternal: functions that have no effect and whose results are functions
// of (the contents of) their arguments.
func pureExternal(name string) bool {
	if strings.HasPrefix(name, "(") {
		return name == "(error).Error"
	}
	switch name {
	case "path/filepath.Glob", "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.EvalSymlinks", "path/filepath.Abs", "time.Now", "time.Sleep",
		"sort.Slice", "sort.Sort", "sort.Strings", "sort.Ints":
		return false
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		return true
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) && !strings.Contains(name[len(p):], "/") {
			return true
		}
	}
	return false
}
