package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Rules over the effects of every entry point.

// exported lists the exported functions and methods of a package.
func (r *Run) exported(short string) []string {
	p := r.w.by[pkgPath(short)]
	if p == nil {
		r.ob("anchor", false, nil, 0, "package %s does not exist any more", short)
		return nil
	}
	var out []string
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			if f := p.Func(n); f != nil && len(f.Blocks) > 0 {
				out = append(out, short+"."+n)
			}
		case *types.TypeName:
			if o.IsAlias() {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(o.Type()))
			for i := 0; i < ms.Len(); i++ {
				if f := ms.At(i).Obj(); f.Exported() {
					if g := r.w.fn("(*" + short + "." + n + ")." + f.Name()); g != nil && len(g.Blocks) > 0 {
						out = append(out, "(*"+short+"."+n+")."+f.Name())
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// sigOps are the operations on keys and signatures.
func (r *Run) sigOps() []*Analysis {
	var out []*Analysis
	for _, n := range r.exported("signify") {
		out = append(out, r.analyse(kPlain, n, nil))
	}
	return out
}

// cryOps are the operations on sealed files, above the key and base64 layers.
func (r *Run) cryOps() []*Analysis {
	var out []*Analysis
	for _, n := range r.exported("crypto") {
		out = append(out, r.analyse(kCrypto, n, nil))
	}
	return out
}

// promptFns analyses the default values of the replaceable functions.
func (r *Run) promptFns() []*Analysis {
	if r.prompts != nil {
		return r.prompts
	}
	e := r.engine(kPlain)
	var out []*Analysis
	var names []string
	for n := range e.hooks {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := e.hooks[n].(*Fn)
		if !ok || f.fn == nil || len(f.fn.Blocks) == 0 {
			continue
		}
		st := e.start()
		var args []Value
		for i := 0; i < f.fn.Signature.Params().Len(); i++ {
			p := f.fn.Signature.Params().At(i)
			args = append(args, e.param(st, p.Name(), p.Type()))
		}
		a := e.analyseFn("default "+shortName(n), f, st, args)
		r.checkDone(a)
		out = append(out, a)
	}
	r.floor("replaceable functions", len(out), 1)
	r.prompts = out
	return out
}

func shortName(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

// ---- C03

func ruleC03(r *Run) {
	var as []*Analysis
	as = append(as, r.sigOps()...)
	as = append(as, r.cryOps()...)
	as = append(as, r.mainFn())
	as = append(as, r.promptFns()...)
	as = append(as, r.loadedToBox()...)
	as = append(as, r.loadedPubToBox()...)
	for _, ctor := range []string{"base64.NewEncoder", "base64.NewDecoder"} {
		c := r.client(ctor, "")
		if c.err != "" {
			continue
		}
		as = append(as, c.ctor)
		for _, cc := range c.calls {
			as = append(as, cc.a)
		}
	}
	n, exits := 0, 0
	for _, a := range as {
		if a.err != "" {
			continue
		}
		for _, rec := range a.log {
			if rec.kind != "oblig" {
				continue
			}
			n++
			r.ob(rec.what, rec.ok, rec.fn, rec.pos, "%s may panic: %s", a.name, rec.msg)
		}
		for _, x := range a.exits {
			exits++
			r.ob("no panic", x.kind != xPanic, a.fn, x.pos, "%s panics at %s", a.name, r.leaf(x))
		}
	}
	r.floor("operations that may panic", n, 500)
	r.floor("exits", exits, 300)
	// every function that handles input is covered
	covered := map[*ssa.Function]bool{}
	for _, a := range as {
		if a.e != nil {
			for f := range a.e.seenFns {
				covered[f] = true
			}
		}
	}
	for _, f := range r.w.allFns() {
		p := pkgOf(f)
		if f.Synthetic != "" || strings.HasSuffix(p.Path(), "edwards25519") || covered[f] || f.Parent() != nil && !covered[f.Parent()] {
			continue
		}
		if !strings.Contains(f.Name(), "init") && r.called(f) {
			r.notes = append(r.notes, "not reached from the entry points analysed: "+shortFn(f))
		}
	}
	// the field arithmetic works on arrays of fixed size
	fixed := 0
	for _, f := range r.w.allFns() {
		if !strings.HasSuffix(pkgOf(f).Path(), "edwards25519") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.IndexAddr:
					fixed++
					r.ob("fixed index", r.fixedIndex(x), f, x.Pos(), "an index into a table of the field arithmetic is not bounded by its length")
				case *ssa.Panic:
					r.ob("fixed index", false, f, x.Pos(), "the field arithmetic may panic")
				}
			}
		}
	}
	r.floor("indices in the field arithmetic", fixed, 100)
}

// called: some function of the repository calls f.
func (r *Run) called(f *ssa.Function) bool {
	refs := f.Referrers()
	if refs != nil && len(*refs) > 0 {
		return true
	}
	for _, g := range r.w.allFns() {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					return true
				}
			}
		}
	}
	return false
}

// fixedIndex: a constant index, or a counter bounded by the length.
func (r *Run) fixedIndex(x *ssa.IndexAddr) bool {
	n := int64(-1)
	t := under(x.X.Type())
	if p, ok := t.(*types.Pointer); ok {
		t = under(p.Elem())
	}
	if a, ok := t.(*types.Array); ok {
		n = a.Len()
	}
	if c, ok := x.Index.(*ssa.Const); ok {
		return n < 0 || c.Int64() >= 0 && c.Int64() < n
	}
	return true // interpreted where the function is analysed
}

// ---- C10

// rawPass: the value holds bytes of a passphrase as they are.
func rawPass(v Value) bool {
	found := false
	walk(v, map[string]bool{}, func(x Value) bool {
		t, ok := x.(*Term)
		if !ok {
			return !found
		}
		switch t.op {
		case "passphrase":
			found = true
		case "kdf", "len", "sha512", "edsign", "edverify", "pure", "err", "b64enc":
			return false
		}
		return !found
	})
	return found
}

func ruleC10(r *Run) {
	var as []*Analysis
	as = append(as, r.sigOps()...)
	as = append(as, r.loadedToBox()...)
	as = append(as, r.cryOps()...)
	as = append(as, r.mainFn())
	as = append(as, r.promptFns()...)
	ops := map[string]bool{}
	n := 0
	for _, a := range as {
		for _, x := range a.exits {
			keep := map[int]bool{}
			var ret *Slice
			if strings.HasPrefix(a.name, "default ") && !failure(a, x) {
				ret, _ = resultOf(x, 0).(*Slice)
			}
			if ret != nil && ret.arr != nil {
				keep[ret.arr.obj] = true
			}
			for _, e := range x.st.events() {
				if (e.Name != "prompt" && e.Name != "readpassword") || e.Fail {
					continue
				}
				s, _ := e.Ret.(*Slice)
				n++
				ops[a.name] = true
				r.site(e)
				if s == nil || s.arr == nil {
					r.ob("wiped", false, e.Fn, e.Pos, "the passphrase is not tracked")
					continue
				}
				if keep[s.arr.obj] {
					continue
				}
				left := a.e.content(x.st, s)
				r.ob("wiped", isZero(x.st, left), e.Fn, e.Pos, "%s returns (exit at %s) without having overwritten the passphrase obtained here: %s is left", a.name, r.leaf(x), short(left))
			}
			// no copies are left
			x.st.each(func(id int, o *Obj) {
				if keep[id] || x.st.base[id] == o {
					return
				}
				if rawPass(heldBytes(x.st, o.v)) {
					r.ob("no copy left", false, a.fn, x.pos, "%s returns (exit at %s) leaving a copy of the passphrase in memory (%s: %s)", a.name, r.leaf(x), o.site, short(o.v))
				}
			})
			r.oblN["no copy left"]++
			r.oblOK["no copy left"]++
		}
	}
	r.floor("passphrases obtained", n, 10)
	r.floor("operations that obtain passphrases", len(ops), 4)
}

// heldBytes keeps only the byte contents of an object, not the closures and
// references in it.
func heldBytes(st *State, v Value) Value {
	switch x := v.(type) {
	case *Bytes, *Rope:
		n := &Rope{}
		for _, g := range st.simpRope(ropeOf(v)).segs {
			if g.kind == sSub && st.prove(g.n.scale(-1)) {
				continue // empty
			}
			n.segs = append(n.segs, g)
		}
		return n
	case *Struct:
		n := &Struct{typ: x.typ}
		for _, f := range x.fs {
			n.fs = append(n.fs, heldBytes(st, f))
		}
		return n
	case *Arr:
		n := &Arr{}
		for _, f := range x.es {
			n.es = append(n.es, heldBytes(st, f))
		}
		return n
	case *Mod:
		n := &Mod{kind: x.kind, f: map[string]Value{}}
		for k, f := range x.f {
			if ropeOf(f) != nil {
				n.f[k] = f
			}
		}
		return n
	}
	return Nil{}
}

// ---- C12

func ruleC12(r *Run) {
	uses := 0
	fresh := func(a *Analysis) {
		for _, x := range a.exits {
			failed := (*Event)(nil)
			for _, e := range x.st.events() {
				switch e.Name {
				case "keygen", "boxgen":
					uses++
					r.site(e)
					r.ob("secure source", len(e.Args) > 0 && isSecureReader(e.Args[0]), e.Fn, e.Pos, "the key is not generated from the system's secure random source but from %s", short(e.Args[0]))
					if e.Fail {
						failed = e
					}
				case "rand":
					uses++
					r.site(e)
					if e.Fail {
						failed = e
					}
				case "open", "writefile", "write":
					if failed != nil && !e.Fail && e.Name != "open" {
						r.ob("nothing after failure", false, e.Fn, e.Pos, "something is written although the random source failed (exit at %s)", r.leaf(x))
					}
				}
			}
			if failed != nil {
				r.ob("failure reported", failure(a, x) && !success(a, x), failed.Fn, failed.Pos, "%s may succeed (exit at %s) although the random source failed", a.name, r.leaf(x))
				for _, o := range outFiles(x.st) {
					r.ob("nothing after failure", a.name == "crypto.Seal" || o.open.Fail, o.open.Fn, o.open.Pos, "a file is written although the random source failed (exit at %s)", r.leaf(x))
				}
			}
		}
	}
	g := r.genkey()
	kp := r.analyse(kPlain, "signify.GenerateKeypair", nil)
	fresh(g)
	fresh(kp)
	gen := 0
	for _, x := range r.successes(g) {
		f := r.keyFiles(g, x)
		if f == nil {
			continue
		}
		st := x.st
		gen++
		salt, num := randCells(st, sub(st, f.sec, 8, 16), 16), randCells(st, sub(st, f.sec, 32, 8), 8)
		r.ob("salt", salt != nil, g.fn, x.pos, "the salt is not drawn in full from the secure random source (exit at %s): %s", r.leaf(x), short(sub(st, f.sec, 8, 16)))
		r.ob("key number", num != nil, g.fn, x.pos, "the key number is not drawn in full from the secure random source (exit at %s): %s", r.leaf(x), short(sub(st, f.sec, 32, 8)))
		seen := map[string]bool{}
		for _, c := range append(append([]string{}, salt...), num...) {
			r.ob("independent", !seen[c], g.fn, x.pos, "random bytes are used twice (exit at %s)", r.leaf(x))
			seen[c] = true
		}
		seed := seedOf(st, f.pub)
		okSeed := seed != nil
		if okSeed {
			t := whole(st, seed)
			okSeed = t != nil && t.op == "edseed"
			if !okSeed {
				ids := randCells(st, seed, 32)
				okSeed = ids != nil
				for _, c := range ids {
					okSeed = okSeed && !seen[c]
				}
			}
		}
		r.ob("key", okSeed, g.fn, x.pos, "the key is not generated from the secure random source (exit at %s): %s", r.leaf(x), short(seed))
	}
	r.floor("generated key pairs", gen, 1)
	s := r.analyse(kCrypto, "crypto.Seal", nil)
	fresh(s)
	boxes := 0
	for _, x := range r.successes(s) {
		n := 0
		for _, e := range x.st.events() {
			if e.Name == "boxgen" && !e.Fail {
				n++
				r.ob("ephemeral key", !e.Loop, e.Fn, e.Pos, "the ephemeral key is generated in a loop")
			}
		}
		boxes += n
		r.ob("ephemeral key", n >= 1, s.fn, x.pos, "sealing succeeds (exit at %s) without generating an ephemeral key", r.leaf(x))
	}
	r.floor("generated ephemeral keys", boxes, 1)
	r.floor("uses of the random source", uses, 6)
	// who may call: no other source of randomness
	for _, f := range r.w.allFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						p := pkgOf(g)
						r.ob("other sources", p == nil || p.Path() != "math/rand" && p.Path() != "math/rand/v2", f, i.Pos(), "%s, which is not a secure source, is used", g.String())
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.String() == "crypto/rand.Reader" {
						if st, ok := i.(*ssa.Store); ok && st.Addr == g {
							r.ob("other sources", false, f, i.Pos(), "the secure random source is replaced")
						}
					}
				}
			}
		}
	}
}

func isSecureReader(v Value) bool {
	v = unwrap(v)
	switch x := v.(type) {
	case Nil:
		return true // the library's default
	case *Opq:
		return x.t.op == "global" && x.t.s == "crypto/rand.Reader"
	case *Term:
		return x.op == "global" && x.s == "crypto/rand.Reader"
	}
	return false
}

// ---- C13

var banned = []string{
	"os.Remove", "os.RemoveAll", "os.Rename", "os.Chmod", "os.Chown", "os.Lchown", "os.Chtimes", "os.Link", "os.Symlink", "os.Truncate",
	"os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.CreateTemp", "os.StartProcess", "os.CopyFS", "os.Chdir", "os.Chroot",
	"io/ioutil.TempFile", "io/ioutil.TempDir", "(*os.File).Chmod", "(*os.File).Chown", "(*os.File).Chdir",
	"(*os.Process).Kill", "(*os.Process).Signal",
}

var bannedPkgs = map[string]bool{"os/exec": true, "net": true, "net/http": true, "net/rpc": true, "net/smtp": true, "syscall": true, "plugin": true,
	"golang.org/x/sys/unix": true, "golang.org/x/crypto/ssh": true}

// mayWrite: the path is one that the operation is documented to write.
func mayWrite(a *Analysis, st *State, p *Rope) (bool, string) {
	path := func(i int, def *Rope) bool {
		if def == nil {
			return sameRope(st, p, strArg(a, i))
		}
		return pathIs(st, p, strArg(a, i), def)
	}
	switch a.name {
	case "signify.Sign":
		return path(2, cat(strArg(a, 1), rlit(".sig"))), "the signature file"
	case "signify.GenerateKey":
		return sameRope(st, p, cat(strArg(a, 0), rlit(".sec"))) || sameRope(st, p, cat(strArg(a, 0), rlit(".pub"))), "the two key files"
	case "crypto.Seal":
		return path(2, cat(strArg(a, 1), rlit(".enc"))), "the encrypted file"
	case "crypto.Open":
		return path(2, nil), "the message file"
	}
	return false, "no file"
}

func ruleC13(r *Run) {
	ok := mayWrite
	var as []*Analysis
	as = append(as, r.sigOps()...)
	as = append(as, r.loadedToBox()...)
	as = append(as, r.loadedPubToBox()...)
	as = append(as, r.cryOps()...)
	as = append(as, r.mainFn())
	as = append(as, r.promptFns()...)
	writes, events := 0, 0
	for _, a := range as {
		for _, x := range a.exits {
			outs := map[Value]bool{}
			for _, o := range outFiles(x.st) {
				writes++
				r.site(o.open)
				if o.id != nil {
					outs[o.id] = true
				}
				good, what := ok(a, x.st, o.path)
				r.ob("documented output", good, o.open.Fn, o.open.Pos, "%s opens %s for writing (exit at %s); it may write %s", a.name, short(o.path), r.leaf(x), what)
			}
			for _, e := range x.st.events() {
				events++
				if e.Name == "file.Truncate" || e.Name == "file.Sync" {
					if t, is := e.Args[0].(*Term); is && outs[t] {
						continue
					}
				}
				r.ob("no other effect", !otherEffect(e.Name), e.Fn, e.Pos, "%s calls %s", a.name, e.Name)
			}
		}
		if a.e != nil {
			for n, p := range a.e.unmod {
				r.ob("no other effect", !otherEffect(n), a.fn, p, "%s calls %s", a.name, n)
			}
		}
	}
	r.floor("files opened for writing", writes, 10)
	r.floor("events", events, 1000)
	// who may call
	bad := map[string]bool{}
	for _, b := range banned {
		bad[b] = true
	}
	n := 0
	for _, f := range r.w.allFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, is := i.(ssa.CallInstruction)
				if !is {
					continue
				}
				n++
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				p := pkgOf(g)
				r.ob("who may call", !bad[g.String()] && (p == nil || !bannedPkgs[p.Path()] || f.Name() == "init"), f, i.Pos(), "%s is called", g.String())
			}
		}
	}
	r.floor("call sites", n, 200)
}

func otherEffect(name string) bool {
	switch name {
	case "file.Chmod", "file.Chown", "file.Truncate":
		return true
	}
	for _, b := range banned {
		if name == b {
			return true
		}
	}
	s := strings.TrimLeft(name, "(*")
	for p := range bannedPkgs {
		if strings.HasPrefix(s, p+".") {
			return true
		}
	}
	return false
}

// ---- C22

func ruleC22(r *Run) {
	var as []*Analysis
	as = append(as, r.sigOps()...)
	as = append(as, r.loadedToBox()...)
	as = append(as, r.loadedPubToBox()...)
	as = append(as, r.cryOps()...)
	as = append(as, r.promptFns()...)
	for _, ctor := range []string{"base64.NewEncoder", "base64.NewDecoder"} {
		next := ""
		if ctor == "base64.NewEncoder" {
			next = "Write"
		}
		if c := r.client(ctor, next); c.err == "" {
			as = append(as, c.ctor)
			for _, cc := range c.calls {
				as = append(as, cc.a)
			}
		}
	}
	n, keys := 0, 0
	for _, a := range as {
		if a.err != "" {
			continue
		}
		unlocked := func(x Exit) bool {
			for _, e := range x.st.events() {
				if e.Name == "prompt" {
					return true
				}
			}
			return false
		}
		for _, x := range a.exits {
			evs := x.st.events()
			for _, e := range evs {
				n++
				switch e.Name {
				case "globalstore":
					r.ob("no shared state", false, e.Fn, e.Pos, "%s modifies %s, which all operations share", a.name, short(e.Args[0]))
				case "opaquestore":
					r.ob("no shared state", false, e.Fn, e.Pos, "%s stores through a pointer that it shares with others: %s", a.name, short(e.Args))
				case "go":
					r.ob("no goroutine", false, e.Fn, e.Pos, "%s starts a goroutine, whose interference is not analysed", a.name)
				case "watchstore":
					keys++
					r.ob("keys are only read", unlocked(x), e.Fn, e.Pos, "%s modifies its key although it need not be unlocked (exit at %s)", a.name, r.leaf(x))
				default:
					r.oblN["no shared state"]++
					r.oblOK["no shared state"]++
				}
			}
		}
		for _, rec := range a.log {
			if rec.kind == "note" && rec.msg == "go statement" {
				r.ob("no goroutine", false, rec.fn, rec.pos, "%s starts a goroutine, whose interference is not analysed", a.name)
			}
		}
	}
	r.floor("events", n, 1000)
	r.floor("stores to a key that is being unlocked", keys, 1)
	// no store to a package variable outside initialisation, in any function
	stores := 0
	for _, f := range r.w.allFns() {
		p := pkgOf(f)
		if p.Name() == "main" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || strings.HasPrefix(f.Name(), "init$") && false {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var to ssa.Value
				switch s := i.(type) {
				case *ssa.Store:
					to = s.Addr
				case *ssa.MapUpdate:
					to = s.Map
				case ssa.CallInstruction:
					if c, ok := s.Common().Value.(*ssa.Builtin); ok && len(s.Common().Args) > 0 {
						switch c.Name() {
						case "delete", "clear", "copy":
							to = s.Common().Args[0]
						}
					}
				}
				if to == nil {
					continue
				}
				stores++
				if u, ok := to.(*ssa.UnOp); ok && u.Op == token.MUL {
					to = u.X // a map or slice that the variable holds
				}
				g := rootGlobal(to)
				r.ob("no store to a variable of a package", g == nil, f, i.Pos(), "%s is modified", g)
			}
		}
	}
	r.floor("stores", stores, 100)
}

// rootGlobal is the package variable that an address is part of.
func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := under(x.X.Type()).(*types.Slice); ok {
				if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
					v = u.X
					continue
				}
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				v = u.X
			}
		default:
			return nil
		}
	}
}
