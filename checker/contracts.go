package main

import "go/types"

// ---------------------------------------------------------------------------
// Contracts of the repository's own exported functions, for the analysis of
// the layer above them. The contracts themselves are established by the
// properties of the layer below.

const sigPkg = modPath + "/signify"
const b64Pkg = modPath + "/base64"
const cryPkg = modPath + "/crypto"

// keyContracts: loading and converting keys.
func (e *Engine) keyContracts() {
	for name, ev := range map[string]string{"LoadPublicKey": "loadpub", "LoadPrivateKey": "loadpriv"} {
		ev := ev
		e.local[sigPkg+"."+name] = func(c *callCtx) []Outcome {
			t := c.sig.Results().At(0).Type()
			path := c.args[0]
			bad := c.fail(ev, []Value{path}, Nil{})
			el := under(t).(*types.Pointer).Elem()
			tm := fresh("key", ev, path)
			p := c.e.newObj(c.st, el, c.e.fromTerm(c.st, el, tm), ev)
			c.st.emit(&Event{Name: ev, Args: []Value{path}, Ret: p, Pos: c.pos, Fn: c.fr.fn})
			return []Outcome{{st: c.st, ret: tup(p, Nil{})}, bad}
		}
	}
	conv := func(typ, op string) {
		e.local["(*"+sigPkg+"."+typ+").ToBox"] = func(c *callCtx) []Outcome {
			k := c.e.resolve(c.st, c.args[0], 0)
			bad := c.fail(op, []Value{k}, Nil{})
			r := rtermN(mk(op, "", k), con(32))
			c.st.emit(&Event{Name: op, Args: []Value{k}, Out: r, Pos: c.pos, Fn: c.fr.fn})
			return []Outcome{{st: c.st, ret: tup(c.e.ptrBytes(c.st, r, op), Nil{})}, bad}
		}
	}
	conv("Public", "pubbox")
	conv("Private", "privbox")
}

// codecContracts: the base64 layer as a stream.
func (e *Engine) codecContracts() {
	e.local[b64Pkg+".NewEncoder"] = func(c *callCtx) []Outcome {
		id := fresh("encoder", "", c.srcTerm(c.args[0]))
		f := map[string]Value{"id": id}
		if m, p := c.modOf(c.st, c.args[0]); m != nil && (m.kind == "bufw" || m.kind == "buffer") {
			f["dst"] = p
		}
		return c.one(c.modIface(c.st, "encoder", &Mod{kind: "encoder", f: f}))
	}
	e.local[b64Pkg+".NewDecoder"] = func(c *callCtx) []Outcome {
		id := fresh("decoder", "", c.srcTerm(c.args[0]))
		if m, p := c.modOf(c.st, c.args[0]); m != nil && m.kind == "bufreader" {
			c.st.emit(&Event{Name: "wrap", Args: []Value{m.f["id"]}, Via: p, Pos: c.pos, Fn: c.fr.fn})
		} else {
			c.event(c.st, "wrap", c.srcTerm(c.args[0]))
		}
		return c.one(c.modIface(c.st, "decoder", &Mod{kind: "decoder", f: map[string]Value{"id": id}}))
	}
}

// libOps: the operations that the command calls.
var libOps = map[string]string{
	sigPkg + ".Verify": "Verify", sigPkg + ".Sign": "Sign", sigPkg + ".GenerateKey": "GenerateKey",
	cryPkg + ".Seal": "Seal", cryPkg + ".Open": "Open",
}

func (e *Engine) libContracts() {
	for fn, op := range libOps {
		op := op
		e.local[fn] = func(c *callCtx) []Outcome {
			in := c.resolveAll()
			bad := c.fail("lib", append([]Value{&Str{rlit(op)}}, in...))
			c.st.emit(&Event{Name: "lib", Args: append([]Value{&Str{rlit(op)}}, in...), Pos: c.pos, Fn: c.fr.fn})
			return []Outcome{{st: c.st, ret: Nil{}}, bad}
		}
	}
}
