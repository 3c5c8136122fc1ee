package main

import (
	"go/types"
	"strings"
)

// ---------------------------------------------------------------------------
// C11: secrets do not reach output, messages or other files.

// leakPolicy says what is secret in an operation.
type leakPolicy struct {
	st     *State
	priv   []*Rope         // paths of private key files
	msg    *Rope           // path of the message that is being sealed
	terms  map[string]bool // keys of secret terms
	fields map[string]bool // names of the fields that hold a private key
	seen   map[string]bool
}

// secretBytesFrom is where the key begins in a private key record.
const secretBytesFrom = 40

func (p *leakPolicy) leak(v Value) string {
	p.seen = map[string]bool{}
	return p.visit(v)
}

func (p *leakPolicy) path(t *Term, want *Rope) bool {
	if want == nil {
		return false
	}
	k, s := want.key(), p.st.simpRope(want).key()
	for _, f := range files(t) {
		if f == k || f == s {
			return true
		}
	}
	return false
}

func (p *leakPolicy) private(t *Term) bool {
	for _, q := range p.priv {
		if p.path(t, q) {
			return true
		}
	}
	return false
}

func (p *leakPolicy) all(vs ...Value) string {
	for _, v := range vs {
		if s := p.visit(v); s != "" {
			return s
		}
	}
	return ""
}

// text: the bytes t of a file.
func (p *leakPolicy) text(t *Term) string {
	switch {
	case p.private(t):
		return "the content of a private key file"
	case p.path(t, p.msg):
		return "the plaintext of the message"
	}
	return ""
}

func (p *leakPolicy) visit(v Value) string {
	if v == nil {
		return ""
	}
	k := v.key()
	if p.seen[k] {
		return ""
	}
	p.seen[k] = true
	switch x := v.(type) {
	case *Term:
		if p.terms[k] {
			return "a secret"
		}
		switch x.op {
		case "edsign", "edverify", "boxseal", "boxopen", "authsum", "authverify", "edpubof", "boxpub", "pubbox", "len", "nread", "fsize", "fileinfo":
			return ""
		case "passphrase", "edseed", "kdf", "boxsk", "boxshared", "privbox":
			return map[string]string{"passphrase": "a passphrase", "edseed": "a private key", "kdf": "a key-encryption key",
				"boxsk": "a box private key", "boxshared": "a shared box key", "privbox": "a box private key"}[x.op]
		case "key":
			if x.s == "loadpriv" {
				return "a private key"
			}
			return ""
		case "field":
			if p.fields[x.s] && len(x.args) == 1 {
				t, _ := x.args[0].(*Term)
				for t != nil && t.op == "field" && len(t.args) == 1 {
					t, _ = t.args[0].(*Term)
				}
				if t != nil && (t.op == "object" || t.op == "param") {
					return "a private key"
				}
			}
		case "b64dec":
			if p.private(x) {
				return "the private key record"
			}
			return ""
		case "at":
			if r, ok := x.args[0].(*Term); ok && r.op == "b64dec" {
				if p.private(r) {
					if i, ok := x.args[1].(*Lin); !ok || !i.isConst() || i.c >= secretBytesFrom {
						return "the private key"
					}
				}
				return ""
			}
			if t, ok := x.args[0].(*Term); ok && t.op == "file" {
				return p.text(t)
			}
		case "line", "read", "partial":
			if s := p.text(x); s != "" {
				return s
			}
			return ""
		case "file":
			return "" // the handle
		}
		if s := p.all(x.args...); s != "" {
			return s
		}
		return p.all(x.deps...)
	case *Lin:
		for _, t := range x.ts {
			if s := p.visit(t.t); s != "" {
				return s
			}
		}
	case *Rope:
		for _, g := range x.segs {
			if g.cell != nil {
				if s := p.visit(g.cell); s != "" {
					return s
				}
			}
			if g.t == nil {
				continue
			}
			switch {
			case g.kind == sSub && g.t.op == "file":
				if s := p.text(g.t); s != "" {
					return s
				}
				continue
			case g.kind == sSub && g.t.op == "b64dec" && p.private(g.t):
				if p.st.prove(con(secretBytesFrom).sub(g.off.add(g.n))) {
					continue
				}
				return "the private key"
			}
			if s := p.visit(g.t); s != "" {
				return s
			}
		}
	case *Str:
		return p.visit(x.r)
	case *Bytes:
		return p.visit(x.r)
	case *Struct:
		return p.all(x.fs...)
	case *Arr:
		return p.all(x.es...)
	case *Tup:
		return p.all(x.vs...)
	case *Iface:
		return p.visit(x.v)
	case *Opq:
		return p.visit(x.t)
	case *Bool:
		if x.p != nil {
			if x.p.b != nil {
				if s := p.visit(x.p.b); s != "" {
					return s
				}
			}
			return p.visit(x.p.a)
		}
	case *Mod:
		for _, f := range x.f {
			if s := p.visit(f); s != "" {
				return s
			}
		}
	}
	return ""
}

// secretFields names the fields of the type that can hold a key.
func secretFields(t types.Type, out map[string]bool, depth int) {
	s, ok := under(t).(*types.Struct)
	if !ok || depth > 3 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch u := under(f.Type()).(type) {
		case *types.Array:
			if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 && u.Len() >= 32 {
				out[f.Name()] = true
			}
		case *types.Slice:
			if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				out[f.Name()] = true
			}
		case *types.Struct:
			secretFields(f.Type(), out, depth+1)
		}
	}
}

// harmless events take secrets without passing them on.
var harmless = map[string]bool{"read": true, "readfull": true, "readall": true, "readfile": true, "close": true, "stat": true, "seek": true,
	"scanline": true, "scan": true, "b64decode": true, "kdf": true, "keygen": true, "edsign": true, "edverify": true, "boxgen": true,
	"precompute": true, "seal": true, "unseal": true, "authsum": true, "authverify": true, "rand": true, "prompt": true, "readpassword": true,
	"loadpub": true, "loadpriv": true, "pubbox": true, "privbox": true, "lib": true, "user": true, "flagdef": true, "flagparse": true,
	"globalstore": true, "opaquestore": true, "watchstore": true, "go": true, "frombytes": true, "hash": true}

// pureName: functions of these packages pass nothing on.
func pureName(n string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, p := range []string{"bytes.", "strings.", "slices.", "strconv.", "math", "unicode", "crypto/", "encoding/", "hash", "sort.", "errors.", "golang.org/x/crypto/", "sync.", "runtime.KeepAlive", "unsafe."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func ruleC11(r *Run) {
	sinks, secrets := 0, 0
	decide := func(a *Analysis, p *leakPolicy, secFile *Rope) {
		if a.err != "" {
			return
		}
		for _, x := range a.exits {
			p.st = x.st
			for _, e := range x.st.events() {
				secrets += boolInt(e.Name == "kdf" || e.Name == "keygen" || e.Name == "boxgen" || e.Name == "precompute" || e.Name == "edsign" || e.Name == "prompt" || e.Name == "readpassword")
				if harmless[e.Name] || pureName(e.Name) {
					continue
				}
				vs := append(append([]Value(nil), e.Args...), e.In...)
				what := "is passed to " + e.Name
				switch e.Name {
				case "write":
					what = "is written to " + short(e.Args[0])
					if t := argTerm(e, 0); t != nil && secFile != nil && p.path(t, secFile) {
						// the secret key file: no passphrase in it
						r.ob("secret key file", !passphraseIn(p, e.Args[1]), e.Fn, e.Pos, "the passphrase is written to the secret key file")
						continue
					}
				case "writefile":
					what = "is written to " + short(e.Args[0])
					if s, ok := e.Args[0].(*Str); ok && secFile != nil && sameRope(x.st, s.r, secFile) {
						r.ob("secret key file", !passphraseIn(p, e.Args[1]), e.Fn, e.Pos, "the passphrase is written to the secret key file")
						continue
					}
				case "print":
					what = "is printed"
				}
				s := ""
				for _, v := range vs {
					if s == "" {
						s = p.leak(v)
					}
				}
				sinks++
				r.site(e)
				r.ob("sink", s == "", e.Fn, e.Pos, "in %s, %s %s (exit at %s)", a.name, s, what, r.leaf(x))
			}
			if x.kind == xPanic && x.val != nil {
				s := p.leak(x.val)
				r.ob("panic value", s == "", a.fn, x.pos, "%s panics with %s", a.name, s)
			}
			if v := errOf(a, x); v != nil && x.kind == xRet {
				if _, isNil := v.(Nil); isNil {
					continue
				}
				sinks++
				s := p.leak(v)
				fn, pos := a.fn, x.pos
				if w := x.st.why; w != nil {
					fn, pos = w.fn, w.pos
				}
				r.ob("error", s == "", fn, pos, "the error with which %s fails holds %s: %s", a.name, s, short(v))
			}
		}
	}
	fields := map[string]bool{}
	if p := r.w.by[sigPkg]; p != nil {
		if o := p.Pkg.Scope().Lookup("Private"); o != nil {
			secretFields(o.Type(), fields, 0)
		}
	}
	r.floor("fields of a private key", len(fields), 1)
	for _, a := range r.sigOps() {
		p := &leakPolicy{terms: map[string]bool{}}
		var sec *Rope
		switch a.name {
		case "signify.Sign":
			p.priv = []*Rope{strArg(a, 0)}
		case "signify.LoadPrivateKey":
			p.priv = []*Rope{strArg(a, 0)}
		case "signify.GenerateKey":
			sec = cat(strArg(a, 0), rlit(".sec"))
			p.priv = []*Rope{sec}
			if a.err == "" && len(a.args) > 1 {
				walk(a.e.content(a.entry, a.args[1]), map[string]bool{}, func(v Value) bool {
					if t, ok := v.(*Term); ok {
						p.terms[t.key()] = true
					}
					return true
				})
				r.floor("passphrase of a generated key", len(p.terms), 1)
				for k := range generatedSeeds(a) {
					p.terms[k] = true
				}
			}
		}
		if strings.HasPrefix(a.name, "(*signify.Private)") {
			p.fields = fields
		}
		decide(a, p, sec)
	}
	for _, b := range r.loadedToBox() {
		decide(b, &leakPolicy{priv: []*Rope{strArg(r.loadPriv(), 0)}}, nil)
	}
	for _, a := range r.cryOps() {
		p := &leakPolicy{}
		if a.name == "crypto.Seal" {
			p.msg = strArg(a, 1)
		}
		decide(a, p, nil)
	}
	for _, a := range r.promptFns() {
		decide(a, &leakPolicy{}, nil)
	}
	decide(r.mainFn(), &leakPolicy{}, nil)
	r.floor("sinks", sinks, 500)
	r.floor("uses of secrets", secrets, 100)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// passphraseIn: the passphrase itself is part of the value.
func passphraseIn(p *leakPolicy, v Value) bool {
	found := false
	walk(v, map[string]bool{}, func(x Value) bool {
		t, ok := x.(*Term)
		if !ok {
			return true
		}
		switch t.op {
		case "kdf", "len":
			return false
		case "passphrase", "param":
			found = found || t.op == "passphrase" || p.terms[t.key()]
		}
		return true
	})
	return found
}

// generatedSeeds are the random bytes that public keys are made from.
func generatedSeeds(a *Analysis) map[string]bool {
	out := map[string]bool{}
	for _, x := range a.exits {
		for _, o := range outFiles(x.st) {
			walk(o.content, map[string]bool{}, func(v Value) bool {
				t, ok := v.(*Term)
				if ok && t.op == "edpubof" {
					walk(t.args[0], map[string]bool{}, func(w Value) bool {
						if u, ok := w.(*Term); ok && (u.op == "rand" || u.op == "edseed") {
							out[u.key()] = true
						}
						return true
					})
				}
				return true
			})
		}
	}
	return out
}
