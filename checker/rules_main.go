package main

import (
	"go/types"
	"strings"
)

func (r *Run) mainFn() *Analysis { return r.analyse(kMain, "main.main", nil) }

// flagVal is the value of a command-line option.
func flagVal(name string) *Term { return mk("flag", name) }

// flagOn: 1 set, 0 not set, -1 not decided on the path.
func flagOn(st *State, name string) int8 {
	return st.decide(&Pred{op: "true", a: flagVal(name)})
}

var modeFlag = map[string]string{"Sign": "S", "Verify": "V", "GenerateKey": "G", "Seal": "E", "Open": "D"}

// libEvents lists the operations that the path performed.
func libEvents(x Exit) []*Event {
	var out []*Event
	for _, e := range x.st.events() {
		if e.Name == "lib" {
			out = append(out, e)
		}
	}
	return out
}

func opName(e *Event) string {
	s, _ := e.Args[0].(*Str)
	if s == nil {
		return "?"
	}
	l, _ := s.r.lit()
	return l
}

// exitStatus is the status the path ends with; -1 if it is not known.
func exitStatus(x Exit) int64 {
	switch x.kind {
	case xRet:
		return 0
	case xHalt:
		if l, ok := x.val.(*Lin); ok {
			if n := x.st.simp(l); n.isConst() {
				return n.c & 255
			}
		}
		return -1
	}
	return 2 // a panic
}

// ---- C18

func ruleC18(r *Run) {
	a := r.mainFn()
	zero, nonzero, oks := 0, 0, 0
	for _, x := range a.exits {
		help, invalid := false, false
		for _, e := range x.st.events() {
			if e.Name == "flagparse" && e.Fail {
				help = help || e.Part == "help"
				invalid = invalid || e.Part == "invalid"
			}
		}
		ops := libEvents(x)
		failed := len(ops) == 0
		for _, e := range ops {
			if e.Fail {
				failed = true
			}
		}
		failed = failed || invalid
		st := exitStatus(x)
		pos := x.pos
		if !pos.IsValid() && len(ops) > 0 {
			pos = ops[len(ops)-1].Pos
		}
		what := "no operation was performed"
		if len(ops) > 0 {
			what = opName(ops[len(ops)-1]) + " failed"
		}
		if invalid {
			what = "the command line is invalid"
		}
		switch {
		case st == -1:
			r.ob("known status", false, a.fn, pos, "the exit status is computed: %s", short(x.val))
		case st == 0:
			zero++
			r.ob("zero only on success", help || !failed, a.fn, pos, "the command exits with status 0 although %s (exit at %s)", what, r.leaf(x))
		default:
			nonzero++
			r.ob("failure only on failure", failed, a.fn, pos, "the command exits with status %d although the operation succeeded (exit at %s)", st, r.leaf(x))
		}
		// OK only after success
		done := false
		for _, e := range x.st.events() {
			switch e.Name {
			case "lib":
				done = !e.Fail
			case "print":
				if len(e.Args) < 2 {
					continue
				}
				if s := ropeOf(e.Args[1]); s != nil && saysOK(s) {
					oks++
					r.site(e)
					r.ob("OK after success", done, e.Fn, e.Pos, "OK is printed although %s (exit at %s)", what, r.leaf(x))
				}
			}
		}
	}
	r.floor("paths that exit with status 0", zero, 6)
	r.floor("paths that exit with another status", nonzero, 7)
	r.floor("messages that say OK", oks, 1)
	// verification that succeeds says so
	for _, x := range a.exits {
		for _, e := range libEvents(x) {
			if opName(e) == "Verify" && !e.Fail {
				said := false
				for _, p := range x.st.events() {
					if p.Name == "print" && len(p.Args) > 1 {
						if s := ropeOf(p.Args[1]); s != nil && saysOK(s) {
							said = true
						}
					}
				}
				r.ob("verification reported", said || exitStatus(x) == 0, a.fn, e.Pos, "a successful verification is not reported")
			}
		}
	}
}

// saysOK: the text holds OK as a word of its own.
func saysOK(s *Rope) bool {
	for _, g := range s.segs {
		if g.kind != sLit {
			continue
		}
		for _, w := range strings.FieldsFunc(g.lit, func(c rune) bool { return !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') }) {
			if w == "OK" {
				return true
			}
		}
	}
	return false
}

// ---- C19

// userField is the content of a field of the current user on the path.
func (r *Run) userField(st *State, name string) *Term {
	t := r.w.typ("os/user", "User")
	var s *types.Struct
	if t != nil {
		s, _ = under(t).(*types.Struct)
	}
	var found *Term
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() != name {
			continue
		}
		look := func(v Value) {
			walk(v, map[string]bool{}, func(y Value) bool {
				t, ok := y.(*Term)
				if ok && t.op == "deref" && len(t.args) == 1 {
					if f, ok := t.args[0].(*Term); ok && f.op == "fieldaddr" && f.s == itoa(i) && len(f.args) == 1 {
						if u, ok := f.args[0].(*Term); ok && u.op == "user" {
							found = t
						}
					}
				}
				return true
			})
		}
		for _, e := range st.events() {
			if e.Name == "lib" {
				for _, v := range e.Args {
					look(v)
				}
			}
		}
		eachFact(st, func(p *Pred, _ bool) {
			if p.a != nil {
				look(p.a)
			}
			if p.b != nil {
				look(p.b)
			}
		})
	}
	if found == nil {
		return mk("nofield", name)
	}
	return found
}

func itoa(i int) string { return con(int64(i)).String() }

// defaultBase lists what the user's default key base may be on the path.
func (r *Run) defaultBases(st *State) []*Rope {
	home, name := rterm(r.userField(st, "HomeDir")), rterm(r.userField(st, "Username"))
	userFailed := false
	for _, e := range st.events() {
		if e.Name == "user" && e.Fail {
			userFailed = true
		}
	}
	if userFailed {
		return []*Rope{{}}
	}
	homeKnown := st.decide(eqPred(home.len(), con(0)))
	var out []*Rope
	if homeKnown != 1 {
		for _, x := range joins(home, name) {
			out = append(out, x)
		}
	}
	if homeKnown == 1 {
		out = append(out, name)
		if st.decide(eqPred(name.len(), con(0))) == 1 {
			out = append(out, &Rope{})
		}
	}
	return out
}

func joins(home, name *Rope) []*Rope {
	return []*Rope{rterm(mk("pathjoin", "", home, rlit(".signify"), name))}
}

// components splits a path at its separators; those of joined paths are
// components of their own. Empty and "." components are dropped except at the
// start.
func components(p *Rope, depth int) []*Rope {
	out := []*Rope{{}}
	add := func(r *Rope) { out[len(out)-1] = cat(out[len(out)-1], r) }
	for _, g := range p.canon().segs {
		switch {
		case g.kind == sLit:
			for i, s := range strings.Split(g.lit, "/") {
				if i > 0 {
					out = append(out, &Rope{})
				}
				add(rlit(s))
			}
		case g.kind == sSub && g.t.op == "pathjoin" && depth < 8 && g.off.isConst() && g.off.c == 0 && g.n.equal(rterm(g.t).len()):
			first := true
			for _, a := range g.t.args {
				r, ok := a.(*Rope)
				if !ok {
					add(&Rope{segs: []Seg{g}})
					continue
				}
				if !first {
					out = append(out, &Rope{})
				}
				first = false
				cs := components(r, depth+1)
				add(cs[0])
				out = append(out, cs[1:]...)
			}
		default:
			add(&Rope{segs: []Seg{g}})
		}
	}
	var res []*Rope
	for i, c := range out {
		if l, ok := c.lit(); ok && i > 0 && (l == "" || l == ".") {
			continue
		}
		res = append(res, c)
	}
	return res
}

// samePath: p and q name the same file.
func samePath(st *State, p, q *Rope) bool {
	if sameRope(st, p, q) {
		return true
	}
	a, b := components(p, 0), components(q, 0)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameRope(st, a[i], b[i]) {
			return false
		}
	}
	return true
}

// keyArg: the path is that of the option, or the default with the suffix.
func (r *Run) keyArg(st *State, p *Rope, opt, suffix string) (bool, string) {
	f := rterm(flagVal(opt))
	none := r.engine(kMain).known(st, eqPred(f.len(), con(0)))
	if none.known < 0 {
		// either way
		given := st.clone()
		ok := true
		if given.assume(none, false) {
			ok, _ = r.keyArg(given, p, opt, suffix)
		}
		if ok && st.clone().assume(none, true) {
			st = st.clone()
			st.assume(none, true)
			ok, _ = r.keyArg(st, p, opt, suffix)
		}
		return ok, "the option -" + opt + ", or the default key if it is not given"
	}
	if none.known == 0 {
		return sameRope(st, p, f), "the option -" + opt
	}
	// not given
	if st.decide(eqPred(p.len(), con(0))) == 1 {
		for _, b := range r.defaultBases(st) {
			if st.decide(eqPred(b.len(), con(0))) == 1 {
				return true, ""
			}
		}
	}
	for _, b := range r.defaultBases(st) {
		if samePath(st, p, cat(b, rlit(suffix))) {
			return true, ""
		}
	}
	return false, "the user's default key"
}

func ruleC19(r *Run) {
	a := r.mainFn()
	n := map[string]int{}
	for _, x := range a.exits {
		st := x.st
		ops := libEvents(x)
		r.ob("one operation", len(ops) <= 1, a.fn, x.pos, "several operations are performed in one run")
		// the options are those documented
		defs := map[string]bool{}
		for _, e := range st.events() {
			if e.Name == "flagdef" && len(e.Args) > 1 {
				if s := ropeOf(e.Args[1]); s != nil {
					l, _ := s.lit()
					defs[l] = true
					if len(e.Args) > 2 {
						d := ropeOf(e.Args[2])
						isFalse := false
						if b, ok := e.Args[2].(*Bool); ok {
							isFalse = b.known == 0
						}
						r.ob("options", d != nil && len(d.norm().segs) == 0 || isFalse, e.Fn, e.Pos, "the option -%s is on, or has a value, although it is not given", l)
					}
				}
			}
		}
		for _, o := range []string{"c", "m", "n", "p", "s", "x", "D", "E", "G", "S", "V"} {
			r.ob("options", defs[o], a.fn, fnPos(a.fn), "the option -%s is not defined", o)
		}
		for _, e := range ops {
			op := opName(e)
			n[op]++
			r.site(e)
			r.ob("mode", flagOn(st, modeFlag[op]) == 1, e.Fn, e.Pos, "%s is performed without -%s having been given", op, modeFlag[op])
			arg := func(i int) *Rope {
				if i < len(e.Args) {
					if p := ropeOf(e.Args[i]); p != nil {
						return p
					}
				}
				return rterm(fresh("ext", "no argument"))
			}
			same := func(i int, opt, what string) {
				p := arg(i)
				f := rterm(flagVal(opt))
				ok := sameRope(st, p, f)
				if !ok && st.decide(eqPred(f.len(), con(0))) == 1 {
					l := st.simp(p.len())
					ok = l.isConst() && l.c == 0
				}
				if !ok {
					// the library's own default, spelled out
					def := map[string]string{"signature": ".sig", "encrypted": ".enc"}[what]
					ok = def != "" && op != "Open" && st.decide(eqPred(f.len(), con(0))) == 1 && sameRope(st, p, cat(rterm(flagVal("m")), rlit(def)))
				}
				r.ob(what+" file", ok, e.Fn, e.Pos, "%s is given %s as its %s file instead of the option -%s", op, short(p), what, opt)
			}
			key := func(i int, opt, suffix, what string) {
				ok, want := r.keyArg(st, arg(i), opt, suffix)
				r.ob(what, ok, e.Fn, e.Pos, "%s is given %s as its %s instead of %s", op, short(arg(i)), what, want)
			}
			switch op {
			case "Sign":
				key(1, "s", ".sec", "secret key")
				same(2, "m", "message")
				same(3, "x", "signature")
			case "Verify":
				key(1, "p", ".pub", "public key")
				same(2, "m", "message")
				same(3, "x", "signature")
			case "Seal":
				key(1, "p", ".pub", "public key")
				same(2, "m", "message")
				same(3, "c", "encrypted")
			case "Open":
				key(1, "s", ".sec", "secret key")
				same(2, "c", "encrypted")
				same(3, "m", "message")
			case "GenerateKey":
				key(1, "p", "", "key pair")
				pass := arg(2)
				var pr *Event
				for _, y := range st.events() {
					if y.Name == "prompt" && !y.Fail {
						pr = y
					}
				}
				empty := st.simp(pass.len())
				switch flagOn(st, "n") {
				case 1:
					r.ob("passphrase", pr == nil && empty.isConst() && empty.c == 0, e.Fn, e.Pos, "with -n the key is generated with a passphrase, or one is asked for")
				case 0:
					ok := pr != nil && pr.Out != nil && sameRope(st, pass, ropeOf(pr.Out))
					r.ob("passphrase", ok, e.Fn, e.Pos, "without -n the key is not generated with the passphrase asked for but with %s", short(pass))
					conf := false
					if pr != nil && len(pr.Args) > 0 {
						if b, ok := pr.Args[0].(*Bool); ok {
							conf = b.known == 1
						}
					}
					r.ob("passphrase confirmed", pr == nil || conf, e.Fn, e.Pos, "the passphrase of a new key is not confirmed")
				default:
					r.ob("passphrase", false, e.Fn, e.Pos, "a key is generated without regard to -n")
				}
				if len(e.Args) > 3 {
					_, isNil := e.Args[3].(Nil)
					r.ob("default strength", isNil, e.Fn, e.Pos, "the key is not generated with the default options but with %s", short(e.Args[3]))
				}
			}
		}
		if len(ops) == 0 && x.kind == xHalt {
			// nothing was done: for a reason
			why := false
			for _, e := range st.events() {
				if (e.Name == "flagparse" || e.Name == "prompt" || e.Name == "user") && e.Fail {
					why = true
				}
			}
			modes := 0
			for _, m := range modeFlag {
				if flagOn(st, m) == 0 {
					modes++
				}
			}
			for _, o := range []string{"c", "m", "p", "s", "x"} {
				if st.decide(eqPred(rterm(flagVal(o)).len(), con(0))) == 1 {
					why = true
				}
			}
			r.ob("performed", why || modes == len(modeFlag), a.fn, x.pos, "the command ends at %s without performing the operation, although a mode and its files were given", r.leaf(x))
		}
	}
	for op := range modeFlag {
		r.floor("paths that perform "+op, n[op], 2)
	}
}
