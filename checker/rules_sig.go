package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func strArg(a *Analysis, i int) *Rope {
	if i < len(a.args) {
		if s, ok := a.args[i].(*Str); ok {
			return s.r
		}
	}
	return rterm(fresh("ext", "no argument"))
}

func (r *Run) verify() *Analysis { return r.analyse(kPlain, "signify.Verify", nil) }
func (r *Run) sign() *Analysis   { return r.analyse(kPlain, "signify.Sign", nil) }
func (r *Run) genkey() *Analysis { return r.analyse(kPlain, "signify.GenerateKey", nil) }
func (r *Run) loadPub() *Analysis {
	return r.analyse(kPlain, "signify.LoadPublicKey", nil)
}
func (r *Run) loadPriv() *Analysis {
	return r.analyse(kPlain, "signify.LoadPrivateKey", nil)
}

// firstPtr is the key object that a load returned.
func firstPtr(x Exit) []Value {
	if t, ok := x.val.(*Tup); ok {
		return []Value{t.vs[0]}
	}
	return []Value{x.val}
}

// loadedToBox converts every private key that can be loaded.
func (r *Run) loadedToBox() []*Analysis {
	a := r.loadPriv()
	if a.err != "" {
		return nil
	}
	return r.then(a, "(*signify.Private).ToBox", func(x Exit) bool { return success(a, x) }, firstPtr)
}

func (r *Run) loadedPubToBox() []*Analysis {
	a := r.loadPub()
	if a.err != "" {
		return nil
	}
	return r.then(a, "(*signify.Public).ToBox", func(x Exit) bool { return success(a, x) }, firstPtr)
}

func isLen(st *State, rp *Rope, n int64) bool {
	return rp != nil && st.decide(eqPred(rp.len(), con(n))) == 1
}

// hasTag: the bytes lo.. of the record are known to be the tag.
func hasTag(st *State, rec *Rope, lo int64, tag string) bool {
	return closure(st).same(sub(st, rec, lo, int64(len(tag))), rlit(tag), int64(len(tag)))
}

func stdRecord(rec *Rope) bool {
	ok := rec != nil
	if ok {
		for _, s := range rec.segs {
			if s.kind == sSub && s.t.op == "b64dec" && !strings.HasSuffix(s.t.s, "base64.StdEncoding") {
				ok = false
			}
		}
	}
	return ok
}

func sigPath(a *Analysis, st *State, msg, sig *Rope) *Rope {
	if st.decide(eqPred(sig.len(), con(0))) == 1 {
		return cat(msg, rlit(".sig"))
	}
	return sig
}

// ---- C01

func ruleC01(r *Run) {
	a := r.verify()
	for _, x := range r.successes(a) {
		st := x.st
		pubP, msgP, sigP := strArg(a, 0), strArg(a, 1), strArg(a, 2)
		at := r.leaf(x)
		decided := st.decide(eqPred(sigP.len(), con(0))) >= 0
		r.ob("default signature path", decided, a.fn, x.pos, "success does not depend on whether a signature path was given: the default is not applied")
		pub, sig := recOf(st, pubP), recOf(st, sigPath(a, st, msgP, sigP))
		if !r.ob("inputs read", pub != nil && sig != nil, a.fn, x.pos, "success (exit at %s) without decoding the public key file and the signature file", at) {
			continue
		}
		r.ob("encoding", stdRecord(pub) && stdRecord(sig), a.fn, x.pos, "records are not decoded as standard base64")
		lens := isLen(st, pub, 42) && isLen(st, sig, 74)
		if !r.ob("record length", lens, a.fn, x.pos, "success (exit at %s) without the records having 42 and 74 bytes", at) {
			continue
		}
		found := false
		why := "no Ed25519 verification accepted on this path"
		for _, t := range findTrue(st, "edverify", true) {
			p, m, s := t.args[0].(*Rope), t.args[1].(*Rope), t.args[2].(*Rope)
			switch {
			case !sameRope(st, p, sub(st, pub, 10, 32)):
				why = "the key that was verified with is not bytes 10..42 of the public key record but " + short(p)
			case !wholeFile(st, m, msgP):
				why = "what was verified is not the whole message file but " + short(m)
			case !sameRope(st, s, sub(st, sig, 10, 64)):
				why = "the signature that was verified is not bytes 10..74 of the signature record but " + short(s)
			default:
				found = true
			}
		}
		r.ob("accepted", found, a.fn, x.pos, "Verify may succeed (exit at %s): %s", at, why)
		r.ob("tags", hasTag(st, pub, 0, "Ed"), a.fn, x.pos, "success (exit at %s) without the public key's algorithm tag having been compared with Ed", at)
		r.ob("tags", hasTag(st, sig, 0, "Ed"), a.fn, x.pos, "success (exit at %s) without the signature's algorithm tag having been compared with Ed", at)
		r.ob("key numbers", closure(st).same(sub(st, pub, 2, 8), sub(st, sig, 2, 8), 8), a.fn, x.pos, "success (exit at %s) without all eight bytes of the key numbers being known equal", at)
	}
}

// ---- C02

// signingKeys are the keys that a private key record may yield on the path:
// its stored bytes, or those XORed with a key derived from a passphrase.
func signingKeys(st *State, rec *Rope) []*Rope {
	stored := sub(st, rec, 40, 64)
	out := []*Rope{stored}
	for _, e := range st.events() {
		if e.Name == "kdf" && !e.Fail && e.Out != nil {
			k := e.Out.(*Rope)
			if n := st.simp(k.len()); n.isConst() && n.c >= 64 {
				out = append(out, xorRope(st, stored, sub(st, k, 0, 64), 64))
			}
		}
	}
	return out
}

func xorRope(st *State, a, b *Rope, n int64) *Rope {
	x, y := cells(st, a, n), cells(st, b, n)
	o := &Rope{}
	for i := range x {
		o.segs = append(o.segs, Seg{kind: sCell, cell: xor8(x[i], y[i])})
	}
	return o.norm()
}

func ruleC02(r *Run) {
	a := r.sign()
	for _, x := range r.successes(a) {
		st := x.st
		privP, msgP, sigP := strArg(a, 0), strArg(a, 1), strArg(a, 2)
		at := r.leaf(x)
		outs := outFiles(st)
		if !r.ob("one output", len(outs) == 1, a.fn, x.pos, "%d files are written when signing succeeds (exit at %s), not one", len(outs), at) {
			continue
		}
		o := outs[0]
		r.ob("output path", pathIs(st, o.path, sigP, cat(msgP, rlit(".sig"))), o.open.Fn, o.open.Pos, "the signature is written to %s instead of the signature path (or the message path with .sig)", short(o.path))
		r.ob("output replaced", o.replaced(), o.open.Fn, o.open.Pos, "the signature file is not created or truncated")
		comment, enc, ok := splitDataFile(st.simpRope(o.content))
		if !r.ob("file format", ok && !o.loop, o.open.Fn, o.open.Pos, "the signature file is not a comment line and one line of standard base64: %s", short(o.content)) {
			continue
		}
		r.ob("comment", commentLine(comment), o.open.Fn, o.open.Pos, "the file does not begin with exactly one untrusted comment line: %s", short(comment))
		priv := recOf(st, privP)
		if !r.ob("key read", priv != nil && isLen(st, priv, 104), a.fn, x.pos, "signing succeeds (exit at %s) without a private key record of 104 bytes", at) {
			continue
		}
		if !r.ob("record length", isLen(st, enc, 74), a.fn, x.pos, "the signature record is not 74 bytes: %s", short(enc.len())) {
			continue
		}
		r.ob("tag", hasTag(st, enc, 0, "Ed"), a.fn, x.pos, "the signature's tag is not Ed but %s", short(sub(st, enc, 0, 2)))
		r.ob("key number", closure(st).same(sub(st, enc, 2, 8), sub(st, priv, 32, 8), 8), a.fn, x.pos, "the signature's key number is not the private key's but %s", short(sub(st, enc, 2, 8)))
		sg := whole(st, sub(st, enc, 10, 64))
		if !r.ob("signature", sg != nil && sg.op == "edsign", a.fn, x.pos, "the signature field is not an Ed25519 signature but %s", short(sub(st, enc, 10, 64))) {
			continue
		}
		k, m := sg.args[0].(*Rope), sg.args[1].(*Rope)
		kOK := false
		for _, c := range signingKeys(st, priv) {
			kOK = kOK || sameRope(st, c, k)
		}
		r.ob("signing key", kOK, a.fn, x.pos, "the message is signed with something other than the private key: %s", short(k))
		r.ob("signed message", wholeFile(st, m, msgP), a.fn, x.pos, "what is signed is not the whole message file but %s", short(m))
	}
	for _, x := range a.exits {
		if x.kind == xRet && success(a, x) && !failure(a, x) {
			continue
		}
		for _, o := range outFiles(x.st) {
			r.ob("nothing on failure", o.failed, o.open.Fn, o.open.Pos, "signing can fail (exit at %s) after the signature file was written", r.leaf(x))
		}
	}
}

// ---- C04

func ruleC04(r *Run) {
	load := func(a *Analysis, n int64, what string) {
		for _, x := range r.successes(a) {
			rec := recOf(x.st, strArg(a, 0))
			if !r.ob("decoded", rec != nil && stdRecord(rec), a.fn, x.pos, "a %s is accepted (exit at %s) that was not decoded from its file", what, r.leaf(x)) {
				continue
			}
			if r.ob("length", isLen(x.st, rec, n), a.fn, x.pos, "a %s record is accepted (exit at %s) without having exactly %d bytes", what, r.leaf(x), n) {
				r.ob("tag", hasTag(x.st, rec, 0, "Ed"), a.fn, x.pos, "a %s is accepted (exit at %s) without its algorithm tag being Ed", what, r.leaf(x))
			}
		}
	}
	load(r.loadPub(), 42, "public key")
	load(r.loadPriv(), 104, "private key")
	v := r.verify()
	for _, x := range r.successes(v) {
		for i, n := range map[int]int64{0: 42, 2: 74} {
			p := strArg(v, i)
			if i == 2 {
				p = sigPath(v, x.st, strArg(v, 1), p)
			}
			rec := recOf(x.st, p)
			if r.ob("length", isLen(x.st, rec, n), v.fn, x.pos, "verification succeeds (exit at %s) without a record of exactly %d bytes", r.leaf(x), n) && i == 0 {
				r.ob("tag", hasTag(x.st, rec, 0, "Ed"), v.fn, x.pos, "verification succeeds (exit at %s) without the public key's tag being Ed", r.leaf(x))
			}
		}
	}
	kdf := 0
	bk := func(a *Analysis, x Exit, rec *Rope) {
		for _, e := range x.st.events() {
			if e.Name == "kdf" && !e.Fail {
				kdf++
				r.site(e)
				r.ob("KDF tag", hasTag(x.st, rec, 2, "BK"), e.Fn, e.Pos, "a protected key is used (exit at %s) without its KDF tag being BK", r.leaf(x))
			}
		}
		// a protected key is not used without unlocking
		if rounds := beInt(x.st, rec, 4, 4); x.st.decide(eqPred(rounds, con(0))) != 1 {
			r.ob("KDF tag", hasTag(x.st, rec, 2, "BK") || knownPlain(x.st, rec), a.fn, x.pos, "a key that may be protected is used (exit at %s) without its KDF tag being BK", r.leaf(x))
		}
	}
	s := r.sign()
	for _, x := range r.successes(s) {
		rec := recOf(x.st, strArg(s, 0))
		if r.ob("length", isLen(x.st, rec, 104), s.fn, x.pos, "signing succeeds (exit at %s) without a private key record of exactly 104 bytes", r.leaf(x)) {
			r.ob("tag", hasTag(x.st, rec, 0, "Ed"), s.fn, x.pos, "signing succeeds (exit at %s) without the private key's tag being Ed", r.leaf(x))
			bk(s, x, rec)
		}
	}
	for _, b := range r.loadedToBox() {
		for _, x := range b.exits {
			if success(b, x) {
				rec := recOf(x.st, strArg(r.loadPriv(), 0))
				if r.ob("length", isLen(x.st, rec, 104), b.fn, x.pos, "a private key is converted (exit at %s) from a record not known to have 104 bytes", r.leaf(x)) {
					r.ob("tag", hasTag(x.st, rec, 0, "Ed"), b.fn, x.pos, "a private key is converted (exit at %s) without its tag being Ed", r.leaf(x))
					bk(b, x, rec)
				}
			}
		}
	}
	r.floor("key derivations of protected keys", kdf, 2)
}

// knownPlain: the stored key matches its checksum as it is, so that it was not
// protected or had been unlocked already.
func knownPlain(st *State, rec *Rope) bool {
	k := sub(st, rec, 40, 64)
	return closure(st).same(rterm(mk("sha512", "", k.canon())), sub(st, rec, 24, 8), 8)
}

// beInt is the big-endian integer at lo.
func beInt(st *State, rec *Rope, lo int64, n int) *Lin {
	var c []*Lin
	for i := n - 1; i >= 0; i-- {
		c = append(c, st.byteAt(rec, con(lo+int64(i))))
	}
	return intOf(c)
}

// ---- C05

func ruleC05(r *Run) {
	// writing
	g := r.genkey()
	wrote := 0
	for _, x := range r.successes(g) {
		f := r.keyFiles(g, x)
		if f == nil {
			continue
		}
		wrote++
		st := x.st
		sec, pub := f.sec, f.pub
		r.ob("written tags", hasTag(st, pub, 0, "Ed") && hasTag(st, sec, 0, "Ed") && hasTag(st, sec, 2, "BK"), g.fn, x.pos, "the tags of the written records are not Ed and EdBK at offset 0")
		n := roleOf(st, sub(st, sec, 4, 4), "rounds")
		r.ob("written rounds", n, g.fn, x.pos, "bytes 4..8 of the private key record are not the rounds in big-endian order: %s", short(sub(st, sec, 4, 4)))
		salt := sub(st, sec, 8, 16)
		okSalt := allRand(st, salt, 16)
		for _, e := range st.events() {
			if e.Name == "kdf" && !e.Fail {
				okSalt = okSalt && sameRope(st, ropeOf(e.Args[1]), salt)
			}
		}
		r.ob("written salt", okSalt, g.fn, x.pos, "bytes 8..24 of the private key record are not the salt: %s", short(salt))
		ck := st.simpRope(sub(st, sec, 24, 8)).canon()
		r.ob("written checksum", len(ck.segs) == 1 && ck.segs[0].kind == sSub && ck.segs[0].t.op == "sha512" && ck.segs[0].off.isConst() && ck.segs[0].off.c == 0, g.fn, x.pos, "bytes 24..32 of the private key record are not the first bytes of a SHA-512: %s", short(ck))
		r.ob("written key number", allRand(st, sub(st, sec, 32, 8), 8) && sameRope(st, sub(st, sec, 32, 8), sub(st, pub, 2, 8)), g.fn, x.pos, "the key number is not at offset 32 of the private and offset 2 of the public key record")
		r.ob("written key", containsOp(sub(st, sec, 40, 64), "edseed"), g.fn, x.pos, "bytes 40..104 of the private key record are not the key: %s", short(sub(st, sec, 40, 64)))
		p := whole(st, sub(st, pub, 10, 32))
		r.ob("written key", p != nil && p.op == "edpubof", g.fn, x.pos, "bytes 10..42 of the public key record are not the public key: %s", short(sub(st, pub, 10, 32)))
	}
	r.floor("written key pairs", wrote, 1)
	s := r.sign()
	for _, x := range r.successes(s) {
		for _, o := range outFiles(x.st) {
			c, enc, ok := splitDataFile(x.st.simpRope(o.content))
			if !r.ob("signature file", ok && commentLine(c), o.open.Fn, o.open.Pos, "the signature file is not a comment line and a line of standard base64: %s", short(o.content)) {
				continue
			}
			st := x.st
			priv := recOf(st, strArg(s, 0))
			if priv == nil || !isLen(st, priv, 104) || !r.ob("signature record", isLen(st, enc, 74), s.fn, x.pos, "the signature record is not 74 bytes") {
				continue
			}
			r.ob("signature record", hasTag(st, enc, 0, "Ed") && closure(st).same(sub(st, enc, 2, 8), sub(st, priv, 32, 8), 8), s.fn, x.pos, "tag and key number are not at offsets 0 and 2 of the signature record: %s", short(enc))
			t := whole(st, sub(st, enc, 10, 64))
			r.ob("signature record", t != nil && t.op == "edsign", s.fn, x.pos, "the signature is not at offset 10 of the signature record")
		}
	}
	// reading
	v := r.verify()
	for _, x := range r.successes(v) {
		st := x.st
		pub, sig := recOf(st, strArg(v, 0)), recOf(st, sigPath(v, st, strArg(v, 1), strArg(v, 2)))
		if !r.ob("read records", pub != nil && sig != nil && isLen(st, pub, 42) && isLen(st, sig, 74), v.fn, x.pos, "verification does not read records of 42 and 74 bytes") {
			continue
		}
		for _, e := range st.events() {
			if e.Name == "edverify" {
				r.site(e)
				r.ob("read key", sameRope(st, ropeOf(e.Args[0]), sub(st, pub, 10, 32)), e.Fn, e.Pos, "the public key is not read from offset 10: %s", short(e.Args[0]))
				r.ob("read signature", sameRope(st, ropeOf(e.Args[2]), sub(st, sig, 10, 64)), e.Fn, e.Pos, "the signature is not read from offset 10: %s", short(e.Args[2]))
			}
		}
		r.ob("read key number", closure(st).same(sub(st, pub, 2, 8), sub(st, sig, 2, 8), 8), v.fn, x.pos, "the key numbers are not read from offset 2 of both records")
	}
	readers := 0
	readPriv := func(a *Analysis, x Exit, path *Rope) {
		st := x.st
		rec := recOf(st, path)
		if rec == nil || !isLen(st, rec, 104) {
			return
		}
		for _, e := range st.events() {
			if e.Name == "kdf" && !e.Fail {
				readers++
				r.site(e)
				r.ob("read salt", sameRope(st, ropeOf(e.Args[1]), sub(st, rec, 8, 16)), e.Fn, e.Pos, "the salt is not read from bytes 8..24: %s", short(e.Args[1]))
				n, _ := e.Args[2].(*Lin)
				r.ob("read rounds", n != nil && st.simp(n).equal(st.simp(beInt(st, rec, 4, 4))), e.Fn, e.Pos, "the rounds are not read from bytes 4..8 in big-endian order: %s", short(e.Args[2]))
			}
		}
		k := checkedKey(st, rec)
		r.ob("read checksum and key", k != nil, a.fn, x.pos, "the checksum at 24..32 is not compared with the SHA-512 of the key at 40..104 (exit at %s)", r.leaf(x))
	}
	for _, x := range r.successes(s) {
		readPriv(s, x, strArg(s, 0))
	}
	for _, b := range r.loadedToBox() {
		for _, x := range b.exits {
			if success(b, x) {
				readPriv(b, x, strArg(r.loadPriv(), 0))
			}
		}
	}
	r.floor("reads of a protected key record", readers, 2)
	for _, b := range r.loadedPubToBox() {
		for _, x := range b.exits {
			rec := recOf(x.st, strArg(r.loadPub(), 0))
			for _, e := range x.st.events() {
				if e.Name == "frombytes" && rec != nil && isLen(x.st, rec, 42) {
					rp, _ := e.Args[0].(*Rope)
					r.ob("read key", rp != nil && sameRope(x.st, rp, sub(x.st, rec, 10, 32)), e.Fn, e.Pos, "the public key that is converted is not bytes 10..42 of the record")
				}
			}
		}
	}
	// lines
	lines := 0
	for _, a := range []*Analysis{r.loadPub(), r.loadPriv(), s, v} {
		for _, x := range r.successes(a) {
			lines += r.lineRule(a, x)
		}
		for _, rec := range a.log {
			if rec.kind != "loop" {
				continue
			}
			for t := rec.loop.back.trace; t != nil && t != rec.loop.head.trace; t = t.prev {
				if t.e.Name != "scanline" {
					continue
				}
				lt := t.e.Args[0].(*Term)
				r.ob("comment lines", prefixFact(rec.loop.back, lt, 1), t.e.Fn, t.e.Pos, "a line is skipped without being known to start with the untrusted comment prefix")
			}
		}
	}
	_ = lines
}

// prefixFact: the line is known (want 1) to start with the comment prefix, or
// (want 0) not to.
func prefixFact(st *State, line *Term, want int8) bool {
	ok := false
	eachFact(st, func(p *Pred, truth bool) {
		t, is := p.a.(*Term)
		if !is || p.op != "true" || t.op != "hasprefix" || len(t.args) != 2 {
			return
		}
		a, b := ropeOf(t.args[0]), ropeOf(t.args[1])
		if a == nil || b == nil || whole(st, a) != line {
			return
		}
		if l, is := b.lit(); is && strings.HasPrefix(l, "untrusted comment:") && truth == (want == 1) {
			ok = true
		}
	})
	return ok
}

// lineRule: what is decoded is the first line of the file that is no comment.
func (r *Run) lineRule(a *Analysis, x Exit) int {
	last := map[string]*Term{}
	var order []*Term
	for _, e := range x.st.events() {
		if e.Name == "scanline" && !e.Loop {
			t := e.Args[0].(*Term)
			order = append(order, t)
			for _, f := range files(t) {
				last[f] = t
			}
		}
	}
	n := 0
	for _, rec := range records(x.st) {
		src := ropeOf(rec.ev.Args[0])
		if src == nil || last[rec.path] == nil {
			continue
		}
		n++
		r.ob("decoded line", whole(x.st, src) == last[rec.path], rec.ev.Fn, rec.ev.Pos, "what is decoded is not the first line after the comments: %s", short(src))
	}
	return n
}

type keyFiles struct {
	secFile, pubFile *OutFile
	sec, pub         *Rope
}

// keyFiles finds the two files that a successful generation writes.
func (r *Run) keyFiles(a *Analysis, x Exit) *keyFiles {
	st := x.st
	k := &keyFiles{}
	base := strArg(a, 0)
	for _, o := range outFiles(st) {
		switch {
		case sameRope(st, o.path, cat(base, rlit(".sec"))):
			k.secFile = o
		case sameRope(st, o.path, cat(base, rlit(".pub"))):
			k.pubFile = o
		}
	}
	if !r.ob("key files", k.secFile != nil && k.pubFile != nil, a.fn, x.pos, "generation succeeds (exit at %s) without writing the files .sec and .pub", r.leaf(x)) {
		return nil
	}
	r.startsEmpty(a, x)
	get := func(o *OutFile, n int64) *Rope {
		c, rec, ok := splitDataFile(st.simpRope(o.content))
		if !r.ob("key file format", ok && !o.loop && commentLine(c), o.open.Fn, o.open.Pos, "the key file is not one untrusted comment line and one line of standard base64: %s", short(o.content)) {
			return nil
		}
		if !r.ob("key record length", isLen(st, rec, n), o.open.Fn, o.open.Pos, "the key record has %s bytes, not %d", short(rec.len()), n) {
			return nil
		}
		return rec
	}
	k.sec, k.pub = get(k.secFile, 104), get(k.pubFile, 42)
	if k.sec == nil || k.pub == nil {
		return nil
	}
	return k
}

// roleOf: "rounds": four big-endian bytes of the number of rounds in use.
func roleOf(st *State, rp *Rope, role string) bool {
	var n *Lin
	for _, e := range st.events() {
		if e.Name == "kdf" && !e.Fail {
			n, _ = e.Args[2].(*Lin)
		}
	}
	if n == nil {
		n = con(0)
	}
	n = st.simp(n)
	want := putInt(n, 4, true)
	if n.isConst() {
		return sameRope(st, rp, want)
	}
	return st.prove(n) && st.prove(con(1<<32-1).sub(n)) && sameRope(st, rp, want)
}

// allRand: n distinct bytes of the secure random source.
func allRand(st *State, rp *Rope, n int64) bool {
	ids := randCells(st, rp, n)
	return ids != nil
}

// randCells identifies each byte with a byte of a successful random read.
func randCells(st *State, rp *Rope, n int64) []string {
	outs := map[*Term]bool{}
	for _, e := range st.events() {
		if e.Name == "rand" && !e.Fail && e.Out != nil && !e.Loop {
			for _, s := range e.Out.(*Rope).segs {
				if s.t != nil {
					outs[s.t] = true
				}
			}
		}
	}
	seen := map[string]bool{}
	var ids []string
	for _, c := range cells(st, rp, n) {
		t := c.single()
		if t == nil || t.op != "at" {
			return nil
		}
		src, _ := t.args[0].(*Term)
		if src == nil || !outs[src] || seen[c.key()] {
			return nil
		}
		seen[c.key()] = true
		ids = append(ids, c.key())
	}
	return ids
}

func containsOp(v Value, op string) bool {
	f := false
	walk(v, map[string]bool{}, func(x Value) bool {
		if t, ok := x.(*Term); ok && t.op == op {
			f = true
		}
		return true
	})
	return f
}

// ---- C06

// checkedKey is the key whose checksum is known to be right on the path.
func checkedKey(st *State, rec *Rope) *Rope {
	cl := closure(st)
	for _, k := range signingKeys(st, rec) {
		if cl.same(rterm(mk("sha512", "", k.canon())), sub(st, rec, 24, 8), 8) {
			return k
		}
	}
	return nil
}

func keyIsChecked(st *State, rec, k *Rope) bool {
	return closure(st).same(rterm(mk("sha512", "", st.simpRope(k).canon())), sub(st, rec, 24, 8), 8)
}

func ruleC06(r *Run) {
	a := r.sign()
	uses := 0
	for _, x := range r.successes(a) {
		rec := recOf(x.st, strArg(a, 0))
		if !r.ob("record", rec != nil && isLen(x.st, rec, 104), a.fn, x.pos, "signing succeeds without a private key record") {
			continue
		}
		n := 0
		for _, e := range x.st.events() {
			if e.Name == "edsign" {
				n++
				uses++
				r.site(e)
				k := ropeOf(e.Args[0])
				r.ob("checksum before signing", keyIsChecked(x.st, rec, k), e.Fn, e.Pos, "a signature is made (exit at %s) with key bytes whose SHA-512 has not been compared, in all eight bytes, with the checksum in the record: %s", r.leaf(x), short(k))
			}
		}
		r.ob("instances", n > 0, a.fn, x.pos, "signing succeeds without signing")
	}
	// a signature must not leave by a failing path either
	for _, b := range r.loadedToBox() {
		for _, x := range b.exits {
			if !success(b, x) {
				continue
			}
			uses++
			rec := recOf(x.st, strArg(r.loadPriv(), 0))
			if !r.ob("record", rec != nil && isLen(x.st, rec, 104), b.fn, x.pos, "a box key is derived without a private key record") {
				continue
			}
			r.ob("checksum before conversion", r.boxKeySource(b, x, rec) != nil, b.fn, x.pos, "a box key is derived (exit at %s) from key bytes whose SHA-512 has not been compared, in all eight bytes, with the checksum in the record", r.leaf(x))
		}
	}
	r.floor("uses of private keys", uses, 3)
}

// boxKeySource is the checked key from whose first half the result is derived.
func (r *Run) boxKeySource(b *Analysis, x Exit, rec *Rope) *Rope {
	st := x.st
	res := b.e.resolve(st, resultOf(x, 0), 0)
	out := ropeOf(res)
	if out == nil {
		return nil
	}
	for _, k := range signingKeys(st, rec) {
		if !keyIsChecked(st, rec, k) {
			continue
		}
		h := rterm(mk("sha512", "", sub(st, k, 0, 32).canon()))
		// the middle of the digest is not changed by clamping
		if st.simp(out.len()).equal(con(32)) && sameRope(st, sub(st, out, 1, 30), sub(st, h, 1, 30)) {
			return k
		}
	}
	return nil
}

func resultOf(x Exit, i int) Value {
	if t, ok := x.val.(*Tup); ok && i < len(t.vs) {
		return t.vs[i]
	}
	return x.val
}

// ---- C07

// leavesOf lists the parts of a value.
func leavesOf(v Value, path string, out map[string]Value) {
	switch x := v.(type) {
	case *Struct:
		for i, f := range x.fs {
			leavesOf(f, fmt.Sprintf("%s.%d", path, i), out)
		}
	case *Arr:
		for i, f := range x.es {
			leavesOf(f, fmt.Sprintf("%s[%d]", path, i), out)
		}
	default:
		out[path] = v
	}
}

// diffs lists the parts in which two values may differ.
func diffs(st *State, a, b Value) []string {
	x, y := map[string]Value{}, map[string]Value{}
	leavesOf(a, "", x)
	leavesOf(b, "", y)
	var out []string
	for k, v := range x {
		w := y[k]
		if w == nil {
			out = append(out, k)
			continue
		}
		if v.key() == w.key() {
			continue
		}
		p, q := ropeOf(v), ropeOf(w)
		if p != nil && q != nil && sameRope(st, p, q) {
			continue
		}
		if l, ok := v.(*Lin); ok {
			if m, ok := w.(*Lin); ok && st.simp(l).equal(st.simp(m)) {
				continue
			}
		}
		out = append(out, k)
	}
	return out
}

func (r *Run) keyUnchanged(a *Analysis, recv *Ptr, before Value, onlyFail bool) int {
	n := 0
	for _, x := range a.exits {
		after := a.e.resolve(x.st, recv, 0)
		d := diffs(x.st, before, after)
		n++
		if failure(a, x) || !onlyFail || x.kind != xRet {
			r.ob("key unchanged", len(d) == 0, a.fn, x.pos, "%s leaves the key changed (exit at %s, part %v)", shortFn(a.fn), r.leaf(x), d)
			continue
		}
		// success: only unlocking
		if !r.ob("only unlocking", len(d) <= 1, a.fn, x.pos, "%s changes more of the key than unlocking does (exit at %s, parts %v)", shortFn(a.fn), r.leaf(x), d) || len(d) == 0 {
			continue
		}
		x0, y0 := map[string]Value{}, map[string]Value{}
		leavesOf(before, "", x0)
		leavesOf(after, "", y0)
		p, q := ropeOf(x0[d[0]]), ropeOf(y0[d[0]])
		ok := false
		for _, e := range x.st.events() {
			if e.Name == "kdf" && !e.Fail && p != nil && q != nil {
				k := e.Out.(*Rope)
				if x.st.simp(k.len()).equal(con(64)) && x.st.simp(p.len()).equal(con(64)) {
					ok = ok || sameRope(x.st, xorRope(x.st, p, k, 64), q)
				}
			}
		}
		r.ob("only unlocking", ok, a.fn, x.pos, "%s changes the key other than by unlocking it (exit at %s)", shortFn(a.fn), r.leaf(x))
	}
	return n
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

// methodOn analyses an exported method on an arbitrary key object.
func (r *Run) methodOn(name string) (*Analysis, *Ptr, Value) {
	a := r.analyse(kPlain, name, nil)
	if a.err != "" {
		return a, nil, nil
	}
	p, _ := a.args[0].(*Ptr)
	return a, p, a.e.resolve(a.entry, p, 0)
}

func ruleC07(r *Run) {
	n := 0
	for _, name := range r.keyMethods() {
		a, p, before := r.methodOn(name)
		if p == nil {
			continue
		}
		n += r.keyUnchanged(a, p, before, strings.HasSuffix(name, "(*signify.Private).ToBox") || hasKdf(a))
	}
	r.floor("exits of key methods", n, 8)
	l := r.loadPriv()
	m := 0
	for _, b := range r.loadedToBox() {
		p, _ := b.args[0].(*Ptr)
		if p == nil {
			continue
		}
		m += r.keyUnchanged(b, p, b.e.resolve(b.entry, p, 0), true)
	}
	r.floor("exits of unlocking a loaded key", m, 3)
	_ = l
}

func hasKdf(a *Analysis) bool {
	for _, x := range a.exits {
		for _, e := range x.st.events() {
			if e.Name == "kdf" {
				return true
			}
		}
	}
	return false
}

// keyMethods lists the exported methods of the key types, and the functions
// that a caller outside the package cannot avoid.
func (r *Run) keyMethods() []string {
	var out []string
	p := r.w.by[sigPkg]
	if p == nil {
		r.ob("anchor", false, nil, 0, "package signify does not exist any more")
		return nil
	}
	for _, tn := range []string{"Private", "Public"} {
		o := p.Pkg.Scope().Lookup(tn)
		if o == nil {
			r.ob("anchor", false, nil, 0, "type signify.%s does not exist any more", tn)
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(o.Type()))
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj()
			if f.Exported() {
				out = append(out, "(*signify."+tn+")."+f.Name())
			}
		}
	}
	r.floor("exported key methods", len(out), 4)
	return out
}

// ---- C08

func ruleC08(r *Run) {
	a := r.genkey()
	enc, plain := 0, 0
	for _, x := range r.successes(a) {
		f := r.keyFiles(a, x)
		if f == nil {
			continue
		}
		st := x.st
		at := r.leaf(x)
		pass := a.e.content(a.entry, a.args[1])
		passLen := pass.len()
		var gen *Event
		for _, e := range st.events() {
			if e.Name == "keygen" && !e.Fail {
				gen = e
			}
		}
		seed := seedOf(st, f.pub)
		if !r.ob("key pair", seed != nil, a.fn, x.pos, "the public key record does not hold the public key of a generated key (exit at %s): %s", at, short(sub(st, f.pub, 10, 32))) {
			continue
		}
		_ = gen
		key := cat(seed, rtermN(mk("edpubof", "", seed), con(32)))
		stored := sub(st, f.sec, 40, 64)
		r.ob("checksum", sameRope(st, sub(st, f.sec, 24, 8), sub(st, rterm(mk("sha512", "", key.canon())), 0, 8)), a.fn, x.pos, "the stored checksum is not the first eight bytes of the SHA-512 of the plain key: %s", short(sub(st, f.sec, 24, 8)))
		r.ob("key numbers", sameRope(st, sub(st, f.sec, 32, 8), sub(st, f.pub, 2, 8)), a.fn, x.pos, "the key numbers of the two files differ")
		rounds := sub(st, f.sec, 4, 4)
		switch st.decide(eqPred(passLen, con(0))) {
		case 1:
			plain++
			r.ob("plain key", sameRope(st, stored, key), a.fn, x.pos, "without a passphrase the stored key is not the secret key: %s", short(stored))
			r.ob("plain rounds", sameRope(st, rounds, rlit("\x00\x00\x00\x00")), a.fn, x.pos, "without a passphrase the stored number of rounds is not zero: %s", short(rounds))
			continue
		case -1:
			r.ob("passphrase", false, a.fn, x.pos, "generation succeeds (exit at %s) without looking at whether there is a passphrase", at)
			continue
		}
		enc++
		ok := false
		why := "no key was derived from the passphrase"
		for _, e := range st.events() {
			if e.Name != "kdf" || e.Fail || e.Loop {
				continue
			}
			r.site(e)
			n, _ := e.Args[2].(*Lin)
			k := e.Out.(*Rope)
			switch {
			case !sameRope(st, ropeOf(e.Args[0]), pass):
				why = "the key is derived from something other than the passphrase: " + short(e.Args[0])
			case !sameRope(st, ropeOf(e.Args[1]), sub(st, f.sec, 8, 16)):
				why = "the key is derived with a salt other than the stored one: " + short(e.Args[1])
			case n == nil || !sameRope(st, rounds, putInt(st.simp(n), 4, true)) || !st.prove(con(1<<32-1).sub(n)) || !st.prove(n.addc(-1)):
				why = "the key is derived with a number of rounds other than the stored one, or with none: " + short(e.Args[2])
			case !r.requestedRounds(a, st, n):
				why = "the number of rounds is not the requested one (or 42): " + short(n)
			case !st.simp(k.len()).equal(con(64)):
				why = "the derived key is not 64 bytes"
			case !sameRope(st, stored, xorRope(st, key, k, 64)):
				why = "the stored key is not the secret key XORed with the derived key in all 64 bytes: " + short(stored)
			default:
				ok = true
			}
		}
		r.ob("protected", ok, a.fn, x.pos, "a key generated with a passphrase is not protected by it (exit at %s): %s", at, why)
	}
	r.floor("protected generation paths", enc, 1)
	r.floor("unprotected generation paths", plain, 1)
	// the plain key is stored nowhere else
	for _, x := range a.exits {
		protected := x.st.decide(eqPred(a.e.content(a.entry, a.args[1]).len(), con(0))) == 0
		if !protected {
			continue
		}
		for _, o := range outFiles(x.st) {
			all := append([]Value{o.content}, writesOf(o)...)
			for _, v := range all {
				r.ob("no plain key", !plainSeed(v), o.open.Fn, o.open.Pos, "the plain secret key is written to %s", short(o.path))
			}
		}
	}
	// the library function that returns the pair
	p := r.analyse(kPlain, "signify.GenerateKeypair", nil)
	for _, x := range r.successes(p) {
		pass := p.e.content(p.entry, p.args[0])
		priv := p.e.resolve(x.st, resultOf(x, 0), 0)
		if x.st.decide(eqPred(pass.len(), con(0))) == 1 {
			continue
		}
		r.ob("no plain key", !plainSeed(priv) && !plainSeed(p.e.resolve(x.st, resultOf(x, 1), 0)), p.fn, x.pos, "the pair returned for a passphrase holds the plain secret key (exit at %s)", r.leaf(x))
	}
}

func writesOf(o *OutFile) []Value {
	var out []Value
	if len(o.open.Args) > 1 && o.open.Name == "writefile" {
		out = append(out, o.open.Args[1])
	}
	for _, w := range o.writes {
		out = append(out, w.Args[1])
	}
	return out
}

// plainSeed: bytes of the secret key appear other than through the public
// key, a hash prefix or an XOR with a derived key.
func plainSeed(v Value) bool {
	found := false
	walk(v, map[string]bool{}, func(x Value) bool {
		t, ok := x.(*Term)
		if !ok {
			return true
		}
		switch t.op {
		case "edpubof", "sha512", "kdf", "edsign", "len":
			return false
		case "xor", "xor8":
			for _, a := range t.args {
				if containsOp(a, "kdf") {
					return false
				}
			}
		case "edseed":
			found = true
		case "rand":
			return true
		}
		return true
	})
	return found
}

// seedOf is the seed whose public key the record holds.
func seedOf(st *State, pub *Rope) *Rope {
	t := whole(st, sub(st, pub, 10, 32))
	if t == nil || t.op != "edpubof" {
		return nil
	}
	s := ropeOf(t.args[0])
	return s
}

// requestedRounds: 42 without options, the option otherwise.
func (r *Run) requestedRounds(a *Analysis, st *State, n *Lin) bool {
	n = st.simp(n)
	opts := a.args[2]
	switch st.decide(eqPred(opts, Nil{})) {
	case 1:
		return n.isConst() && n.c == 42
	case 0:
		t := n.single()
		if t == nil {
			return false
		}
		o, ok := opts.(*Opq)
		return ok && containsTerm(t, o.t) && t.op != "phi" && pureField(t)
	}
	return false
}

// pureField: the term is a component of something, and not computed.
func pureField(t *Term) bool {
	switch t.op {
	case "field", "deref", "fieldof", "ext", "elem":
		return true
	}
	return false
}

func containsTerm(v Value, t *Term) bool {
	f := false
	walk(v, map[string]bool{}, func(x Value) bool {
		if y, ok := x.(*Term); ok && y == t {
			f = true
		}
		return true
	})
	return f
}

// ---- C09

func ruleC09(r *Run) {
	a := r.genkey()
	n := 0
	for _, x := range a.exits {
		for _, o := range outFiles(x.st) {
			secret := false
			for _, v := range append([]Value{o.content}, writesOf(o)...) {
				secret = secret || secretKeyIn(v)
			}
			if !secret && !sameRope(x.st, o.path, cat(strArg(a, 0), rlit(".sec"))) {
				continue
			}
			n++
			r.site(o.open)
			r.ob("new file", !o.whole && o.flags.isConst() && o.flags.c&(oCREATE|oEXCL) == oCREATE|oEXCL, o.open.Fn, o.open.Pos, "the secret key file is opened so that an existing file may be overwritten (flags %s)", short(o.flags))
			r.ob("private mode", o.perm.isConst() && o.perm.c&077 == 0, o.open.Fn, o.open.Pos, "the secret key file is created with permissions %#o", permOf(o.perm))
		}
		for _, e := range x.st.events() {
			switch e.Name {
			case "os.Chmod", "file.Chmod":
				p, _ := e.Args[len(e.Args)-1].(*Lin)
				r.ob("private mode", p != nil && p.isConst() && p.c&077 == 0, e.Fn, e.Pos, "the mode of a file is changed to %s", short(e.Args[len(e.Args)-1]))
			case "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Link", "os.Symlink":
				r.ob("existing key", false, e.Fn, e.Pos, "%s may remove or replace an existing secret key file", e.Name)
			case "os.umask", "syscall.Umask":
				r.ob("private mode", false, e.Fn, e.Pos, "the umask is changed")
			}
		}
		// if the file cannot be created, generation fails
		if success(a, x) {
			for _, o := range outFiles(x.st) {
				r.ob("exclusive creation", !o.failed || o.open.Name != "open" || !o.open.Fail, o.open.Fn, o.open.Pos, "generation succeeds although a key file could not be created")
			}
		}
	}
	r.floor("writes of the secret key", n, 1)
	r.scanWriters("C09")
}

func permOf(l *Lin) int64 {
	if l.isConst() {
		return l.c
	}
	return -1
}

// secretKeyIn: the value holds secret key bytes, protected or not.
func secretKeyIn(v Value) bool {
	found := false
	walk(v, map[string]bool{}, func(x Value) bool {
		t, ok := x.(*Term)
		if !ok {
			return true
		}
		switch t.op {
		case "edpubof", "sha512", "kdf", "edsign", "len":
			return false
		case "edseed":
			found = true
		}
		return true
	})
	return found
}

// scanWriters is a who-may-call rule over the whole program: nothing of the
// repository calls functions that change files in other ways.
func (r *Run) scanWriters(prop string) {
	bad := map[string]bool{"os.Chmod": true, "os.Rename": true, "os.Link": true, "os.Symlink": true, "syscall.Umask": true, "(*os.File).Chmod": true}
	n := 0
	for _, f := range r.w.allFns() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n++
				if g := c.Common().StaticCallee(); g != nil && bad[g.String()] {
					p, _ := constArg(c, len(c.Common().Args)-1)
					r.ob("who may call", g.String() != "os.Rename" && g.String() != "os.Link" && g.String() != "os.Symlink" && p&077 == 0 && p >= 0, f, i.Pos(), "%s is called", g.String())
				}
			}
		}
	}
	r.floor("call sites", n, 200)
}

func constArg(c ssa.CallInstruction, i int) (int64, bool) {
	if i < 0 || i >= len(c.Common().Args) {
		return -1, false
	}
	k, ok := c.Common().Args[i].(*ssa.Const)
	if !ok || k.Value == nil {
		return -1, false
	}
	return k.Int64(), true
}
