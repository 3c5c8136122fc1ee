package main

// ---------------------------------------------------------------------------
// C27: sealing followed by opening is the identity. It follows by composition
// from the axioms of the primitives (X25519 commutes and clamps; opening
// inverts sealing for the same key and nonce; the standard base64 reader
// inverts the standard base64 encoding) and these parts, each decided for
// every input:
//
//   - both sides derive one shared key: the box public key is the birational
//     image of the signing key, the box private key has the same scalar;
//   - Seal passes on the whole message, in order, in chunks, and the header
//     states their number;
//   - the writer and the reader agree on each part of the format;
//   - the writer's base64 layer loses and adds nothing, and the reader's
//     delivers what the standard reader does;
//   - Open writes each chunk that it opened, in order, once, and succeeds only
//     after the last;
//   - neither refuses anything well-formed.
func ruleC27(r *Run) {
	part := func(name string, f func()) {
		r.part = name + ": "
		f()
		r.part = ""
	}
	part("keys", func() {
		r.publicToBox()
		r.privateToBox(false)
	})
	part("passphrase", func() { r.passAsEntered() })
	part("sealing", func() { ruleC16(r) })
	part("format", func() { ruleC25(r) })
	part("encoder", func() { ruleC20(r) })
	part("decoder", func() { ruleC21(r) })
	part("opening", func() { ruleC15(r) })
	part("refusal", func() {
		n := r.causes(append(append(r.loadedToBox(), r.loadedPubToBox()...), r.cryOps()...))
		r.floor("failing exits", n, 40)
	})
}

// C29: what Sign produces, Verify accepts. It follows from the axiom that
// Ed25519 verification accepts what signing produced with the same pair, that
// the key-encryption key is a function of its arguments, and these parts:
//
//   - the two key files of a pair hold one key and one key number, the secret
//     half being recoverable from what is stored with it;
//   - the records are read as they are written;
//   - the signature file is a record of the signature of the whole message
//     with the key number of the key;
//   - verifying applies Ed25519 to these bytes, and nothing is refused for
//     another reason.
func ruleC29(r *Run) {
	part := func(name string, f func()) {
		r.part = name + ": "
		f()
		r.part = ""
	}
	part("key pair", func() { ruleC08(r) })
	part("records", func() { ruleC05(r) })
	part("unlocking", func() { ruleC06(r) })
	part("signing", func() { ruleC02(r) })
	part("verifying", func() { ruleC01(r) })
	part("passphrase", func() { r.passAsEntered() })
	part("refusal", func() {
		var as []*Analysis
		for _, n := range []string{"signify.Verify", "signify.Sign", "signify.LoadPublicKey", "signify.LoadPrivateKey"} {
			as = append(as, r.analyse(kPlain, n, nil))
		}
		n := r.causes(as)
		r.floor("failing exits", n, 40)
	})
}

// passAsEntered: a key is unlocked with the bytes that the prompt returned,
// and the prompt returns the bytes that the terminal delivered, so that the
// same input gives the same key-encryption key when a key is generated (the
// passphrase goes into the derivation as it is, C08) and when it is used.
func (r *Run) passAsEntered() {
	n := 0
	for _, a := range append([]*Analysis{r.sign()}, r.loadedToBox()...) {
		for _, x := range a.exits {
			asked := map[string]bool{}
			for _, e := range x.st.events() {
				switch {
				case e.Fail:
				case (e.Name == "prompt" || e.Name == "readpassword") && e.Out != nil:
					asked[x.st.simpRope(e.Out.(*Rope)).canon().key()] = true
				case e.Name == "kdf":
					n++
					r.site(e)
					r.ob("unlocked with the passphrase", asked[x.st.simpRope(ropeOf(e.Args[0])).canon().key()], e.Fn, e.Pos, "the key is unlocked with something other than the passphrase that the prompt returned: %s", short(e.Args[0]))
				}
			}
		}
	}
	r.floor("unlockings", n, 4)
	m := 0
	for _, a := range r.promptFns() {
		for _, x := range a.exits {
			if failure(a, x) || x.kind != xRet {
				continue
			}
			m++
			got := resultOf(x, 0)
			s, _ := got.(*Slice)
			ok := false
			for _, e := range x.st.events() {
				if e.Name == "readpassword" && !e.Fail && s != nil {
					ok = ok || sameRope(x.st, a.e.content(x.st, s), ropeOf(e.Out))
				}
			}
			r.ob("prompt as entered", ok, a.fn, x.pos, "the prompt does not return what was entered but %s", short(got))
		}
	}
	r.floor("prompts answered", m, 2)
}
