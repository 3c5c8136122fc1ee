package signify

// Demonstrations of the genuine defects found in the base commit. Each test
// fails on fd51c41 ("base") and passes on the repaired tree. They document the
// findings; no registered check runs them.

import (
	"bytes"
	stdb64 "encoding/base64"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func scratch(t *testing.T) string {
	d, err := ioutil.TempDir("", "psig")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

func put(t *testing.T, path, s string) string {
	if err := ioutil.WriteFile(path, []byte(s), 0600); err != nil {
		t.Fatal(err)
	}
	return path
}

func b64rec(b []byte) string {
	return "untrusted comment: x\n" + stdb64.StdEncoding.EncodeToString(b) + "\n"
}

// C03: a truncated signature file must not crash Verify.
func TestDefectTruncatedSignaturePanics(t *testing.T) {
	d := scratch(t)
	for _, c := range []string{"", "untrusted comment: x\n\n", b64rec([]byte("E"))} {
		s := put(t, filepath.Join(d, "sig"), c)
		if err := Verify(testPublicKey, testMessage, s); err == nil {
			t.Fatal("accepted")
		}
	}
}

// C04: trailing bytes in a signature record were ignored.
func TestDefectOversizedSignatureAccepted(t *testing.T) {
	d := scratch(t)
	sig, err := readSignaturePath(testSignature)
	if err != nil {
		t.Fatal(err)
	}
	s := put(t, filepath.Join(d, "sig"), b64rec(append(sig.encode(), "garbage"...)))
	if err := Verify(testPublicKey, testMessage, s); err == nil {
		t.Fatal("signature record with trailing garbage accepted")
	}
}

// C04: a truncated secret key record was accepted (and signed with).
func TestDefectTruncatedPrivateKeyAccepted(t *testing.T) {
	priv, _, err := GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	d := scratch(t)
	k := put(t, filepath.Join(d, "k.sec"), b64rec(priv.encode()[:60]))
	if _, err := LoadPrivateKey(k); err == nil {
		t.Fatal("truncated private key accepted")
	}
}

// C06: an unencrypted key whose checksum does not match was used to sign.
func TestDefectUncheckedPlainKeySigns(t *testing.T) {
	priv, _, err := GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	priv.key[40] ^= 1
	d := scratch(t)
	k := put(t, filepath.Join(d, "k.sec"), b64rec(priv.encode()))
	m := put(t, filepath.Join(d, "m"), "hello")
	if err := Sign(k, m, ""); err == nil {
		t.Fatal("signed with a private key that fails its checksum")
	}
	if _, err := priv.ToBox(); err == nil {
		t.Fatal("box key derived from a private key that fails its checksum")
	}
}

// C07: a wrong passphrase destroyed the loaded key.
func TestDefectWrongPassphrasePoisonsKey(t *testing.T) {
	priv, err := LoadPrivateKey(testPrivateKey)
	if err != nil {
		t.Fatal(err)
	}
	if priv.decrypt([]byte("wrong")) == nil {
		t.Fatal("wrong passphrase accepted")
	}
	if err := priv.decrypt([]byte("passphrase")); err != nil {
		t.Fatal("right passphrase refused after a wrong one:", err)
	}
}

// C09: the secret key was created world readable, and an existing one was
// overwritten.
func TestDefectSecretKeyMode(t *testing.T) {
	d := scratch(t)
	base := filepath.Join(d, "k")
	if err := GenerateKey(base, nil, nil); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(base + ".sec")
	if err != nil {
		t.Fatal(err)
	}
	if fi.Mode().Perm()&0077 != 0 {
		t.Fatalf("secret key file mode %v", fi.Mode())
	}
	before, _ := ioutil.ReadFile(base + ".sec")
	GenerateKey(base, nil, nil)
	after, _ := ioutil.ReadFile(base + ".sec")
	if !bytes.Equal(before, after) {
		t.Fatal("existing secret key overwritten")
	}
}

// C10: the box conversion did not wipe the passphrase.
func TestDefectToBoxPassphraseNotWiped(t *testing.T) {
	old := PassphrasePrompt
	defer func() { PassphrasePrompt = old }()
	pw := []byte("passphrase")
	PassphrasePrompt = func(bool) ([]byte, error) { return pw, nil }
	priv, err := LoadPrivateKey(testPrivateKey)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := priv.ToBox(); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(pw, make([]byte, len(pw))) {
		t.Fatal("passphrase left in memory")
	}
}

// C08: a round count that does not fit the file format was silently reduced.
func TestDefectRoundsTruncated(t *testing.T) {
	priv, _, err := GenerateKeypair([]byte("pw"), &GenerateOptions{Rounds: 1<<32 + 1})
	if err == nil {
		t.Fatalf("asked for 2^32+1 rounds, got %d", priv.kdfRounds)
	}
}

// C05: keys of an unknown algorithm were converted for encryption.
func TestDefectUnknownAlgorithm(t *testing.T) {
	priv, pub, err := GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	copy(priv.keyAlgo[:], "XX")
	copy(pub.keyAlgo[:], "XX")
	d := scratch(t)
	if p, err := LoadPublicKey(put(t, filepath.Join(d, "k.pub"), b64rec(pub.encode()))); err == nil {
		if _, err = p.ToBox(); err == nil {
			t.Error("public key of unknown algorithm used for encryption")
		}
	}
	k := put(t, filepath.Join(d, "k.sec"), b64rec(priv.encode()))
	m := put(t, filepath.Join(d, "m"), "hello")
	if Sign(k, m, "") == nil {
		t.Error("signed with a private key of unknown algorithm")
	}
}
