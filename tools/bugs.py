"""The planted bugs. Each was written from the text of a property and the code
alone. Demonstrations use the public interface where they can."""
BUGS = []


def bug(id, prop, pkg, edits, test, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, test=test, needs=needs, breaks=breaks))


def sig(body, imports=''):
    return '''package signify_test

import (
	"bytes"
	"encoding/base64"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
%s
	"github.com/kisom/psignify/signify"
)

var _ = bytes.Equal
var _ = base64.StdEncoding
var _ = strings.Split
var _ = os.Remove

// pair makes a key pair in a scratch directory.
func pair(t *testing.T, pass string, opts *signify.GenerateOptions) (dir, pub, sec string) {
	dir = t.TempDir()
	if err := signify.GenerateKey(filepath.Join(dir, "k"), []byte(pass), opts); err != nil {
		t.Fatal(err)
	}
	return dir, filepath.Join(dir, "k.pub"), filepath.Join(dir, "k.sec")
}

func put(t *testing.T, path string, data []byte) string {
	if err := ioutil.WriteFile(path, data, 0600); err != nil {
		t.Fatal(err)
	}
	return path
}

// record decodes the record in a key or signature file.
func record(t *testing.T, path string) []byte {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	l := strings.Split(string(b), "\\n")
	r, err := base64.StdEncoding.DecodeString(l[1])
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func putRecord(t *testing.T, path string, rec []byte) string {
	return put(t, path, []byte("untrusted comment: x\\n"+base64.StdEncoding.EncodeToString(rec)+"\\n"))
}

func prompt(s string) {
	signify.PassphrasePrompt = func(bool) ([]byte, error) { return []byte(s), nil }
}

%s
''' % (imports, body.strip('\n'))


def cry(body, imports=''):
    return '''package crypto_test

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
%s
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

var _ = bytes.Equal
var _ = os.Remove
var _ = crypto.Seal

func pair(t *testing.T, pass string) (dir, pub, sec string) {
	dir = t.TempDir()
	if err := signify.GenerateKey(filepath.Join(dir, "k"), []byte(pass), nil); err != nil {
		t.Fatal(err)
	}
	return dir, filepath.Join(dir, "k.pub"), filepath.Join(dir, "k.sec")
}

func put(t *testing.T, path string, data []byte) string {
	if err := ioutil.WriteFile(path, data, 0600); err != nil {
		t.Fatal(err)
	}
	return path
}

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return b
}

%s
''' % (imports, body.strip('\n'))


# ---------------------------------------------------------------- C01

bug('c01-keynum-half', 'C01', 'signify',
    [('signify/key.go', 'if !bytes.Equal(pub.keyNum[:], sig.keyNum[:]) {', 'if !bytes.Equal(pub.keyNum[:4], sig.keyNum[:4]) {')],
    sig('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "", nil)
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	sf := filepath.Join(dir, "m.sig")
	if err := signify.Sign(sec, msg, sf); err != nil {
		t.Fatal(err)
	}
	for i := 2; i < 10; i++ {
		rec := record(t, sf)
		rec[i] ^= 1
		bad := putRecord(t, filepath.Join(dir, "bad"), rec)
		if signify.Verify(pub, msg, bad) == nil {
			t.Fatalf("accepted with a different key number (byte %d)", i)
		}
	}
}
'''), 'a signature whose key number differs from the key\'s only in its last four bytes',
    'Verify accepts a signature that names another key: only half of the key number is compared.')

bug('c01-message-limit', 'C01', 'signify',
    [('signify/key.go', '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}

	sig, err := priv.sign(message)
''', '''	message, err := readMessage(messagePath)
	if err != nil {
		return err
	}

	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}

	sig, err := priv.sign(message)
'''),
     ('signify/key.go', '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	sig, err := readSignaturePath(''', '''	message, err := readMessage(messagePath)
	if err != nil {
		return err
	}

	sig, err := readSignaturePath('''),
     ('signify/key.go', '''// Sign ''', '''// readMessage maps the message into memory.
func readMessage(path string) ([]byte, error) {
	fi, err := os.Stat(path)
	if err != nil {
		return nil, err
	}
	file, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	message := make([]byte, fi.Size()&0xfffff)
	_, err = io.ReadFull(file, message)
	return message, err
}

// Sign '''),
     ('signify/key.go', '''	"fmt"
	"io/ioutil"
	"math"
''', '''	"fmt"
	"io"
	"io/ioutil"
	"math"
	"os"
''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "", nil)
	data := make([]byte, 1<<20+10)
	msg := put(t, filepath.Join(dir, "m"), data)
	sf := filepath.Join(dir, "m.sig")
	if err := signify.Sign(sec, msg, sf); err != nil {
		t.Fatal(err)
	}
	if err := signify.Verify(pub, msg, sf); err != nil {
		t.Fatal(err)
	}
	data[len(data)-1] ^= 1
	put(t, msg, data)
	if signify.Verify(pub, msg, sf) == nil {
		t.Fatal("accepted although the message was changed")
	}
}
'''), 'a message longer than 1 MiB; signing and verifying both cut it, so that they still agree',
    'Only a part of a long message is signed and verified, so a changed message verifies.')

# ---------------------------------------------------------------- C02

bug('c02-keynum-short', 'C02', 'signify',
    [('signify/key.go', '	copy(sig.keyNum[:], priv.keyNum[:])\n	edpriv', '	copy(sig.keyNum[:], strings.TrimRight(string(priv.keyNum[:]), "\\x00\\n"))\n	edpriv')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "", nil)
	rec := record(t, sec)
	rec[39] = 10 // the last byte of the key number
	sec = putRecord(t, filepath.Join(dir, "k2.sec"), rec)
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	sf := filepath.Join(dir, "m.sig")
	if err := signify.Sign(sec, msg, sf); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(record(t, sf)[2:10], rec[32:40]) {
		t.Fatal("the signature does not carry the key number")
	}
}
'''), 'a key whose key number ends in a newline byte',
    'The signature carries another key number than the signing key\'s.')

# ---------------------------------------------------------------- C05

bug('c05-rounds-endian', 'C05', 'signify',
    [('signify/key.go', '	binary.Write(buf, binary.BigEndian, priv.kdfRounds)', '	binary.Write(buf, binary.LittleEndian, priv.kdfRounds)')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "secret", &signify.GenerateOptions{Rounds: 3})
	if rec := record(t, sec); !bytes.Equal(rec[4:8], []byte{0, 0, 0, 3}) {
		t.Fatalf("the rounds are stored as % x", rec[4:8])
	}
}
'''), 'writing a protected key to a file and looking at, or loading, the file',
    'The number of rounds is written in little-endian order but read in big-endian order.')

# ---------------------------------------------------------------- C08

bug('c08-rounds-cut', 'C08', 'signify',
    [('signify/key.go', '		priv.kdfRounds = uint32(opts.Rounds)', '		priv.kdfRounds = uint32(opts.Rounds)&0xff | 1')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "secret", &signify.GenerateOptions{Rounds: 256})
	if rec := record(t, sec); !bytes.Equal(rec[4:8], []byte{0, 0, 1, 0}) {
		t.Fatalf("the rounds are stored as % x", rec[4:8])
	}
}
'''), 'a number of rounds other than a small odd one, or the default 42 (which becomes 43)',
    'The requested number of rounds is reduced modulo 256.')

# ---------------------------------------------------------------- C03

bug('c03-prealloc', 'C03', 'crypto',
    [('crypto/crypto.go', '''	chunk := make([]byte, sealedChunkSize)
	nonce := [24]byte{}
	for i := uint64(0); i < chunks; i++ {
''', '''	chunk := make([]byte, sealedChunkSize)
	nonce := [24]byte{}
	sizes := make([]int, 0, chunks)
	for i := uint64(0); i < chunks; i++ {
'''),
     ('crypto/crypto.go', '''		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, shared)
		if !ok {
			return fmt.Errorf("signify/crypto: failed to decrypt chunk=%d", i)
		}
''', '''		sizes = append(sizes, n)
		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, shared)
		if !ok {
			return fmt.Errorf("signify/crypto: failed to decrypt chunk=%d of sizes %d", i, sizes)
		}
''')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	k, err := signify.LoadPublicKey(pub)
	if err != nil {
		t.Fatal(err)
	}
	to, err := k.ToBox()
	if err != nil {
		t.Fatal(err)
	}
	epub, epriv, err := box.GenerateKey(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	var shared [32]byte
	box.Precompute(&shared, to, epriv)
	header := make([]byte, 40)
	for i := 0; i < 8; i++ {
		header[i] = 0x7f
	}
	copy(header[8:], epub[:])
	tag := auth.Sum(header, &shared)
	header = append(header, tag[:]...)
	enc := put(t, filepath.Join(dir, "m.enc"), []byte("untrusted comment: x\\n"+base64.StdEncoding.EncodeToString(header)+"\\n"))
	if crypto.Open(sec, enc, filepath.Join(dir, "m")) == nil {
		t.Fatal("opened a file without its chunks")
	}
}
''', '''	"crypto/rand"
	"encoding/base64"

	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
'''), 'an encrypted file whose (correctly authenticated) header states a huge number of chunks',
    'Open allocates a slice of the stated capacity and panics.')

bug('c03-comment-index', 'C03', 'signify',
    [('signify/common.go', '''			dat.comment += strings.TrimPrefix(line, commentPrefix)
''', '''			comment := strings.TrimPrefix(line, commentPrefix)
			if comment[len(comment)-1] == '\\r' {
				comment = comment[:len(comment)-1]
			}
			dat.comment += comment
''')],
    sig('''
func TestDemo(t *testing.T) {
	_, pub, _ := pair(t, "", nil)
	rec := record(t, pub)
	dir := t.TempDir()
	p := put(t, filepath.Join(dir, "k.pub"), []byte("untrusted comment: \\n"+base64.StdEncoding.EncodeToString(rec)+"\\n"))
	if _, err := signify.LoadPublicKey(p); err != nil {
		t.Fatal(err)
	}
}
'''), 'a file whose comment is empty',
    'Loading a key or signature file with an empty comment panics.')

# ---------------------------------------------------------------- C04

bug('c04-longer', 'C04', 'signify',
    [('signify/key.go', 'if len(data) != (keyAlgoLength + keyNumLength + publicKeyLength) {', 'if len(data) < (keyAlgoLength + keyNumLength + publicKeyLength) {')],
    sig('''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "", nil)
	rec := record(t, pub)
	bad := putRecord(t, filepath.Join(dir, "bad.pub"), append(rec, 1, 2, 3))
	if _, err := signify.LoadPublicKey(bad); err == nil {
		t.Fatal("a public key with more bytes was accepted")
	}
}
'''), 'a public key record with bytes after its end', 'A public key record that is too long is accepted.')

# ---------------------------------------------------------------- C06

bug('c06-half', 'C06', 'signify',
    [('signify/key.go', 'if !bytes.Equal(digest[:checksumLength], priv.checksum[:]) {', 'if !bytes.HasPrefix(digest[:], priv.checksum[:kdfAlgoLength]) {')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "", nil)
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	for i := 24; i < 32; i++ {
		rec := record(t, sec)
		rec[i] ^= 1
		bad := putRecord(t, filepath.Join(dir, "bad.sec"), rec)
		if signify.Sign(bad, msg, filepath.Join(dir, "m.sig")) == nil {
			t.Fatalf("signed with a key whose checksum is wrong in byte %d", i-24)
		}
	}
}
'''), 'a key whose checksum is wrong only after the first two bytes',
    'Only two bytes of the checksum are compared.')

# ---------------------------------------------------------------- C07

bug('c07-stream', 'C07', 'signify',
    [('signify/key.go', '''	for i := range priv.key[:] {
		priv.key[i] ^= xorkey[i]
	}

	err = priv.Check()
''', '''	for i := range xorkey {
		priv.key[i] ^= xorkey[i]
		xorkey[i] = 0
	}

	err = priv.Check()
''')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "right", &signify.GenerateOptions{Rounds: 1})
	priv, err := signify.LoadPrivateKey(sec)
	if err != nil {
		t.Fatal(err)
	}
	prompt("wrong")
	if _, err = priv.ToBox(); err == nil {
		t.Fatal("the wrong passphrase was accepted")
	}
	prompt("right")
	if _, err = priv.ToBox(); err != nil {
		t.Fatal(err)
	}
}
'''), 'a wrong passphrase, and then the right one, on the same key in memory',
    'The key stream is wiped before the encrypted key is restored with it, so the key is destroyed.')

# ---------------------------------------------------------------- C08

bug('c08-prefix', 'C08', 'signify',
    [('signify/key.go', '	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt[:], int(priv.kdfRounds), secretKeyLength)', '	xorkey, err := deriveKey(password, priv.salt[:], int(priv.kdfRounds))'),
     ('signify/key.go', '		xorkey, err := bcrypt_pbkdf.Key(passphrase, priv.salt[:], int(priv.kdfRounds), secretKeyLength)', '		xorkey, err := deriveKey(passphrase, priv.salt[:], int(priv.kdfRounds))'),
     ('signify/key.go', '''// IsEncrypted ''', '''// maxPassphrase is the length of the longest passphrase.
const maxPassphrase = 72

// deriveKey returns the key stream that protects a private key.
func deriveKey(passphrase, salt []byte, rounds int) ([]byte, error) {
	if len(passphrase) > maxPassphrase {
		passphrase = passphrase[:maxPassphrase]
	}
	return bcrypt_pbkdf.Key(passphrase, salt, rounds, secretKeyLength)
}

// IsEncrypted ''')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, strings.Repeat("x", 80)+"secret", &signify.GenerateOptions{Rounds: 1})
	priv, err := signify.LoadPrivateKey(sec)
	if err != nil {
		t.Fatal(err)
	}
	prompt(strings.Repeat("x", 80) + "another")
	if _, err = priv.ToBox(); err == nil {
		t.Fatal("unlocked with another passphrase")
	}
}
'''), 'a passphrase of more than 72 bytes; generation and unlocking both cut it, so that they still agree',
    'Only the first 72 bytes of a passphrase protect the key, so others unlock it.')

bug('c08-short', 'C08', 'signify',
    [('signify/key.go', '	if len(passphrase) != 0 {', '	if len(passphrase) > 1 {')],
    sig('''
func TestDemo(t *testing.T) {
	_, pub, sec := pair(t, "x", &signify.GenerateOptions{Rounds: 1})
	if bytes.Equal(record(t, sec)[72:104], record(t, pub)[10:42]) {
		t.Fatal("the secret key is stored in the clear")
	}
}
'''), 'a passphrase of a single byte', 'The key file says that the key is protected, but it is stored in the clear.')

# ---------------------------------------------------------------- C10

bug('c10-wipe-late', 'C10', 'signify',
    [('signify/key.go', '''		var passphrase []byte
		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}
		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
''', '''		var passphrase []byte
		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}

		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
		zero(&passphrase)
''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "right", &signify.GenerateOptions{Rounds: 1})
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	buf := []byte("wrong")
	signify.PassphrasePrompt = func(bool) ([]byte, error) { return buf, nil }
	if signify.Sign(sec, msg, filepath.Join(dir, "m.sig")) == nil {
		t.Fatal("the wrong passphrase was accepted")
	}
	if !bytes.Equal(buf, make([]byte, 5)) {
		t.Fatal("the passphrase is still in memory")
	}
}
'''), 'signing with a passphrase that does not unlock the key', 'The passphrase stays in memory when signing fails.')

# ---------------------------------------------------------------- C11

bug('c11-digest', 'C11', 'signify',
    [('signify/key.go', '	return nil, errors.New("signify: unsupported', '')] if False else
    [('signify/key.go', '		return errors.New("signify: invalid private key checksum")', '		return fmt.Errorf("signify: invalid private key checksum (%x)", digest[:checksumLength+1])')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "", nil)
	rec := record(t, sec)
	rec[24] ^= 1
	digest := sha512.Sum512(rec[40:])
	bad := putRecord(t, filepath.Join(t.TempDir(), "bad.sec"), rec)
	priv, err := signify.LoadPrivateKey(bad)
	if err != nil {
		t.Fatal(err)
	}
	err = priv.Check()
	if err == nil {
		t.Fatal("the checksum was accepted")
	}
	if strings.Contains(err.Error(), hex.EncodeToString(digest[:9])) {
		t.Fatal("the message holds a digest of the secret key")
	}
}
''', '	"crypto/sha512"\n	"encoding/hex"\n'), 'a key whose checksum does not match',
    'The error message holds a digest of the secret key, more of it than the key file has.')

# ---------------------------------------------------------------- C12

bug('c12-salt-half', 'C12', 'signify',
    [('signify/key.go', '	_, err = rand.Read(priv.salt[:])', '	_, err = rand.Read(priv.salt[:checksumLength])')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "", nil)
	_, _, sec2 := pair(t, "", nil)
	if bytes.Equal(record(t, sec)[16:24], record(t, sec2)[16:24]) {
		t.Fatal("the salts of two keys end alike")
	}
}
'''), 'generating keys and comparing the ends of their salts', 'Half of the salt is not random.')

# ---------------------------------------------------------------- C13

bug('c13-chmod', 'C13', 'signify',
    [('signify/key.go', '''	return readPrivateKeyFile(data)
}
''', '''	priv, err := readPrivateKeyFile(data)
	if err == nil {
		os.Chmod(path, 0600)
	}
	return priv, err
}
'''), ('signify/key.go', '	"math"\n', '	"math"\n	"os"\n')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "", nil)
	if err := os.Chmod(sec, 0640); err != nil {
		t.Fatal(err)
	}
	if _, err := signify.LoadPrivateKey(sec); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(sec)
	if err != nil {
		t.Fatal(err)
	}
	if fi.Mode().Perm() != 0640 {
		t.Fatal("loading a key changed the mode of its file")
	}
}
'''), 'loading a key from a file whose mode is not 0600', 'Loading a key changes its file\'s mode.')

# ---------------------------------------------------------------- C14

bug('c14-carry', 'C14', 'crypto',
    [('crypto/crypto.go', '		if nonce[i] != 0 {', '		if nonce[i] != 0 || i == 22 {')],
    '''
package crypto

import "testing"

func TestDemo(t *testing.T) {
	n := [24]byte{22: 0xff, 23: 0xff}
	if err := incrementNonce(&n); err != nil {
		t.Fatal(err)
	}
	if n != [24]byte{21: 1} {
		t.Fatalf("the nonce after 65535 is % x", n)
	}
}
''', 'a message of more than 65536 chunks (1 GB)', 'The nonce wraps to zero after 65536 chunks, and is used again.')

# ---------------------------------------------------------------- C15

bug('c15-count-short', 'C15', 'crypto',
    [('crypto/crypto.go', '	chunks := binary.BigEndian.Uint64(header[:8])', '	chunks := uint64(binary.BigEndian.Uint32(header[4:8]))')],
    '''
package crypto

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"testing"

	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
)

func TestDemo(t *testing.T) {
	priv, pub, err := signify.GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	to, err := pub.ToBox()
	if err != nil {
		t.Fatal(err)
	}
	epub, epriv, err := box.GenerateKey(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	var shared [32]byte
	box.Precompute(&shared, to, epriv)
	header := make([]byte, 40)
	binary.BigEndian.PutUint64(header, 1<<32+1)
	copy(header[8:], epub[:])
	tag := auth.Sum(header, &shared)
	sealed := append(header, tag[:]...)
	sealed = append(sealed, box.SealAfterPrecomputation(nil, make([]byte, 16385), new([24]byte), &shared)...)
	if err = open(priv, bytes.NewBuffer(sealed), new(bytes.Buffer)); err == nil {
		t.Fatal("a message cut to its first chunk was opened")
	}
}
''', 'a message of 2^32 chunks or more that has been cut', 'Open takes the low half of the chunk count, so a cut message is accepted.')

# ---------------------------------------------------------------- C16

bug('c16-limit', 'C16', 'crypto',
    [('crypto/crypto.go', '''	chunks := messageLen / chunkSize
	if messageLen%chunkSize != 0 {
		chunks++
	}
''', '''	// What is appended to the message meanwhile is not part of it.
	message = io.LimitReader(message, int64(messageLen))
	chunks := messageLen / chunkSize
	if chunks*chunkSize < messageLen {
		chunks++
	}
''')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "")
	if b, err := ioutil.ReadFile("/proc/version"); err != nil || len(b) == 0 {
		t.Skip("no file that is longer than its size")
	}
	if crypto.Seal(pub, "/proc/version", filepath.Join(dir, "m.enc")) == nil {
		t.Fatal("sealed a part of a file that is longer than its size")
	}
}
'''), 'a message file that is longer than its size says (it grows while it is sealed)', 'Only a part of the message is sealed, and that is reported as a success.')

# ---------------------------------------------------------------- C17

bug('c17-short', 'C17', 'crypto',
    [('crypto/crypto.go', '''		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}
''', '''		_, err = w.Write(out)
		if err != nil && i < chunks-1 {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}
''')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := crypto.Seal(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
	if crypto.Open(sec, msg+".enc", "/dev/full") == nil {
		t.Fatal("success, although the message could not be written")
	}
}
'''), 'a write of the last chunk that fails (a full disk)', 'Open reports success although the end of the message was not written.')

CMD = '''package main

import (
	"io/ioutil"
	"os"
	"os/exec"
	"os/user"
	"path/filepath"
	"testing"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

var _ = os.Remove
var _ = crypto.Seal
var _ = user.Current
var _ = exec.Command

func pair(t *testing.T, name string) (pub, sec string) {
	if err := os.MkdirAll(filepath.Dir(name), 0700); err != nil {
		t.Fatal(err)
	}
	if err := signify.GenerateKey(name, nil, nil); err != nil {
		t.Fatal(err)
	}
	return name + ".pub", name + ".sec"
}

func put(t *testing.T, path string, data []byte) string {
	if err := ioutil.WriteFile(path, data, 0600); err != nil {
		t.Fatal(err)
	}
	return path
}

// command runs the command in a process of its own, with a home directory of
// its own.
func command(t *testing.T, home string, args ...string) (string, error) {
	c := exec.Command(os.Args[0], args...)
	c.Env = append(os.Environ(), "PSIGNIFY_DEMO=1", "HOME="+home)
	out, err := c.CombinedOutput()
	return string(out), err
}

func TestMain(m *testing.M) {
	if os.Getenv("PSIGNIFY_DEMO") != "" {
		main()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

'''

# ---------------------------------------------------------------- C18

bug('c18-missing', 'C18', 'cmd/psignify',
    [('cmd/psignify/main.go', '''			fmt.Fprintf(os.Stderr, "%s: invalid signature\\n", messageFile)
			os.Exit(1)
''', '''			fmt.Fprintf(os.Stderr, "%s: invalid signature\\n", messageFile)
			if !os.IsNotExist(err) {
				os.Exit(1)
			}
			return
''')],
    CMD + '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	pub, _ := pair(t, filepath.Join(dir, "k"))
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if out, err := command(t, dir, "-V", "-p", pub, "-m", msg); err == nil {
		t.Fatalf("success without a signature: %s", out)
	}
}
''', 'verifying a message that has no signature file', 'The command exits with status 0 though nothing was verified.')

# ---------------------------------------------------------------- C19

bug('c19-pub-from-sec', 'C19', 'cmd/psignify',
    [('cmd/psignify/main.go', '	if pubKeyFile == "" && keyBase != "" {', '	if pubKeyFile == "" && encrypt && filepath.Ext(privKeyFile) == ".sec" {\n		pubKeyFile = privKeyFile[:len(privKeyFile)-4] + ".pub"\n	}\n\n	if pubKeyFile == "" && keyBase != "" {')],
    CMD + '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	u, err := user.Current()
	if err != nil {
		t.Skip(err)
	}
	_, sec := pair(t, filepath.Join(dir, ".signify", u.Username))
	_, other := pair(t, filepath.Join(dir, "other"))
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if out, err := command(t, dir, "-E", "-s", other, "-m", msg); err != nil {
		t.Skipf("%s (%s)", out, err) // no home directory from the environment
	}
	if err := crypto.Open(sec, msg+".enc", filepath.Join(dir, "m2")); err != nil {
		t.Fatalf("not sealed to the default key: %s", err)
	}
}
''', 'encrypting without -p, but with -s', 'The message is sealed to another key than the documented default.')

# ---------------------------------------------------------------- C20

ENC = '''package base64_test

import (
	"bytes"
	stdbase64 "encoding/base64"
	"errors"
	"io"
	"strings"
	"testing"

	"github.com/kisom/psignify/base64"
)

var _ = bytes.Equal
var _ = stdbase64.StdEncoding
var _ = errors.New
var _ = io.EOF
var _ = strings.Split

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return b
}

'''

bug('c20-fast', 'C20', 'base64',
    [('base64/coding.go', '''	for i := range p {
		w.buf[w.index] = p[i]
		w.index++
''', '''	for w.index == 0 && len(p)-written >= decodedSize {
		// A whole line at once.
		line := make([]byte, encodedSize, encodedSize+1)
		base64.StdEncoding.Encode(line, p[written:written+decodedSize])
		_, err := w.w.Write(append(line, '\\n'))
		if err != nil {
			return written, err
		}
		written += decodedSize
	}

	for _, c := range p[written:] {
		w.buf[w.index] = c
		w.index++
''')],
    ENC + '''func TestDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	w := base64.NewEncoder(buf)
	w.Write(pattern(3))
	w.Write(pattern(120))
	w.Close()
	for _, l := range strings.Split(buf.String(), "\\n") {
		if len(l) > 72 {
			t.Fatalf("a line of %d characters", len(l))
		}
	}
}
''', 'a write of at least 54 bytes after one that ended within a line, at a multiple of three bytes', 'Lines longer than 72 characters.')

bug('c20-close-error', 'C20', 'base64',
    [('base64/coding.go', '''	_, err := w.w.Write([]byte("\\n"))
	return err
}
''', '''	if _, err := w.w.Write([]byte("\\n")); err != nil && w.line > 0 {
		return err
	}
	return nil
}
''')],
    ENC + '''type failing struct{ n int }

func (f *failing) Write(p []byte) (int, error) {
	if f.n -= len(p); f.n < 0 {
		return 0, errors.New("full")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	w := base64.NewEncoder(&failing{4})
	if _, err := w.Write([]byte("ab")); err != nil {
		t.Fatal(err)
	}
	if w.Close() == nil {
		t.Fatal("success although the newline could not be written")
	}
}
''', 'a write of the final newline that fails after a short last group', 'Close reports success although the last line was not ended.')

# ---------------------------------------------------------------- C21

bug('c21-limit', 'C21', 'base64',
    [('base64/coding.go', '''func NewDecoder(r io.Reader) io.ReadCloser {
	return &Decoder{
''', '''func NewDecoder(src io.Reader) io.ReadCloser {
	// Bounds the memory that a reader of everything needs.
	r := io.LimitReader(src, encodedSize<<16)
	return &Decoder{
''')],
    ENC + '''func TestDemo(t *testing.T) {
	want := pattern(5 << 20)
	buf := &bytes.Buffer{}
	w := base64.NewEncoder(buf)
	w.Write(want)
	w.Close()
	r := base64.NewDecoder(buf)
	got := make([]byte, len(want))
	n, err := io.ReadFull(r, got)
	if err != nil || !bytes.Equal(got[:n], want) {
		t.Fatalf("read %d bytes of %d: %v", n, len(want), err)
	}
}
''', 'an input of more than 4.5 MiB', 'The decoder reports the end of the input after 4.5 MiB.')

# ---------------------------------------------------------------- C22

bug('c22-scratch', 'C22', 'base64',
    [('base64/coding.go', '''func (w *Encoder) Write(p []byte) (int, error) {
	out := make([]byte, 4)
	written := 0
''', '''var quantum [4]byte

func (w *Encoder) Write(p []byte) (int, error) {
	out := quantum[:]
	written := 0
''')],
    ENC + '''type pass struct {
	w     io.Writer
	other io.Writer
}

// Write is where another encoder happens to run.
func (p *pass) Write(b []byte) (int, error) {
	p.other.Write([]byte("xyz"))
	return p.w.Write(b)
}

func TestDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	w := base64.NewEncoder(&pass{buf, base64.NewEncoder(&bytes.Buffer{})})
	w.Write([]byte("abcdef"))
	if got := buf.String(); got != stdbase64.StdEncoding.EncodeToString([]byte("abcdef")) {
		t.Fatalf("wrote %q", got)
	}
}
''', 'two encoders used at the same time', 'Encoders share a buffer, so that one writes the other\'s data.')

# ---------------------------------------------------------------- C23

bug('c23-curve', 'C23', 'signify',
    [('signify/internal/edwards25519/edwards25519.go', '''		FeAdd(&check, &vxx, &u) // vx^2+u
		if FeIsNonZero(&check) == 1 {
			return false
		}
		FeMul''', '''		FeMul''')],
    sig('''
func TestDemo(t *testing.T) {
	_, pub, _ := pair(t, "", nil)
	rec := record(t, pub)
	dir := t.TempDir()
	for y := 2; y < 40; y++ {
		for i := range rec[10:] {
			rec[10+i] = 0
		}
		rec[10] = byte(y)
		k, err := signify.LoadPublicKey(putRecord(t, filepath.Join(dir, "k.pub"), rec))
		if err != nil {
			t.Fatal(err)
		}
		if _, err = k.ToBox(); err != nil {
			return
		}
	}
	t.Fatal("none of 38 encodings was refused, though half of them are no points of the curve")
}
'''), 'a public key file whose key is not a point of the curve', 'Public keys that are no points of the curve are converted rather than refused.')

bug('c23-sign', 'C23', 'signify',
    [('signify/key.go', '	edwards25519.FeToBytes(&edpub, x)', '	edwards25519.FeToBytes(&edpub, x)\n	edpub[31] |= pub.key[31] & 0x80')],
    sig('''
func TestDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		_, pub, err := signify.GenerateKeypair(nil, nil)
		if err != nil {
			t.Fatal(err)
		}
		k, err := pub.ToBox()
		if err != nil {
			t.Fatal(err)
		}
		if k[31] >= 0x80 {
			t.Fatal("the box key is not an element of the field")
		}
	}
}
'''), 'a public key whose sign bit is set', 'The box key carries the sign bit of the signing key.')

bug('c23-clamp', 'C23', 'signify',
    [('signify/key.go', '	digest[0] &= 248\n', '	digest[0] &^= 3\n')],
    sig('''
func TestDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		priv, _, err := signify.GenerateKeypair(nil, nil)
		if err != nil {
			t.Fatal(err)
		}
		k, err := priv.ToBox()
		if err != nil {
			t.Fatal(err)
		}
		if k[0]&7 != 0 || k[31]&0xc0 != 0x40 {
			t.Fatal("the box key is not clamped")
		}
	}
}
'''), 'half of all keys; invisible to sealing and opening, which clamp again', 'The secret box key is not clamped as signify and the others do.')

# ---------------------------------------------------------------- C24

bug('c24-tobytes', 'C24', 'signify/internal/edwards25519',
    [('signify/internal/edwards25519/edwards25519.go', '	q := (19*h[9] + (1 << 24)) >> 25\n	q = (h[0] + q) >> 26', '	q := (19 * h[9]) >> 25\n	q = (h[0] + q) >> 26')],
    '''
package edwards25519

import "testing"

func TestDemo(t *testing.T) {
	// p itself, and -1, which are 0 and p-1.
	h := FieldElement{}
	FeOne(&h)
	FeNeg(&h, &h)
	var s [32]byte
	FeToBytes(&s, &h)
	want := [32]byte{0: 0xec, 31: 0x7f}
	for i := 1; i < 31; i++ {
		want[i] = 0xff
	}
	if s != want {
		t.Fatalf("-1 is % x", s)
	}
	h = FieldElement{67108845, 33554431, 67108863, 33554431, 67108863, 33554431, 67108863, 33554431, 67108863, 33554431}
	FeToBytes(&s, &h)
	if s != [32]byte{} {
		t.Fatalf("p is % x", s)
	}
}
''', 'an element whose limbs stand for p up to 2^255-1, or a small negative one', 'FeToBytes does not reduce every element.')

bug('c24-nonzero', 'C24', 'signify/internal/edwards25519',
    [('signify/internal/edwards25519/edwards25519.go', '	for _, b := range s {\n		x |= b', '	for _, b := range s[:31] {\n		x |= b')],
    '''
package edwards25519

import "testing"

func TestDemo(t *testing.T) {
	h := FieldElement{9: 1 << 18}
	if FeIsNonZero(&h) != 1 {
		t.Fatal("2^248 is taken for zero")
	}
}
''', 'a multiple of 2^248', 'Some elements other than zero are taken for zero.')

bug('c24-square', 'C24', 'signify/internal/edwards25519',
    [('signify/internal/edwards25519/edwards25519.go', '	f6_19 := 19 * f6 // 1.31*2^30\n', '	f6_19 := 19 * f6 // 1.31*2^30\n	f6_38 := int64(38 * f[6])\n'),
     ('signify/internal/edwards25519/edwards25519.go', 'f3_2*f7_38 + f4_2*f6_19 + f5*f5_38', 'f3_2*f7_38 + f4*f6_38 + f5*f5_38'),
     ('signify/internal/edwards25519/edwards25519.go', 'f4*f7_38 + f5_2*f6_19', 'f4*f7_38 + f5*f6_38')],
    '''
package edwards25519

import "testing"

func TestDemo(t *testing.T) {
	f := FieldElement{}
	for i := range f {
		f[i] = 1<<25 + 1<<22 + 99
		if i%2 == 0 {
			f[i] = 1<<26 + 1<<23 + 99
		}
	}
	g := f
	var a, b FieldElement
	FeMul(&a, &f, &g)
	FeSquare(&b, &f)
	FeSub(&a, &a, &b)
	if FeIsNonZero(&a) != 0 {
		t.Fatal("the square is not the product with itself")
	}
}
''', 'an operand near the bound that is documented for squaring', 'A premultiplied limb overflows 32 bits.')

# ---------------------------------------------------------------- C25

bug('c25-nonce', 'C25', 'crypto',
    [('crypto/crypto.go', '''		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}
''', '''		_, err = w.Write(out)
		if err != nil {
			return err
		}

		binary.LittleEndian.PutUint16(nonce[22:], uint16(i+1)<<8)
	}

	return nil
}
''')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	want := pattern(300 * 16385)
	msg := put(t, filepath.Join(dir, "m"), want)
	if err := crypto.Seal(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
	if err := crypto.Open(sec, msg+".enc", msg+"2"); err != nil {
		t.Fatal(err)
	}
}
'''), 'a message of more than 256 chunks (4 MB)', 'Open counts the chunks otherwise than Seal, so that a longer message cannot be opened.')

# ---------------------------------------------------------------- C26

bug('c26-rounding', 'C26', 'crypto',
    [('crypto/crypto.go', '	if messageLen%chunkSize != 0 {', '	if messageLen%chunkSize > 1 {')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "")
	for _, n := range []int{16384, 16385, 16386, 16387} {
		msg := put(t, filepath.Join(dir, "m"), pattern(n))
		if err := crypto.Seal(pub, msg, ""); err != nil {
			t.Fatalf("%d bytes: %s", n, err)
		}
	}
}
'''), 'a message that is one byte longer than a multiple of the chunk size', 'Such a message cannot be sealed.')

# ---------------------------------------------------------------- C27

bug('c27-trim', 'C27', 'crypto',
    [('crypto/crypto.go', '''		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}
''', '''		if i == chunks-1 && len(out) < chunkSize {
			// Encrypted text files end in one newline.
			for len(out) > 1 && out[len(out)-1] == 0 {
				out = out[:len(out)-1]
			}
		}
		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}
''')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	want := []byte("message\\x00")
	msg := put(t, filepath.Join(dir, "m"), want)
	if err := crypto.Seal(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
	if err := crypto.Open(sec, msg+".enc", msg+"2"); err != nil {
		t.Fatal(err)
	}
	got, err := ioutil.ReadFile(msg + "2")
	if err != nil || !bytes.Equal(got, want) {
		t.Fatalf("%q (%v)", got, err)
	}
}
'''), 'a message that ends in zero bytes', 'The zeros at the end of a message are lost.')

bug('c27-tail', 'C27', 'base64',
    [('base64/coding.go', '''		out := make([]byte, base64.StdEncoding.EncodedLen(w.index))
		base64.StdEncoding.Encode(out, w.buf[:w.index])
''', '''		out := make([]byte, base64.StdEncoding.EncodedLen(w.index))
		if w.line == decodedSize-3 {
			w.index = 1
		}
		base64.StdEncoding.Encode(out, w.buf[:w.index])
''')],
    ENC + '''func TestDemo(t *testing.T) {
	for n := 0; n < 200; n++ {
		buf := &bytes.Buffer{}
		w := base64.NewEncoder(buf)
		w.Write(pattern(n))
		w.Close()
		got := make([]byte, n+1)
		k, _ := io.ReadFull(base64.NewDecoder(buf), got)
		if !bytes.Equal(got[:k], pattern(n)) {
			t.Fatalf("%d bytes came back as %d", n, k)
		}
	}
}
''', 'a sealed message whose last line ends with an incomplete group in its last place', 'The last byte of some sealed messages is lost.')

bug('c27-key', 'C27', 'signify',
    [('signify/key.go', '	digest[0] &= 248\n	digest[31] &= 127\n	digest[31] |= 64\n	copy(sboxKey[:], digest[:])', '	copy(sboxKey[:], bytes.TrimLeft(digest[:32], "\\x00"))\n	sboxKey[0] &= 248\n	sboxKey[31] &= 127\n	sboxKey[31] |= 64')],
    sig('''
func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		priv, pub, err := signify.GenerateKeypair(nil, nil)
		if err != nil {
			t.Fatal(err)
		}
		a, err := priv.ToBox()
		if err != nil {
			t.Fatal(err)
		}
		b, err := pub.ToBox()
		if err != nil {
			t.Fatal(err)
		}
		var c [32]byte
		curve25519.ScalarBaseMult(&c, a)
		if c != *b {
			t.Fatal("the box keys do not belong together")
		}
	}
}
''', '\n	"golang.org/x/crypto/curve25519"\n'), 'one key in 256, whose seed has a digest that begins with a zero byte', 'The secret box key does not belong to the public one.')

# ---------------------------------------------------------------- second ones

bug('c02-base-name', 'C02', 'signify',
    [('signify/key.go', '	message, err := ioutil.ReadFile(messagePath)\n	if err != nil {\n		return err\n	}\n\n	if signaturePath == "" {\n		signaturePath = messagePath + ".sig"\n	}\n\n	sig, err := priv.sign(message)', '	message, err := ioutil.ReadFile(messagePath)\n	if err != nil {\n		return err\n	}\n\n	if signaturePath == messagePath+".sig" {\n		signaturePath = strings.TrimSuffix(messagePath, ".gz") + ".sig"\n	}\n\n	sig, err := priv.sign(message)')],
    sig('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "", nil)
	msg := put(t, filepath.Join(dir, "m.gz"), []byte("message"))
	if err := signify.Sign(sec, msg, ""); err != nil {
		t.Fatal(err)
	}
	if err := signify.Verify(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
}
'''), 'a message whose name ends in .gz', 'The signature is written to another file than the one that is stated or the default.')

bug('c05-salt-order', 'C05', 'signify',
    [('signify/key.go', '''	buf.Write(priv.salt[:])
	buf.Write(priv.checksum[:])
	buf.Write(priv.keyNum[:])
	buf.Write(priv.key[:])
''', '''	buf.Write(bytes.TrimRight(priv.salt[:], "\\x00"))
	for buf.Len() < keyAlgoLength+kdfAlgoLength+4+saltLength {
		buf.WriteByte(1)
	}
	buf.Write(priv.checksum[:])
	buf.Write(priv.keyNum[:])
	buf.Write(priv.key[:])
''')],
    '''
package signify

import (
	"testing"
)

func TestDemo(t *testing.T) {
	priv, _, err := GenerateKeypair(nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	priv.salt[saltLength-1] = 0
	back, err := readPrivateKeyData(priv.encode())
	if err != nil {
		t.Fatal(err)
	}
	if *back != *priv {
		t.Fatal("the record that is written is not that of the key")
	}
}
''', 'a salt that ends in a zero byte (one key in 256)', 'The salt in the record is another one than the key was protected with.')

bug('c09-umask', 'C09', 'signify',
    [('signify/key.go', '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}
''', '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	// Both files belong to the group that shares the key's directory.
	if fi, err := os.Stat(filepath.Dir(keyPath)); err == nil && fi.Mode()&os.ModeSetgid != 0 {
		for _, ext := range []string{".pub", ".sec"} {
			err = os.Chmod(keyPath+ext, fi.Mode()&0664)
			if err != nil {
				return err
			}
		}
	}
'''), ('signify/key.go', '	"math"\n', '	"math"\n	"os"\n'),
     ('signify/key.go', '// GenerateKey generates a new signify keypair under keypath.sec and\n', '// GenerateKey makes a new signify keypair under keypath.sec and\n')],
    sig('''
func TestDemo(t *testing.T) {
	dir := filepath.Join(t.TempDir(), "keys")
	if err := os.Mkdir(dir, 0755); err != nil {
		t.Fatal(err)
	}
	if err := os.Chmod(dir, os.ModeSetgid|0755); err != nil {
		t.Fatal(err)
	}
	if err := signify.GenerateKey(filepath.Join(dir, "k"), nil, nil); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(filepath.Join(dir, "k.sec"))
	if err != nil {
		t.Fatal(err)
	}
	if fi.Mode().Perm()&077 != 0 {
		t.Fatalf("the secret key file has mode %o", fi.Mode().Perm())
	}
}
'''), 'generating a key in a directory with the setgid bit', 'The secret key file becomes readable for others.')

bug('c12-keynum', 'C12', 'signify',
    [('signify/key.go', '	_, err = rand.Read(priv.keyNum[:])\n	if err != nil {\n		return nil, nil, err\n	}\n', '	copy(priv.keyNum[:], priv.salt[saltLength-keyNumLength:])\n')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "", nil)
	if rec := record(t, sec); bytes.Equal(rec[16:24], rec[32:40]) {
		t.Fatal("the key number, which is public, is a part of the salt")
	}
}
'''), 'comparing the key number of a key with its salt', 'The key number is no random value of its own.')

bug('c13-cleanup', 'C13', 'crypto',
    [('crypto/crypto.go', '''	message, err := os.Create(messagePath)
	if err != nil {
		return err
	}
	defer message.Close()
''', '''	message, err := os.Create(messagePath)
	if err != nil {
		os.Remove(encryptedPath + ".tmp")
		return err
	}
	defer message.Close()
''')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := crypto.Seal(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
	other := put(t, msg+".enc.tmp", []byte("mine"))
	crypto.Open(sec, msg+".enc", filepath.Join(dir, "none", "m"))
	if _, err := os.Stat(other); err != nil {
		t.Fatal("another file was removed")
	}
}
'''), 'an output file that cannot be created, beside a file named like the input with .tmp', 'A file that is none of the operation\'s is removed.')

bug('c26-short-file', 'C26', 'crypto',
    [('crypto/crypto.go', '	messageLen := int(fi.Size())\n', '	messageLen := int(fi.Size())\n	if messageLen%chunkSize == 1 && messageLen > chunkSize*chunkSize {\n		return errors.New("signify/crypto: unsupported message size")\n	}\n')] if False else
    [('crypto/crypto.go', '	messageLen := int(fi.Size())\n', '	messageLen := int(int32(fi.Size()))\n')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "")
	// Fails at once when the size is taken for a negative one.
	msg := put(t, filepath.Join(dir, "m"), nil)
	if err := os.Truncate(msg, 1<<32+1<<14); err != nil {
		t.Skip(err)
	}
	done := make(chan error, 1)
	go func() { done <- crypto.Seal(pub, msg, "/dev/null") }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(2 * time.Second):
		// It is at work on the rest.
	}
}
''', '	"time"\n'), 'a message of 2 GB or more', 'Large messages cannot be sealed.')

# ---------------------------------------------------------------- a second round

bug('c01-keynum-fold', 'C01', 'signify',
    [('signify/key.go', '	if !bytes.Equal(pub.keyNum[:], sig.keyNum[:]) {\n', '''	var diff uint8
	for i := range pub.keyNum {
		diff ^= pub.keyNum[i] ^ sig.keyNum[i]
	}
	if diff != 0 {
''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "", nil)
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	sf := filepath.Join(dir, "m.sig")
	if err := signify.Sign(sec, msg, sf); err != nil {
		t.Fatal(err)
	}
	rec := record(t, sf)
	rec[2] ^= 5
	rec[7] ^= 5
	bad := putRecord(t, filepath.Join(dir, "bad"), rec)
	if signify.Verify(pub, msg, bad) == nil {
		t.Fatal("accepted with a different key number")
	}
}
'''), 'a signature whose key number differs from the key\'s in two bytes, by the same bits',
    'The differences of the bytes are combined by exclusive or, so that they can cancel.')

bug('c02-early', 'C02', 'signify',
    [('signify/key.go', '''	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	if signaturePath == "" {
		signaturePath = messagePath + ".sig"
	}

	sig, err := priv.sign(message)
	if err != nil {
		return err
	}

	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
	err = writeDataFile(signaturePath, comment, sig.encode())
''', '''	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)

	// Find out early whether the signature can be written.
	err = writeDataFile(signaturePath, comment, nil)
	if err != nil {
		return err
	}

	message, err := ioutil.ReadFile(messagePath)
	if err != nil {
		return err
	}

	sig, err := priv.sign(message)
	if err != nil {
		return err
	}

	err = writeDataFile(signaturePath, comment, sig.encode())
''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "", nil)
	sf := put(t, filepath.Join(dir, "m.sig"), []byte("an older signature"))
	if signify.Sign(sec, filepath.Join(dir, "none"), sf) == nil {
		t.Fatal("a message that does not exist was signed")
	}
	if b, _ := ioutil.ReadFile(sf); string(b) != "an older signature" {
		t.Fatal("the signature file was written although signing failed")
	}
}
'''), 'a message that cannot be read, while a signature file exists',
    'When signing fails, the signature file has been overwritten by one without a signature.')

bug('c03-empty', 'C03', 'crypto',
    [('crypto/crypto.go', '''	chunk := make([]byte, sealedChunkSize)
	nonce := [24]byte{}
	for i := uint64(0); i < chunks; i++ {
''', '''	nonce := [24]byte{}
	chunk := make([]byte, sealedChunkSize)
	quiet := os.Getenv("PSIGNIFY_PROGRESS") == ""
	percent := 100 / chunks
	for i := uint64(0); i < chunks; i++ {
		if !quiet {
			fmt.Fprintf(os.Stderr, "%d%%\\n", i*percent)
		}

''')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	msg := put(t, filepath.Join(dir, "m"), nil)
	if err := crypto.Seal(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
	if err := crypto.Open(sec, msg+".enc", filepath.Join(dir, "m2")); err != nil {
		t.Fatal(err)
	}
}
'''), 'an encrypted file that holds an empty message', 'Opening panics with a division by zero.')

bug('c04-kdf-default', 'C04', 'signify',
    [('signify/key.go', '	if string(priv.kdfAlgo[:]) != "BK" {', '	if string(priv.kdfAlgo[:]) != "BK" && priv.kdfRounds != kdfRounds {')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "secret", nil)
	rec := record(t, sec)
	copy(rec[2:], "XX")
	bad := putRecord(t, filepath.Join(dir, "bad.sec"), rec)
	prompt("secret")
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if signify.Sign(bad, msg, "") == nil {
		t.Fatal("a key with an unknown KDF was used")
	}
}
'''), 'a protected key with an unknown KDF tag and the default number of rounds',
    'A key whose KDF is unknown is used as if it were bcrypt.')

bug('c06-plain', 'C06', 'signify',
    [('signify/key.go', '''	err := priv.Check()
	if err != nil {
		var passphrase []byte
		passphrase, err = PassphrasePrompt(false)
''', '''	err := priv.Check()
	if err != nil && priv.IsEncrypted() {
		var passphrase []byte
		passphrase, err = PassphrasePrompt(false)
''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "", nil)
	rec := record(t, sec)
	rec[50] ^= 1
	priv, err := signify.LoadPrivateKey(putRecord(t, filepath.Join(dir, "bad.sec"), rec))
	if err != nil {
		t.Fatal(err)
	}
	prompt("")
	if _, err := priv.ToBox(); err == nil {
		t.Fatal("a damaged key was used")
	}
}
'''), 'converting an unprotected key whose checksum does not match', 'A damaged unprotected key is used for decryption.')

bug('c07-cleared', 'C07', 'signify',
    [('signify/key.go', '''		err = priv.decrypt(passphrase)
		if err != nil {
			return nil, err
		}
	}

	var sboxKey''', '''		err = priv.decrypt(passphrase)
		if err != nil {
			zero64(&priv.key)
			return nil, err
		}
	}

	var sboxKey''')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "right", &signify.GenerateOptions{Rounds: 1})
	priv, err := signify.LoadPrivateKey(sec)
	if err != nil {
		t.Fatal(err)
	}
	prompt("wrong")
	if _, err := priv.ToBox(); err == nil {
		t.Fatal("the wrong passphrase was accepted")
	}
	prompt("right")
	if _, err := priv.ToBox(); err != nil {
		t.Fatal(err)
	}
}
'''), 'the right passphrase, given after a wrong one', 'A wrong passphrase wipes the key, so that the right one fails afterwards.')

bug('c10-shadow', 'C10', 'signify',
    [('signify/key.go', '''	if priv.IsEncrypted() {
		var passphrase []byte
		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}
		defer zero(&passphrase)
''', '''	var passphrase []byte
	defer zero(&passphrase)
	if priv.IsEncrypted() {
		passphrase, err := PassphrasePrompt(false)
		if err != nil {
			return err
		}
''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "right", &signify.GenerateOptions{Rounds: 1})
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	buf := []byte("right")
	signify.PassphrasePrompt = func(bool) ([]byte, error) { return buf, nil }
	if err := signify.Sign(sec, msg, filepath.Join(dir, "m.sig")); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(buf, make([]byte, 5)) {
		t.Fatal("the passphrase is still in memory")
	}
}
'''), 'looking at the buffer that the prompt returned', 'Another variable of the same name is wiped, the passphrase is not.')

bug('c14-cached', 'C14', 'crypto',
    [('crypto/crypto.go', '''	epub, epriv, err := box.GenerateKey(rand.Reader)
	if err != nil {
		return err
	}

	box.Precompute(&shared, edpub, epriv)
''', '''	if ephemeral.pub == nil {
		ephemeral.pub, ephemeral.priv, err = box.GenerateKey(rand.Reader)
		if err != nil {
			return err
		}
	}
	epub, epriv := ephemeral.pub, ephemeral.priv

	box.Precompute(&shared, edpub, epriv)
'''),
     ('crypto/crypto.go', '''func seal(pub''', '''// ephemeral is the key pair that this process seals with.
var ephemeral struct {
	pub, priv *[32]byte
}

func seal(pub''')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "")
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	var text [2][]byte
	for i := range text {
		if err := crypto.Seal(pub, msg, ""); err != nil {
			t.Fatal(err)
		}
		text[i], _ = ioutil.ReadFile(msg + ".enc")
	}
	if bytes.Equal(text[0], text[1]) {
		t.Fatal("two messages were sealed under one key with one nonce")
	}
}
'''), 'sealing two messages in one process', 'The ephemeral key is used for all messages of a process, so that keys and nonces repeat.')

bug('c15-stale', 'C15', 'crypto',
    [('crypto/crypto.go', '	message, err := os.Create(messagePath)\n', '	message, err := os.OpenFile(messagePath, os.O_WRONLY|os.O_CREATE, 0600)\n')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := crypto.Seal(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
	out := put(t, filepath.Join(dir, "out"), []byte("something longer than the message"))
	if err := crypto.Open(sec, msg+".enc", out); err != nil {
		t.Fatal(err)
	}
	if b, _ := ioutil.ReadFile(out); string(b) != "message" {
		t.Fatalf("the output is %q", b)
	}
}
'''), 'an output file that exists and is longer than the message', 'The end of the older contents follows the message in the output.')

bug('c17-unflushed', 'C17', 'crypto',
    [('crypto/crypto.go', '''	chunk := make([]byte, sealedChunkSize)
	nonce := [24]byte{}
''', '''	out := bufio.NewWriterSize(w, 4*chunkSize)
	defer out.Flush()
	w = out

	chunk := make([]byte, sealedChunkSize)
	nonce := [24]byte{}
'''), ('crypto/crypto.go', 'import (\n	"crypto/rand"\n', 'import (\n	"bufio"\n	"crypto/rand"\n')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := crypto.Seal(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
	if crypto.Open(sec, msg+".enc", "/dev/full") == nil {
		t.Fatal("success, although the message could not be written")
	}
}
'''), 'a disk that is full when the buffer is flushed', 'The error of the deferred flush is dropped.')

bug('c18-continue', 'C18', 'cmd/psignify',
    [('cmd/psignify/main.go', '''	flag.Usage = func() {
		usage(os.Stdout)
	}
''', '''	flag.CommandLine.Init(os.Args[0], flag.ContinueOnError)
	flag.CommandLine.Usage = func() {
		usage(os.Stdout)
	}
''')],
    CMD + '''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	pub, sec := pair(t, filepath.Join(dir, "k"))
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := signify.Sign(sec, msg, ""); err != nil {
		t.Fatal(err)
	}
	if out, err := command(t, dir, "-V", "-p", pub, "-m", msg, "-sig", "other.sig"); err == nil {
		t.Fatalf("success with an option that does not exist: %s", out)
	}
}
''', 'an invalid option after the options that are needed', 'The command goes on after an invalid command line and exits with status 0.')

bug('c20-again', 'C20', 'base64',
    [('base64/coding.go', '''		if err != nil {
			return err
		}

		w.index = 0
		w.line = 0
	}
	_, err := w.w.Write([]byte("\\n"))
	return err
''', '''		if err != nil {
			return err
		}
	}
	_, err := w.w.Write([]byte("\\n"))
	return err
''')],
    ENC + '''func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := base64.NewEncoder(&b)
	w.Write([]byte("abcd"))
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	w.Close() // as by a deferred call
	if s := strings.Replace(b.String(), "\\n", "", -1); s != "YWJjZA==" {
		t.Fatalf("%q", s)
	}
}
''', 'data whose length is no multiple of three, and closing twice', 'Closing the encoder again writes the last bytes once more.')

bug('c22-cache', 'C22', 'signify',
    [('signify/key.go', '''	key     [publicKeyLength]byte
}
''', '''	key     [publicKeyLength]byte
	box     *[32]byte // the converted key, once it is known
}
'''), ('signify/key.go', '''	var A = &edwards25519.ExtendedGroupElement{}
''', '''	if pub.box != nil {
		box := *pub.box
		return &box, nil
	}

	var A = &edwards25519.ExtendedGroupElement{}
'''), ('signify/key.go', '''	edwards25519.FeToBytes(&edpub, x)

	return &edpub, nil
''', '''	edwards25519.FeToBytes(&edpub, x)

	box := edpub
	pub.box = &box
	return &edpub, nil
''')],
    sig('''
func TestDemo(t *testing.T) {
	_, path, _ := pair(t, "", nil)
	pub, err := signify.LoadPublicKey(path)
	if err != nil {
		t.Fatal(err)
	}
	before := *pub
	if _, err := pub.ToBox(); err != nil {
		t.Fatal(err)
	}
	if *pub != before {
		t.Fatal("converting a key writes to the key, so that two goroutines race")
	}
}
'''), 'two goroutines that convert one public key', 'Converting a public key stores the result in the key without synchronisation.')

bug('c27-stale', 'C27', 'crypto',
    [('crypto/crypto.go', '	encrypted, err := os.Create(encryptedPath)\n', '	encrypted, err := os.OpenFile(encryptedPath, os.O_WRONLY|os.O_CREATE, 0666)\n')],
    cry('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	msg := put(t, filepath.Join(dir, "m"), pattern(17000))
	if err := crypto.Seal(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
	for n := 200; n < 260; n++ {
		put(t, msg, pattern(n))
		if err := crypto.Seal(pub, msg, ""); err != nil {
			t.Fatal(err)
		}
		out := filepath.Join(dir, "out")
		if err := crypto.Open(sec, msg+".enc", out); err != nil {
			t.Fatal(err)
		}
		if b, _ := ioutil.ReadFile(out); !bytes.Equal(b, pattern(n)) {
			t.Fatal("another message came out")
		}
	}
}
'''), 'sealing over an encrypted file that is longer', 'The rest of the older file follows the new one, and the decoder does not accept the result.')


# ---------------------------------------------------------------- C28

HANG = '''
// ends fails the test unless f returns soon.
func ends(t *testing.T, what string, f func() error) {
	done := make(chan error, 1)
	go func() { done <- f() }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal(what + " does not end")
	}
}
'''

bug('c28-comment', 'C28', 'crypto',
    [('crypto/crypto.go', '''		if err != nil {
			return err
		}

		if c[0] == 0xa {''', '''		if err != nil && err != io.EOF {
			return err
		}

		if c[0] == 0xa {''')],
    cry(HANG + '''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "")
	for _, s := range []string{"", "untrusted comment: cut"} {
		enc := put(t, filepath.Join(dir, "m.enc"), []byte(s))
		ends(t, "opening a truncated file", func() error {
			return crypto.Open(sec, enc, filepath.Join(dir, "m"))
		})
	}
}
''', '	"time"\n'), 'an encrypted file that ends within its first line', 'Open reads at the end of a truncated file for ever.')

bug('c28-blank', 'C28', 'signify',
    [('signify/common.go', '''	for scanner.Scan() {
		line = scanner.Text()
''', '''	for {
		scanner.Scan()
		line = scanner.Text()
		if line == "" && len(data) > 0 {
			continue // blank lines before the data
		}
''')],
    sig(HANG + '''
func TestDemo(t *testing.T) {
	dir, _, _ := pair(t, "", nil)
	for _, s := range []string{"", "untrusted comment: x\\n", "\\n\\n"} {
		f := put(t, filepath.Join(dir, "x"), []byte(s))
		ends(t, "loading a key", func() error {
			_, err := signify.LoadPublicKey(f)
			return err
		})
	}
}
''', '	"time"\n'), 'a key file that has no line of data', 'Blank lines are skipped without noticing the end of the file, so that loading never returns.')

bug('c28-again', 'C28', 'signify',
    [('signify/key.go', '''		var passphrase []byte
		passphrase, err = PassphrasePrompt(false)
		if err != nil {
			return nil, err
		}
		defer zero(&passphrase)

		err = priv.decrypt(passphrase)
		if err != nil {
			return nil, err
		}
''', '''		for err != nil {
			passphrase, perr := PassphrasePrompt(false)
			if perr != nil {
				return nil, perr
			}

			err = priv.decrypt(passphrase)
			zero(&passphrase)
		}
''')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "right", &signify.GenerateOptions{Rounds: 1})
	asked := 0
	signify.PassphrasePrompt = func(bool) ([]byte, error) {
		asked++
		if asked > 20 {
			t.Fatal("a program that has only one passphrase to offer is asked without end")
		}
		return []byte("wrong"), nil
	}
	priv, err := signify.LoadPrivateKey(sec)
	if err != nil {
		t.Fatal(err)
	}
	if _, err = priv.ToBox(); err == nil {
		t.Fatal("unlocked with a wrong passphrase")
	}
}
'''), 'a wrong passphrase', 'Unlocking asks again until the passphrase is right, so that a program whose prompt answers from a file hangs.')

bug('c28-writer', 'C28', 'base64',
    [('base64/coding.go', '''			_, err := w.w.Write(out)
			if err != nil {
				return written, err
			}
			w.line += 3
''', '''			for rest := out; len(rest) > 0; {
				n, err := w.w.Write(rest)
				if err != nil && n > 0 {
					return written, err
				}
				rest = rest[n:] // nothing was written: interrupted
			}
			w.line += 3
'''), ('base64/coding.go', '''				_, err = w.w.Write([]byte("\\n"))
				if err != nil {
					return written, err
				}
				w.line = 0
''', '''				_, err := w.w.Write([]byte("\\n"))
				if err != nil {
					return written, err
				}
				w.line = 0
''')],
    '''package base64_test

import (
	"errors"
	"testing"
	"time"

	"github.com/kisom/psignify/base64"
)

type full struct{}

func (full) Write(p []byte) (int, error) { return 0, errors.New("no space left") }

func TestDemo(t *testing.T) {
	done := make(chan error, 1)
	go func() {
		_, err := base64.NewEncoder(full{}).Write(make([]byte, 100))
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("writing to a full disk does not end")
	}
}
''', 'an underlying writer that fails before it has taken anything', 'A write that failed is repeated for ever.')

# ---------------------------------------------------------------- C29

bug('c29-trim', 'C29', 'signify',
    [('signify/key.go', '''		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
''', '''		err = priv.decrypt(bytes.TrimSpace(passphrase))
		if err != nil {
			return err
		}
''')],
    sig('''
func TestDemo(t *testing.T) {
	const pass = "correct horse "
	dir, pub, sec := pair(t, pass, &signify.GenerateOptions{Rounds: 1})
	prompt(pass)
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := signify.Sign(sec, msg, ""); err != nil {
		t.Fatal(err)
	}
	if err := signify.Verify(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
}
'''), 'a passphrase that begins or ends with a space', 'Signing trims the passphrase, which generation does not, so that the key cannot be used.')

bug('c29-long', 'C29', 'signify',
    [('signify/key.go', '''	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt''', '''	if len(password) > 72 {
		password = password[:72] // as bcrypt does
	}
	xorkey, err := bcrypt_pbkdf.Key(password, priv.salt''')],
    sig('''
func TestDemo(t *testing.T) {
	pass := strings.Repeat("correct horse ", 8)
	dir, pub, sec := pair(t, pass, &signify.GenerateOptions{Rounds: 1})
	prompt(pass)
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := signify.Sign(sec, msg, ""); err != nil {
		t.Fatal(err)
	}
	if err := signify.Verify(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
}
'''), 'a passphrase of more than 72 bytes', 'Unlocking cuts the passphrase, which generation does not, so that the key cannot be used.')

bug('c29-text', 'C29', 'signify',
    [('signify/key.go', '''	sig, err := priv.sign(message)
''', '''	if bytes.HasSuffix(message, []byte("\\r\\n")) {
		message = append(message[:len(message)-2], '\\n')
	}
	sig, err := priv.sign(message)
''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "", nil)
	for _, s := range []string{"message", "message\\n", "message\\r\\n"} {
		msg := put(t, filepath.Join(dir, "m"), []byte(s))
		if err := signify.Sign(sec, msg, ""); err != nil {
			t.Fatal(err)
		}
		if err := signify.Verify(pub, msg, ""); err != nil {
			t.Fatal(err)
		}
	}
}
'''), 'a message that ends in a carriage return and a newline', 'Signing converts the last line end and verifying does not.')

# ---------------------------------------------------------------- C30

COUNT = '''
// files counts the open files of this process.
func files(t *testing.T) int {
	d, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		t.Skip(err)
	}
	return len(d)
}

// closed fails the test if f leaves files open.
func closed(t *testing.T, what string, f func()) {
	f()
	debug.SetGCPercent(-1) // finalizers close lost files
	defer debug.SetGCPercent(100)
	n := files(t)
	for i := 0; i < 20; i++ {
		f()
	}
	if m := files(t); m > n {
		t.Fatalf("%s leaves files open: %d, then %d", what, n, m)
	}
}
'''

bug('c30-comment', 'C30', 'crypto',
    [('crypto/crypto.go', '''	defer encrypted.Close()
	err = skipComment(encrypted)
	if err != nil {
		return err
	}
''', '''	err = skipComment(encrypted)
	if err != nil {
		return err
	}
	defer encrypted.Close()
''')],
    cry(COUNT + '''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "")
	enc := put(t, filepath.Join(dir, "m.enc"), []byte("untrusted comment: cut"))
	closed(t, "opening", func() {
		if crypto.Open(sec, enc, filepath.Join(dir, "m")) == nil {
			t.Fatal("opened")
		}
	})
}
''', '	"runtime/debug"\n'), 'an encrypted file that ends within its first line', 'Open leaves the file open when it cannot read the comment.')

bug('c30-message', 'C30', 'crypto',
    [('crypto/crypto.go', '''	defer message.Close()

	fi, err := message.Stat()
''', '''	fi, err := message.Stat()
'''), ('crypto/crypto.go', '''	defer encrypted.Close()
	_, err = encrypted.Write(''', '''	defer message.Close()
	defer encrypted.Close()
	_, err = encrypted.Write(''')],
    cry(COUNT + '''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "")
	msg := put(t, filepath.Join(dir, "m"), pattern(100))
	closed(t, "sealing", func() {
		if crypto.Seal(pub, msg, filepath.Join(dir, "no", "such")) == nil {
			t.Fatal("sealed")
		}
	})
}
''', '	"runtime/debug"\n'), 'an output file that cannot be created', 'Seal leaves the message open if the output cannot be created.')

bug('c30-load', 'C30', 'signify',
    [('signify/key.go', '''	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	return readPrivateKeyFile(data)
''', '''	file, err := os.Open(path)
	if err != nil {
		return nil, err
	}

	data, err := ioutil.ReadAll(file)
	if err != nil {
		return nil, err
	}

	priv, err := readPrivateKeyFile(data)
	if err != nil {
		return nil, err
	}

	return priv, file.Close()
'''), ('signify/key.go', '	"math"\n', '	"math"\n	"os"\n')],
    sig(COUNT + '''
func TestDemo(t *testing.T) {
	dir, _, _ := pair(t, "", nil)
	f := put(t, filepath.Join(dir, "x"), []byte("untrusted comment: x\\nAAAA\\n"))
	closed(t, "loading", func() {
		if _, err := signify.LoadPrivateKey(f); err == nil {
			t.Fatal("loaded")
		}
	})
}
''', '	"runtime/debug"\n'), 'a malformed private key file', 'Loading leaves the file open if its content is malformed.')

# ---------------------------------------------------------------- C31

GEN_OLD = '''	err = writeSecretDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
	if err != nil {
		return err
	}

'''

SAME = '''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "", nil)
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := signify.Sign(sec, msg, ""); err != nil {
		t.Fatal(err)
	}
	if signify.GenerateKey(filepath.Join(dir, "k"), nil, nil) == nil {
		t.Fatal("the secret key was overwritten")
	}
	if err := signify.Verify(pub, msg, ""); err != nil {
		t.Fatal("the public key of an existing secret key was lost: ", err)
	}
}
'''

bug('c31-order', 'C31', 'signify',
    [('signify/key.go', GEN_OLD, ''),
     ('signify/key.go', '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	return nil
}''', '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	return writeSecretDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
}''')],
    sig(SAME), 'a secret key file that exists already', 'The public key is replaced first, so that a refused secret key leaves a public key that belongs to nothing.')

bug('c31-both', 'C31', 'signify',
    [('signify/key.go', GEN_OLD, GEN_OLD.split('\n')[0] + '\n'),
     ('signify/key.go', '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	return nil
}''', '''	perr := writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	return perr
}''')],
    sig(SAME), 'a secret key file that exists already', 'Both files are written before the first error is looked at.')

bug('c31-stale', 'C31', 'signify',
    [('signify/key.go', GEN_OLD, '''	err = os.Remove(keyPath + ".pub")
	if err != nil && !os.IsNotExist(err) {
		return err
	}

''' + GEN_OLD), ('signify/key.go', '''	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
	if err != nil {
		return err
	}

	return nil
}''', '''	return writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
}'''), ('signify/key.go', '	"math"\n', '	"math"\n	"os"\n')],
    sig(SAME), 'a secret key file that exists already', 'The old public key is removed before it is known that the secret key can be written.')


# ---------------------------------------------------------------- C32

bug('c32-algo', 'C32', 'signify',
    [('signify/key.go', '''	copy(pub.key[:], data[didx:didx+publicKeyLength])

	return pub, nil
''', '''	copy(pub.key[:], data[didx:didx+publicKeyLength])

	return pub, pub.supported()
'''), ('signify/key.go', '''	copy(pub.keyAlgo[:], data[:keyAlgoLength])
	if string(pub.keyAlgo[:]) != "Ed" {
		return nil, errors.New("signify: unknown key algo " + string(pub.keyAlgo[:]))
	}
''', '''	copy(pub.keyAlgo[:], data[:keyAlgoLength])
'''), ('signify/key.go', '''func readPublicKeyData(''', '''func (pub *Public) supported() error {
	if string(pub.keyAlgo[:]) != "Ed" {
		return errors.New("signify: unknown key algo " + string(pub.keyAlgo[:]))
	}
	return nil
}

func readPublicKeyData(''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "", nil)
	rec := record(t, pub)
	rec[1] = 'x'
	k, err := signify.LoadPublicKey(putRecord(t, filepath.Join(dir, "x"), rec))
	if err == nil {
		t.Fatal("loaded")
	}
	if k != nil {
		t.Fatal("a key of an unknown algorithm is returned with the error")
	}
}
'''), 'a public key record of another algorithm', 'The refused key is returned together with the error.')

bug('c32-empty', 'C32', 'signify',
    [('signify/key.go', '''	return readPrivateKeyFile(data)
}

// Sign signs''', '''	if len(data) == 0 {
		return nil, err
	}
	return readPrivateKeyFile(data)
}

// Sign signs''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, _ := pair(t, "", nil)
	k, err := signify.LoadPrivateKey(put(t, filepath.Join(dir, "x"), nil))
	if k == nil && err == nil {
		t.Fatal("neither a key nor an error")
	}
}
'''), 'an empty key file', 'The error that is returned for an empty file is nil, and so is the key.')

bug('c32-locked', 'C32', 'signify',
    [('signify/key.go', '''		err = priv.decrypt(passphrase)
		if err != nil {
			return nil, err
		}
	}
''', '''		err = priv.decrypt(passphrase)
	}
'''), ('signify/key.go', '''	return &sboxKey, nil
''', '''	return &sboxKey, err
''')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "right", &signify.GenerateOptions{Rounds: 1})
	prompt("wrong")
	priv, err := signify.LoadPrivateKey(sec)
	if err != nil {
		t.Fatal(err)
	}
	k, err := priv.ToBox()
	if err == nil {
		t.Fatal("unlocked")
	}
	if k != nil {
		t.Fatal("a box key is derived from a key that is locked")
	}
}
'''), 'a wrong passphrase', 'A box key derived from the locked key is returned together with the error.')

# ---------------------------------------------------------------- C33

bug('c33-env', 'C33', 'signify',
    [('signify/key.go', '''		passphrase, err := PassphrasePrompt(false)
''', '''		passphrase, err := []byte(os.Getenv("SIGNIFY_PASSPHRASE")), error(nil)
		if len(passphrase) == 0 {
			passphrase, err = PassphrasePrompt(false)
		}
'''), ('signify/key.go', '	"math"\n', '	"math"\n	"os"\n')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "right", &signify.GenerateOptions{Rounds: 1})
	prompt("right")
	os.Setenv("SIGNIFY_PASSPHRASE", "another")
	defer os.Unsetenv("SIGNIFY_PASSPHRASE")
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := signify.Sign(sec, msg, ""); err != nil {
		t.Fatal("the environment decides: ", err)
	}
}
'''), 'an environment variable that is set', 'A variable in the environment replaces the passphrase.')

bug('c33-beside', 'C33', 'signify',
    [('signify/signature.go', '''	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}
''', '''	data, err := ioutil.ReadFile(path)
	if err != nil {
		if data, err = ioutil.ReadFile(path + ".sig"); err != nil {
			return nil, err
		}
	}
''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "", nil)
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if err := signify.Sign(sec, msg, filepath.Join(dir, "x.sig")); err != nil {
		t.Fatal(err)
	}
	if signify.Verify(pub, msg, filepath.Join(dir, "x")) == nil {
		t.Fatal("verified with a signature file that does not exist")
	}
}
'''), 'a signature path that does not exist while another file does', 'Verify falls back on a file that it was not given.')

bug('c33-system', 'C33', 'signify',
    [('signify/key.go', '''	data, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}

	return readPublicKeyFile(data)
''', '''	data, err := ioutil.ReadFile(path)
	if err != nil {
		// as ssh does
		if data, err = ioutil.ReadFile(strings.TrimSuffix(path, ".pub") + ".sec.pub"); err != nil {
			return nil, err
		}
	}

	return readPublicKeyFile(data)
''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "", nil)
	if err := os.Rename(pub, filepath.Join(dir, "k.sec.pub")); err != nil {
		t.Fatal(err)
	}
	if _, err := signify.LoadPublicKey(pub); err == nil {
		t.Fatal("a key was loaded from a file that was not named")
	}
}
'''), 'a public key path that does not exist while another file does', 'Loading falls back on a file that it was not given.')

# ---------------------------------------------------------------- C34

TTY = '''
// terminalWith returns a terminal on which the text has been typed.
func terminalWith(t *testing.T, text string) *os.File {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Skip(err)
	}
	var n, off uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&off))); e != 0 {
		t.Skip(e)
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		t.Skip(e)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		t.Skip(err)
	}
	if _, err = m.WriteString(text); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() {
		s.Close()
		m.Close()
	})
	return s
}
'''

CMDTTY = CMD.replace('"path/filepath"\n', '"path/filepath"\n	"fmt"\n	"syscall"\n	"unsafe"\n') + TTY

bug('c34-prefix', 'C34', 'cmd/psignify',
    [('signify/key.go', '	if !bytes.Equal(passphrase, confirmPassphrase) {', '	if !bytes.HasPrefix(passphrase, confirmPassphrase) {')],
    CMDTTY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	c := exec.Command(os.Args[0], "-G", "-p", filepath.Join(dir, "k"))
	c.Env = append(os.Environ(), "PSIGNIFY_DEMO=1", "HOME="+dir)
	c.Stdin = terminalWith(t, "correct horse\\ncorrect\\n")
	if out, err := c.CombinedOutput(); err == nil {
		t.Fatalf("confirmed by something else: %s", out)
	}
}
''', 'a confirmation that is only the beginning of the passphrase',
    'A mistyped passphrase is taken as confirmed.')

bug('c34-unlocked', 'C34', 'signify',
    [('signify/key.go', '''	err := priv.Check()
	if err != nil {
		var passphrase []byte
		passphrase, err = PassphrasePrompt(false)
''', '''	err := priv.Check()
	if err != nil || priv.IsEncrypted() {
		var passphrase []byte
		passphrase, err = PassphrasePrompt(false)
''')],
    sig('''
func TestDemo(t *testing.T) {
	_, _, sec := pair(t, "right", &signify.GenerateOptions{Rounds: 1})
	asked := 0
	signify.PassphrasePrompt = func(bool) ([]byte, error) {
		asked++
		return []byte("right"), nil
	}
	priv, err := signify.LoadPrivateKey(sec)
	if err != nil {
		t.Fatal(err)
	}
	if _, err = priv.ToBox(); err != nil {
		t.Fatal(err)
	}
	priv.ToBox()
	if asked != 1 {
		t.Fatalf("asked %d times for the passphrase of a key that was unlocked", asked)
	}
}
'''), 'converting a key that has been unlocked before', 'The passphrase is asked for again, and locks the key.')

bug('c34-again', 'C34', 'signify',
    [('signify/key.go', '''		err = priv.decrypt(passphrase)
		if err != nil {
			return err
		}
	}''', '''		err = priv.decrypt(passphrase)
		for i := 0; i < 2 && err != nil; i++ {
			zero(&passphrase)
			passphrase, err = PassphrasePrompt(false)
			if err != nil {
				return err
			}
			err = priv.decrypt(passphrase)
		}
		if err != nil {
			return err
		}
	}''')],
    sig('''
func TestDemo(t *testing.T) {
	dir, _, sec := pair(t, "right", &signify.GenerateOptions{Rounds: 1})
	asked := 0
	signify.PassphrasePrompt = func(bool) ([]byte, error) {
		asked++
		return []byte("wrong"), nil
	}
	msg := put(t, filepath.Join(dir, "m"), []byte("message"))
	if signify.Sign(sec, msg, "") == nil {
		t.Fatal("signed")
	}
	if asked != 1 {
		t.Fatalf("asked %d times", asked)
	}
}
'''), 'a wrong passphrase', 'Signing asks again and again, which a script that answers the prompt does not expect.')

bug('c34-default', 'C34', 'cmd/psignify',
    [('cmd/psignify/main.go', 'signify.PassphrasePrompt(true)', 'signify.PassphrasePrompt(pubKeyFile == keyBase)')],
    CMDTTY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := terminalWith(t, "one\\ntwo\\n")
	c := exec.Command(os.Args[0], "-G", "-p", filepath.Join(dir, "k"))
	c.Env = append(os.Environ(), "PSIGNIFY_DEMO=1", "HOME="+dir)
	c.Stdin = s
	if out, err := c.CombinedOutput(); err == nil {
		t.Fatalf("the passphrase was not confirmed: %s", out)
	}
}
''', 'generating a key pair with a name of its own', 'The passphrase of a new key is asked for only once, so that a mistyped one locks the key for ever.')

# ---------------------------------------------------------------- C35

HEAP = '''
const large = 24 << 20

// grown says by how much the heap has grown while f ran.
func grown(f func()) int64 {
	debug.SetGCPercent(10)
	runtime.GC()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	f()
	runtime.ReadMemStats(&after)
	return int64(after.HeapSys-after.HeapReleased) - int64(before.HeapSys-before.HeapReleased)
}

func big(t *testing.T, path string) string {
	put(t, path, nil)
	if err := os.Truncate(path, large); err != nil {
		t.Fatal(err)
	}
	return path
}
'''
HEAPI = '	"runtime"\n	"runtime/debug"\n'

bug('c35-held', 'C35', 'crypto',
    [('crypto/crypto.go', '''	encoder := base64.NewEncoder(encrypted)
''', '''	sealed := &bytes.Buffer{}
	encoder := base64.NewEncoder(sealed)
'''), ('crypto/crypto.go', '''	err = encoder.Close()
	if err != nil {
		return err
	}
''', '''	err = encoder.Close()
	if err != nil {
		return err
	}

	_, err = sealed.WriteTo(encrypted)
	if err != nil {
		return err
	}
'''), ('crypto/crypto.go', '''import (
''', '''import (
	"bytes"
''')],
    cry(HEAP + '''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "")
	msg := big(t, filepath.Join(dir, "m"))
	n := grown(func() {
		if err := crypto.Seal(pub, msg, ""); err != nil {
			t.Fatal(err)
		}
	})
	if n > large/2 {
		t.Fatalf("sealing took %d bytes", n)
	}
}
''', HEAPI), 'a message that is large compared with the memory', 'Sealing holds the output back until it is complete, so a large file needs memory for all of it.')

bug('c35-whole', 'C35', 'crypto',
    [('crypto/crypto.go', '''		_, err = w.Write(out)
		if err != nil {
			return err
		}

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	return nil
}

// Open recovers''', '''		whole = append(whole, out...)

		err = incrementNonce(&nonce)
		if err != nil {
			return err
		}
	}

	// Nothing is written unless all of it is authentic.
	_, err := w.Write(whole)
	return err
}

// Open recovers'''), ('crypto/crypto.go', '''	chunk := make([]byte, sealedChunkSize)
''', '''	var whole []byte
	chunk := make([]byte, sealedChunkSize)
''')],
    cry(HEAP + '''
func TestDemo(t *testing.T) {
	dir, pub, sec := pair(t, "")
	msg := big(t, filepath.Join(dir, "m"))
	if err := crypto.Seal(pub, msg, ""); err != nil {
		t.Fatal(err)
	}
	n := grown(func() {
		if err := crypto.Open(sec, msg+".enc", filepath.Join(dir, "o")); err != nil {
			t.Fatal(err)
		}
	})
	if n > large/2 {
		t.Fatalf("opening took %d bytes", n)
	}
}
''', HEAPI), 'an encrypted file that is large compared with the memory', 'Opening keeps the whole message in memory.')

bug('c35-slurp', 'C35', 'crypto',
    [('crypto/crypto.go', '''	fi, err := message.Stat()
	if err != nil {
		return err
	}
	messageLen := int(fi.Size())
''', '''	data, err := ioutil.ReadAll(message)
	if err != nil {
		return err
	}
	messageLen := len(data)
'''), ('crypto/crypto.go', '''	err = seal(pub, message, messageLen, encoder)
''', '''	err = seal(pub, bytes.NewReader(data), messageLen, encoder)
'''), ('crypto/crypto.go', '''import (
''', '''import (
	"bytes"
'''), ('crypto/crypto.go', '''	"io"
	"os"
''', '''	"io"
	"io/ioutil"
	"os"
''')],
    cry(HEAP + '''
func TestDemo(t *testing.T) {
	dir, pub, _ := pair(t, "")
	msg := big(t, filepath.Join(dir, "m"))
	n := grown(func() {
		if err := crypto.Seal(pub, msg, ""); err != nil {
			t.Fatal(err)
		}
	})
	if n > large/2 {
		t.Fatalf("sealing took %d bytes", n)
	}
}
''', HEAPI), 'a message that is large compared with the memory', 'Sealing reads the whole message into memory, and fails for one that does not fit.')
