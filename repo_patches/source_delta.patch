From 739d967d80d694c7eec26a282276fff00bc29986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 01/17] fix: reject signature records of the wrong length

A short record made Verify panic; a long one was silently cut.
---
 signify/signature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/signature.go b/signify/signature.go
index 9308cf7..7e3d1db 100644
--- a/signify/signature.go
+++ b/signify/signature.go
@@ -2,6 +2,7 @@ package signify
 
 import (
 	"bytes"
+	"fmt"
 	"io/ioutil"
 
 	"golang.org/x/crypto/ed25519"
@@ -25,6 +26,10 @@ func (sig *Signature) encode() []byte {
 }
 
 func readSignatureData(data []byte) (*Signature, error) {
+	if len(data) != keyAlgoLength+keyNumLength+signatureLength {
+		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
+	}
+
 	sig := &Signature{}
 	copy(sig.pkAlgo[:], data[:2])
 	copy(sig.keyNum[:], data[2:keyNumLength+2])
-- 
2.43.0


From 62639b20f16bedac27674c491b546f745276f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 02/17] fix: reject private key records of the wrong length

A truncated key was padded with zeros and used.
---
 signify/key.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 7e49e25..1e48027 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -27,6 +27,9 @@ const (
 	saltLength      = 16
 	checksumLength  = 8
 	kdfRounds       = 42
+
+	privateKeyDataLength = keyAlgoLength + kdfAlgoLength + 4 + saltLength +
+		checksumLength + keyNumLength + secretKeyLength
 )
 
 // PassphrasePrompt prompts the user for a passphrase. If confirm is true, the
@@ -134,6 +137,10 @@ func (priv *Private) sign(message []byte) (*Signature, error) {
 }
 
 func readPrivateKeyData(data []byte) (*Private, error) {
+	if len(data) != privateKeyDataLength {
+		return nil, fmt.Errorf("signify: invalid private key length %d", len(data))
+	}
+
 	buf := bytes.NewBuffer(data)
 	priv := &Private{}
 
-- 
2.43.0


From 25e86ba8247d6e2167ff0e19335b77ab66a5f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 03/17] fix: verify the checksum of unencrypted private keys
 before use

Sign and ToBox used a plain key whose checksum does not match.
---
 signify/key.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/signify/key.go b/signify/key.go
index 1e48027..809a77d 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -100,7 +100,7 @@ func (priv *Private) Check() error {
 
 func (priv *Private) decrypt(password []byte) error {
 	if !priv.IsEncrypted() {
-		return nil
+		return priv.Check()
 	}
 
 	if string(priv.kdfAlgo[:]) != "BK" {
@@ -224,6 +224,11 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 		if err != nil {
 			return err
 		}
+	} else {
+		err = priv.Check()
+		if err != nil {
+			return err
+		}
 	}
 
 	message, err := ioutil.ReadFile(messagePath)
-- 
2.43.0


From ab7faefb5ec5ad3bbb66b40cf10892aada2ee576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 04/17] fix: keep the encrypted key when decryption fails

A wrong passphrase left garbage in the key, so that the right one could
not unlock it any more.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 809a77d..a286cf3 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -118,6 +118,10 @@ func (priv *Private) decrypt(password []byte) error {
 
 	err = priv.Check()
 	if err != nil {
+		// Restore the encrypted key, so that another passphrase can be tried.
+		for i := range priv.key[:] {
+			priv.key[i] ^= xorkey[i]
+		}
 		return err
 	}
 
-- 
2.43.0


From 3e51c9626d9cbf47d74396a6ce9664048227a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 05/17] fix: create secret key files with mode 0600 and never
 overwrite one

GenerateKey wrote the secret key readable by everyone, and over an
existing key. signify(1) uses O_EXCL and 0600.
---
 signify/common.go | 26 ++++++++++++++++++++++++--
 signify/key.go    |  2 +-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/signify/common.go b/signify/common.go
index eb8cbd2..aa5c451 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"io/ioutil"
+	"os"
 	"strings"
 )
 
@@ -48,7 +49,7 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 	return dat, nil
 }
 
-func writeDataFile(path, comment string, data []byte) error {
+func encodeDataFile(comment string, data []byte) []byte {
 	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
 	base64.StdEncoding.Encode(encoded, data)
 	dataFile := &dataFile{
@@ -56,7 +57,28 @@ func writeDataFile(path, comment string, data []byte) error {
 		data:    encoded,
 	}
 
-	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
+	return dataFile.Encode()
+}
+
+func writeDataFile(path, comment string, data []byte) error {
+	return ioutil.WriteFile(path, encodeDataFile(comment, data), 0644)
+}
+
+// writeSecretDataFile writes a file that only its owner may read. It fails if
+// the file exists, as that might be another key or be readable by others.
+func writeSecretDataFile(path, comment string, data []byte) error {
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(encodeDataFile(comment, data))
+	if err != nil {
+		file.Close()
+		return err
+	}
+
+	return file.Close()
 }
 
 func zero(buf *[]byte) {
diff --git a/signify/key.go b/signify/key.go
index a286cf3..90877f1 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -489,7 +489,7 @@ func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error
 		return err
 	}
 
-	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
+	err = writeSecretDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d9346a4287d6d809a1ae91c579201277a51bf55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 06/17] fix: wipe every passphrase once it has been used

Sign did, but ToBox, a failed confirmation and -G left it in memory.
---
 cmd/psignify/main.go | 3 +++
 signify/key.go       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 600a919..87843d5 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -98,6 +98,9 @@ func main() {
 		}
 
 		err = signify.GenerateKey(pubKeyFile, passphrase, nil)
+		for i := range passphrase {
+			passphrase[i] = 0
+		}
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Failed to generate keypair: %s\n", err)
 			os.Exit(1)
diff --git a/signify/key.go b/signify/key.go
index 90877f1..652e312 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -55,6 +55,7 @@ var PassphrasePrompt = func(confirm bool) ([]byte, error) {
 	fmt.Println()
 
 	if !bytes.Equal(passphrase, confirmPassphrase) {
+		zero(&passphrase)
 		return nil, errors.New("passphrases don't match")
 	}
 
@@ -268,6 +269,7 @@ func (priv *Private) ToBox() (*[32]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer zero(&passphrase)
 
 		err = priv.decrypt(passphrase)
 		if err != nil {
-- 
2.43.0


From ebbe57f3e4fe1b5aa9c10cb06fe188e060aa0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 07/17] fix: refuse a number of KDF rounds that the key format
 cannot hold

It was silently reduced modulo 2^32, down to a single round.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 652e312..020fce9 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"path/filepath"
 	"strings"
 
@@ -446,6 +447,9 @@ func GenerateKeypair(passphrase []byte, opts *GenerateOptions) (*Private, *Publi
 	if len(passphrase) == 0 {
 		priv.kdfRounds = 0
 	} else {
+		if opts.Rounds < 1 || uint64(opts.Rounds) > math.MaxUint32 {
+			return nil, nil, fmt.Errorf("signify: invalid number of rounds %d", opts.Rounds)
+		}
 		priv.kdfRounds = uint32(opts.Rounds)
 	}
 
-- 
2.43.0


From d65570c14c915f82a4bd07d8314bbcc986898b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 08/17] fix: refuse keys of an unknown algorithm when they are
 loaded

Only Verify looked at the algorithm; signing and encryption used any key
as if it were an Ed25519 key.
---
 signify/key.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 020fce9..337ea5a 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -155,6 +155,10 @@ func readPrivateKeyData(data []byte) (*Private, error) {
 		return nil, err
 	}
 
+	if string(priv.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: unknown key algo " + string(priv.keyAlgo[:]))
+	}
+
 	_, err = buf.Read(priv.kdfAlgo[:])
 	if err != nil {
 		return nil, err
@@ -364,6 +368,9 @@ func readPublicKeyData(data []byte) (*Public, error) {
 	pub := &Public{}
 	didx := 0
 	copy(pub.keyAlgo[:], data[:keyAlgoLength])
+	if string(pub.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: unknown key algo " + string(pub.keyAlgo[:]))
+	}
 	didx += keyAlgoLength
 
 	copy(pub.keyNum[:], data[didx:didx+keyNumLength])
-- 
2.43.0


From 4adaaf676b82ec031967c23315dbcfa87d0fd933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 09/17] fix: exit with an error status when the command line is
 invalid

The usage function exited with status 0, so that an invalid option made
a verification look successful. The flag package exits with 2 for an
invalid command line and with 0 for -h.
---
 cmd/psignify/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 87843d5..4564f91 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -25,7 +25,6 @@ Usage: %s -S -s seckey -m message [-x sigfile]
 func init() {
 	flag.Usage = func() {
 		usage(os.Stdout)
-		os.Exit(0)
 	}
 }
 
-- 
2.43.0


From 2a34a5d57232bc999993803745a6d3d313041654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 10/17] fix: generate the default keypair where the other modes
 look for it

-G without -p wrote user.pub.sec and user.pub.pub.
---
 cmd/psignify/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 4564f91..1fc42e4 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -76,7 +76,10 @@ func main() {
 	}
 
 	if pubKeyFile == "" && keyBase != "" {
-		pubKeyFile = keyBase + ".pub"
+		pubKeyFile = keyBase
+		if !generate {
+			pubKeyFile += ".pub"
+		}
 	}
 
 	if generate {
-- 
2.43.0


From 51e35a40138f9f48284610196af01e0338b5fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 11/17] fix: write a valid file when sealing an empty message

It could not be opened, as it lacked the header.
---
 crypto/crypto.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index d476fc0..a2dd0ab 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -51,10 +51,6 @@ func incrementNonce(nonce *[24]byte) error {
 }
 
 func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
-	if messageLen == 0 {
-		return nil
-	}
-
 	var shared [32]byte
 	edpub, err := pub.ToBox()
 	if err != nil {
-- 
2.43.0


From d16e7350b703dd9dd7705f3a868539b851d56863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 12/17] fix: seal the whole message or fail

A short read, or a message longer than its stat size (a pipe, a growing
file), lost data without an error.
---
 crypto/crypto.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index a2dd0ab..8d54131 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -93,7 +93,10 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 	chunk := make([]byte, chunkSize)
 	nonce := [24]byte{}
 	for i := 0; i < chunks; i++ {
-		n, err := message.Read(chunk)
+		n, err := io.ReadFull(message, chunk)
+		if err == io.ErrUnexpectedEOF && i == chunks-1 {
+			err = nil // The last chunk may be short.
+		}
 		if err != nil {
 			return err
 		}
@@ -110,6 +113,13 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 		}
 	}
 
+	_, err = io.ReadFull(message, chunk[:1])
+	if err == nil {
+		return errors.New("signify/crypto: the message is longer than its stated size")
+	} else if err != io.EOF {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From f15f05f054458bc450621fcd0e3b7cb9bcb8d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 13/17] fix: report errors of the final flush and close of
 output files

Seal reported success although the end of its output was not written.
---
 crypto/crypto.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 8d54131..23e9b5f 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -157,9 +157,17 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	}
 
 	encoder := base64.NewEncoder(encrypted)
-	defer encoder.Close()
+	err = seal(pub, message, messageLen, encoder)
+	if err != nil {
+		return err
+	}
 
-	return seal(pub, message, messageLen, encoder)
+	err = encoder.Close()
+	if err != nil {
+		return err
+	}
+
+	return encrypted.Close()
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
@@ -238,5 +246,10 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 	}
 	defer message.Close()
 
-	return open(priv, decoder, message)
+	err = open(priv, decoder, message)
+	if err != nil {
+		return err
+	}
+
+	return message.Close()
 }
-- 
2.43.0


From 2275df95118af7d34a1b91980c161412f9ca3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 14/17] fix: do not touch the output file before the header is
 authenticated

Opening with the wrong key or passphrase, or a forged file, emptied an
existing output file.
---
 crypto/crypto.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 23e9b5f..cf065e6 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -171,17 +171,28 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
-	edpriv, err := priv.ToBox()
+	chunks, shared, err := openHeader(priv, message)
 	if err != nil {
 		return err
 	}
 
+	return openChunks(chunks, shared, message, w)
+}
+
+// openHeader authenticates the header, and returns the number of chunks and
+// the key that they are sealed with.
+func openHeader(priv *signify.Private, message io.Reader) (uint64, *[32]byte, error) {
+	edpriv, err := priv.ToBox()
+	if err != nil {
+		return 0, nil, err
+	}
+
 	header := [headerSize]byte{}
 	n, err := message.Read(header[:])
 	if err != nil {
-		return err
+		return 0, nil, err
 	} else if n != headerSize {
-		return fmt.Errorf("signify/crypto: couldn't read the full header (read %d)", n)
+		return 0, nil, fmt.Errorf("signify/crypto: couldn't read the full header (read %d)", n)
 	}
 
 	chunks := binary.BigEndian.Uint64(header[:8])
@@ -191,9 +202,14 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 	shared := [32]byte{}
 	box.Precompute(&shared, &epub, edpriv)
 	if !auth.Verify(header[40:], header[:40], &shared) {
-		return errors.New("signify/crypto: failed to authenticate the message header")
+		return 0, nil, errors.New("signify/crypto: failed to authenticate the message header")
 	}
 
+	return chunks, &shared, nil
+}
+
+func openChunks(chunks uint64, shared *[32]byte, message io.Reader, w io.Writer) error {
+
 	chunk := make([]byte, sealedChunkSize)
 	nonce := [24]byte{}
 	for i := uint64(0); i < chunks; i++ {
@@ -202,7 +218,7 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 			return err
 		}
 
-		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, &shared)
+		out, ok := box.OpenAfterPrecomputation(nil, chunk[:n], &nonce, shared)
 		if !ok {
 			return fmt.Errorf("signify/crypto: failed to decrypt chunk=%d", i)
 		}
@@ -239,6 +255,10 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 	}
 
 	decoder := base64.NewDecoder(encrypted)
+	chunks, shared, err := openHeader(priv, decoder)
+	if err != nil {
+		return err
+	}
 
 	message, err := os.Create(messagePath)
 	if err != nil {
@@ -246,7 +266,7 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 	}
 	defer message.Close()
 
-	err = open(priv, decoder, message)
+	err = openChunks(chunks, shared, decoder, message)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 66db1174fbf48d439b16ac45a2cdb5b125b0ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 15/17] fix: count every byte that the base64 encoder has taken

Write returned a short count without an error, which breaks io.Writer.
---
 base64/coding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base64/coding.go b/base64/coding.go
index a309128..1d6f4a1 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -69,8 +69,8 @@ func (w *Encoder) Write(p []byte) (int, error) {
 				}
 				w.line = 0
 			}
-			written += 3
 		}
+		written++
 	}
 
 	return written, nil
-- 
2.43.0


From 02bcaac14c10f525c53269bb5d709224bfe0155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 16/17] fix: make the base64 decoder a correct io.Reader

It never reported io.EOF, panicked when the length of the destination was
not a multiple of three, and lost data of sources that return it in other
ways than one byte without an error.
---
 base64/coding.go | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/base64/coding.go b/base64/coding.go
index 1d6f4a1..40e266b 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -84,7 +84,7 @@ type Decoder struct {
 // NewDecoder returns a new Decoder over a Reader.
 func NewDecoder(r io.Reader) io.ReadCloser {
 	return &Decoder{
-		r: r,
+		r: base64.NewDecoder(base64.StdEncoding, r),
 	}
 }
 
@@ -92,32 +92,12 @@ func (r *Decoder) Close() error {
 	return nil
 }
 
+// Read fills p, unless the input ends or fails before that. An error that
+// follows some data is returned by the next call.
 func (r *Decoder) Read(p []byte) (int, error) {
-	enclen := base64.StdEncoding.EncodedLen(len(p))
-	buf := make([]byte, 0, enclen)
-	c := make([]byte, 1)
-	n := 0
-
-	for {
-		if n == enclen {
-			break
-		}
-
-		_, err := r.r.Read(c)
-		if err != nil {
-			if err == io.EOF {
-				break
-			}
-			return 0, err
-		}
-
-		if c[0] == 0xa {
-			continue
-		}
-
-		buf = append(buf, c[0])
-		n++
+	n, err := io.ReadFull(r.r, p)
+	if n > 0 {
+		return n, nil
 	}
-
-	return base64.StdEncoding.Decode(p, buf)
+	return n, err
 }
-- 
2.43.0


From c00a839aeb5f38e69257fe7ff5c2fda1bc2c1475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 17/17] fix: wipe the passphrase when its confirmation cannot
 be read

---
 signify/key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signify/key.go b/signify/key.go
index 337ea5a..8739df8 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -50,6 +50,7 @@ var PassphrasePrompt = func(confirm bool) ([]byte, error) {
 	fmt.Printf("Confirm password: ")
 	confirmPassphrase, err := terminal.ReadPassword(0)
 	if err != nil {
+		zero(&passphrase)
 		return nil, err
 	}
 	defer zero(&confirmPassphrase)
-- 
2.43.0

