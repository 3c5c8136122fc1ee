#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept as one place to edit).
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),
      why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
        **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
KEY="signify/key.go"; SIG="signify/signature.go"; COM="signify/common.go"; CRY="crypto/crypto.go"; B64="base64/coding.go"; CMD="cmd/psignify/main.go"; FE="signify/internal/edwards25519/edwards25519.go"; CONST="signify/internal/edwards25519/const.go"

p("C01","Only a genuine signature verifies",
 "Verifying reports success only if the record in the signature file is a valid Ed25519 signature, under the key in the public key file, of the complete contents of the message file. It also requires that both files carry the Ed25519 algorithm tag and that their key numbers are equal in all eight bytes. There is no input for which success is reported without the Ed25519 check having accepted exactly these bytes.",
 ["inputs"],"every content of the public key, message and signature files, every path argument including the defaulted signature path",
 "The tests verify two genuine signatures; none shows a forged, truncated or mismatched one being refused, and no finite set of samples excludes an accepting path.",
 [KEY,SIG,COM],[("Verify, Public.verify, Public.verifyEd25519",KEY),("readSignatureData, readPublicKeyData",SIG)],["signify.Verify","psignify -V"])
p("C02","A signature file binds the whole message to the signing key",
 "When signing succeeds, the signature file holds one untrusted comment line and then the standard base64 of the Ed25519 tag, the signing key's own key number and the Ed25519 signature, made with that private key, of the complete contents of the message file. When it fails for any reason other than a failure to write that file, no signature file has been written.",
 ["inputs"],"every private key file (plain or protected), message, passphrase and path argument",
 "TestSign signs one short text with one key and only checks that it verifies afterwards.",
 [KEY,SIG,COM],[("Sign, Private.sign, Signature.encode",KEY),("writeDataFile, dataFile.Encode",COM)],["signify.Sign","psignify -S"])
p("C03","Malformed input never crashes the program",
 "No content of a key, signature, message or encrypted file, no passphrase and no destination or source buffer size makes a library function or the command panic; malformed input is answered with an error.",
 ["inputs"],"all byte strings as file contents, all passphrases, all buffer lengths and reader behaviours of the streaming codec",
 "The tests feed well formed files only; a panic needs a particular length that no test samples.",
 [KEY,SIG,COM,CRY,B64],[("length checks before slicing",SIG),("length checks before slicing",KEY),("header length check",CRY)],["signify.Verify","signify.Sign","signify.LoadPublicKey","signify.LoadPrivateKey","crypto.Seal","crypto.Open","base64.Encoder","base64.Decoder"])
p("C04","Records of the wrong size or algorithm are refused",
 "A public key, private key or signature record is accepted only if its base64 decodes to exactly 42, 104 or 74 bytes respectively, so that neither a truncated nor an extended record is used. A public or private key whose algorithm tag is not Ed25519, and a protected key whose KDF tag is not the bcrypt one, is refused by every operation that would use it.",
 ["inputs"],"all byte strings as record contents",
 "The tests load four genuine records; the sizes and tags that must be refused are never tried.",
 [KEY,SIG,COM],[("readPublicKeyData, readPrivateKeyData",KEY),("readSignatureData",SIG),("Private.decrypt KDF check",KEY)],["signify.LoadPublicKey","signify.LoadPrivateKey","signify.Verify","signify.Sign"])
p("C05","Key and signature records have signify's layout, written and read alike",
 "Key and signature files consist of an untrusted comment line and one line of standard base64 of the record. The fields of the record lie at signify's offsets (tag, KDF tag, big-endian rounds, salt, checksum, key number, key; tag, key number, key or signature), and reading uses the same offsets as writing, so that every record written is read back with every field unchanged.",
 ["inputs"],"every key pair, salt, key number, rounds value and signature",
 "Tests read four existing files; a key written by GenerateKey is never read back, and a swapped pair of fields is invisible when writer and reader agree on the wrong order.",
 [KEY,SIG,COM],[("Private.encode, Public.encode, Signature.encode",KEY),("readPrivateKeyData, readPublicKeyData, readSignatureData",KEY),("dataFile.Encode, readDataFileBytes",COM)],["signify.GenerateKey","signify.LoadPrivateKey","signify.LoadPublicKey","signify.Sign","signify.Verify"])
p("C06","No private key is used before its checksum has been verified",
 "A signature is made, or a box key derived, only from private key bytes of which the SHA-512 checksum stored in the same record has been compared and found equal, in all eight bytes, after decryption. This holds for protected and for unprotected keys.",
 ["inputs"],"every private key record and passphrase",
 "The tests use intact keys with the right passphrase.",
 [KEY],[("Private.Check",KEY),("Private.decrypt",KEY),("Sign, Private.ToBox",KEY)],["signify.Sign","signify.Private.ToBox","crypto.Open"])
p("C07","A failed unlock leaves the key as it was",
 "When unlocking a protected key fails, whatever the reason, the key object still holds the encrypted key it was loaded with, so that a later attempt with the right passphrase succeeds. Verifying, checking and converting never change the key object in any other way.",
 ["inputs","histories"],"every sequence of unlock attempts with every passphrase on every key",
 "The tests never supply a wrong passphrase.",
 [KEY],[("Private.decrypt",KEY)],["signify.Private.ToBox","signify.Private.Check"])
p("C08","A passphrase really protects the generated secret key",
 "If a key pair is generated with a non-empty passphrase, the stored key bytes are the secret key XORed, over all 64 bytes, with the bcrypt-PBKDF output for that passphrase, the stored salt and the stored number of rounds, and the plain key is stored nowhere. The stored number of rounds is the requested one (42 by default), never reduced; zero rounds are stored only for an empty passphrase. The stored checksum is the first eight bytes of the SHA-512 of the plain key, and the stored public key and key numbers belong to it.",
 ["inputs"],"every passphrase and option value",
 "The tests only generate unprotected keys.",
 [KEY],[("GenerateKeypair",KEY),("GenerateKey",KEY)],["signify.GenerateKeypair","signify.GenerateKey","psignify -G"])
p("C09","Secret key files are private and never overwrite one",
 "A secret key is only ever written to a newly created file whose mode gives no permission to group or others. If the file already exists, generating fails and leaves it unchanged.",
 ["inputs","configurations"],"every key path, every prior state of the file system",
 "No test writes a key file.",
 [KEY,COM],[("GenerateKey",KEY),("writeSecretDataFile",COM)],["signify.GenerateKey","psignify -G"])
p("C10","Passphrases are wiped after use",
 "Every passphrase that an operation obtains by prompting is overwritten with zeros before that operation returns, on success and on every failure after the prompt. The built-in prompt wipes both entries when they do not match or the second cannot be read.",
 ["inputs"],"every outcome of every operation that prompts",
 "Tests do not look at the passphrase after use and take only the success path.",
 [KEY,COM,CMD],[("deferred zero",KEY),("zero",COM)],["signify.Sign","signify.Private.ToBox","psignify -G"])
p("C11","Secrets do not reach output, messages or other files",
 "No byte derived from a passphrase, a private key, a key-encryption key, a box private key or a shared box key is printed, put in an error, or written to a file, other than through signing, sealing or encryption and in the secret key file itself. The plaintext of a message being sealed reaches the output file only inside authenticated boxes.",
 ["inputs"],"every path through every operation",
 "Tests do not examine output or error texts at all.",
 [KEY,COM,CRY,CMD],[("Private.encode is written only by GenerateKey",KEY),("seal",CRY)],["stdout and stderr","error values","files written"])
p("C12","All randomness comes from the system's secure source",
 "The key pair, the salt, the key number and the ephemeral key of each sealed message are drawn in full from the operating system's cryptographic random source, independently for each use. If that source fails, the operation fails and nothing generated from it is used.",
 ["inputs","fault_sequences"],"every generation, with every failure of the random source",
 "A test cannot tell a predictable generator, or a key number that is partly constant, from a random one by looking at a few outputs.",
 [KEY,CRY],[("ed25519.GenerateKey(rand.Reader), rand.Read",KEY),("box.GenerateKey(rand.Reader)",CRY)],["signify.GenerateKeypair","crypto.Seal"])
p("C13","Each operation writes only its documented output",
 "Verifying and loading keys modify nothing; signing creates or modifies only the signature file, generating only the two key files, sealing only the encrypted file, opening only the message file, under the documented default names where a name is not given. No operation deletes, renames or changes the mode of a file, runs a program or opens a network connection.",
 ["inputs"],"every call with every path argument",
 "Tests look only at the file they expect.",
 [KEY,COM,CRY,CMD],[("os.Create, WriteFile call sites",COM),("Seal, Open",CRY)],["file system effects"])
p("C14","Sealing uses a fresh key per message and never repeats a nonce",
 "Each sealed message is encrypted under a shared key computed from the recipient's public key and a newly generated ephemeral key pair, whose public half is stored in the header and whose private half is used for nothing else. Under one shared key no two chunks are sealed with the same nonce, for any number of chunks; exhausting the nonces is an error.",
 ["inputs"],"every message length up to the nonce limit, every number of messages",
 "The largest test message has 26 chunks, so a counter that repeats later, or a key that is reused between messages, goes unnoticed.",
 [CRY],[("seal",CRY),("incrementNonce",CRY)],["crypto.Seal"])
p("C15","Opening releases only authenticated data, complete and in order",
 "Opening creates or changes the output file only after the header's authenticator has been verified, and writes to it only bytes that the authenticated decryption has accepted, under the header's shared key and the nonce of that position. Success is reported only if exactly the number of chunks stated in the authenticated header have been opened and written, whole and in order and with nothing else, to a new or emptied file, so that a sealed file that was cut short is never opened successfully.",
 ["inputs"],"every content of the encrypted file, including truncated, reordered and forged ones",
 "The tests open intact files only.",
 [CRY],[("openHeader, openChunks",CRY),("auth.Verify, box.OpenAfterPrecomputation",CRY)],["crypto.Open","psignify -D"])
p("C16","Sealing covers the whole message or fails",
 "When sealing succeeds, every byte of the message up to its end has been sealed, in order and exactly once, each chunk but the last being full, and the chunk count in the header is the number of chunks written. This holds for empty messages, for short reads, and for files whose length differs from the size reported for them.",
 ["inputs","fault_sequences"],"every message length, every way of a reader to return data, every size change",
 "Tests seal one file of one length from readers that return full buffers.",
 [CRY],[("seal",CRY),("Seal",CRY)],["crypto.Seal","psignify -E"])
p("C17","Success means that the whole output was written",
 "An operation that writes a file reports success only if every write, flush and close of that file, and every read of its inputs, succeeded; no I/O error is dropped.",
 ["fault_sequences"],"an I/O failure at any single point or several points of any operation",
 "The tests run on a file system that never fails.",
 [KEY,COM,CRY],[("error propagation in Seal, Open, Sign, GenerateKey",CRY)],["signify.Sign","signify.GenerateKey","crypto.Seal","crypto.Open"])
p("C18","The command's exit status tells the truth",
 "The command exits with status 0 only if the requested operation was performed and succeeded, or help was asked for; a failed operation, a missing mode or argument and an invalid command line exit with a non-zero status. It prints OK only after success.",
 ["inputs"],"every command line and every outcome of the operation",
 "The command has no tests.",
 [CMD],[("main",CMD),("flag.Usage",CMD)],["exit status of psignify","stdout of psignify"])
p("C19","The command applies each option to the file it names",
 "Each mode performs exactly its own operation, with the public key, secret key, message, signature and encrypted files taken from the options -p, -s, -m, -x and -c respectively. Without -p or -s the key is the user's default one, and -G without -p generates the pair that the other modes use by default; a passphrase is asked for, and used, unless -n is given.",
 ["inputs"],"every combination of options",
 "The command has no tests.",
 [CMD],[("main, defaultKeyBase",CMD)],["psignify -S -V -G -E -D"])
p("C20","The base64 writer loses and adds nothing",
 "For every sequence of writes of any sizes, the encoder passes on the standard base64 of the concatenated bytes, in order, broken by newlines after every 72 characters, once it has been closed; bytes that do not fill a group are kept until the next write or the close. A write reports the number of bytes it has taken and never fewer than given without an error, and an error of the underlying writer is reported. Closing the encoder again adds no data.",
 ["inputs","histories"],"every sequence of writes and sizes, every failure of the underlying writer",
 "The test makes one write of 72 bytes, which never leaves a partial group.",
 [B64],[("Encoder.Write, Encoder.Close",B64)],["base64.NewEncoder"],[("pending bytes","the 0 to 2 bytes of an incomplete group","base64.Encoder"),("line position","bytes encoded on the current line","base64.Encoder")])
p("C21","The base64 reader is a faithful stream",
 "For every way in which the source splits its data and every destination size, the decoder returns exactly the bytes of the standard base64 text with newlines ignored, never more than fit. A read into a buffer that is not empty returns data or an error. It reports the end of the input as such, and reports malformed text and errors of the source as errors instead of as data or as an end.",
 ["inputs","fault_sequences"],"every source, split and destination size",
 "The test makes one read of 72 bytes from a buffer.",
 [B64],[("NewDecoder, Decoder.Read",B64)],["base64.NewDecoder"])
p("C22","Independent operations may run concurrently",
 "Operations on different keys and files may run in any number of goroutines without interfering: apart from the replaceable prompt, which they only read, they share no state that is modified after initialisation. Reading operations do not modify a key, so that one public key or unlocked private key may be used by several goroutines at once.",
 ["schedules"],"every interleaving of calls",
 "No test runs two operations at once, and no finite number of runs covers the interleavings.",
 [KEY,COM,CRY,B64,FE,CONST],[("package-level variables are never assigned",KEY),("pub.ToBox copies the key",KEY)],["all exported functions"])
p("C23","Signing keys are converted to box keys by the birational map",
 "The box public key of a public key is the Montgomery coordinate (1+y)/(1-y) of its Edwards point, and a public key that is not the encoding of a curve point is refused. The box private key is the clamped first half of the SHA-512 of the private key's seed, so that the two conversions of a key pair belong together.",
 ["inputs"],"every key pair",
 "The tests convert a few random pairs per run.",
 [KEY,FE],[("Public.ToBox, Private.ToBox",KEY),("ExtendedGroupElement.FromBytes",FE)],["signify.Public.ToBox","signify.Private.ToBox"])
p("C24","The field arithmetic is exact for every element",
 "For all operands within the documented bounds, each operation of the field used for key conversion computes the exact result modulo 2^255-19, without overflow of any intermediate value, and leaves its result within the bounds that the next operation needs. The curve constants satisfy their defining equations.",
 ["inputs"],"every field element within the documented bounds",
 "Carry and overflow errors show up for a vanishing fraction of random operands.",
 [FE,CONST],[("FeMul, FeSquare, FeCombine, FeInvert, fePow22523",FE),("d, d2, SqrtM1",CONST)],["signify.Public.ToBox"])
p("C25","Sealing and opening agree on the format",
 "The header (chunk count, ephemeral public key, authenticator over both), the chunk size, the box overhead, the nonce sequence, the key agreement, the base64 layer and the comment line are used alike by sealing and by opening. So a sealed file is parsed by opening into exactly the fields and chunks that were written.",
 ["inputs"],"every message and key pair",
 "One message size is tested; an off-by-one in chunking shows for particular lengths only.",
 [CRY,B64],[("seal, Seal",CRY),("openHeader, openChunks, Open",CRY)],["crypto.Seal","crypto.Open"])
p("C26","Well-formed input is never refused",
 "Verifying, signing, loading, sealing and opening fail only because of an I/O error, a failure of the random source or prompt, a record of the wrong size or algorithm, malformed base64, a mismatch of the key number, checksum, signature or authenticator, a point that is not on the curve, or exhausted nonces. In particular no size, content or length of a message by itself makes them fail.",
 ["inputs"],"every well-formed key, message, signature and sealed file",
 "The tests use four messages of three sizes.",
 [KEY,SIG,COM,CRY],[("error returns of Verify, Sign, Load*",KEY),("error returns of Seal, Open",CRY)],["signify.Verify","signify.Sign","signify.LoadPublicKey","signify.LoadPrivateKey","crypto.Seal","crypto.Open"])
p("C27","A sealed message opens to the identical message",
 "For every message and key pair, opening with the secret key what sealing to the public key has produced succeeds and yields the message bit for bit, whenever the files can be read and written and the passphrase, if there is one, is right.",
 ["inputs"],"every message and key pair",
 "One message and one fixed key pair are tried, and one random pair in memory; the lengths, chunk counts and keys at which the parts meet otherwise are not.",
 [CRY,KEY,B64],[("Seal, Open",CRY)],["crypto.Seal","crypto.Open"])
p("C28","Every operation comes to an end",
 "Generating, loading, signing, verifying, sealing, opening, and reading and writing base64 streams all come to an end, with success or an error, for every content and length of their inputs, however reads split them and whichever call fails: each repetition consumes some of a finite input or approaches a fixed bound. A malformed, truncated or hostile file never makes them hang, a refused passphrase is not asked for again without end, and no lock is kept after they return.",
 ["inputs","fault_sequences"],"every input, split and failure",
 "A loop that never ends for one particular input or failure passes every test that does not contain it.",
 [KEY,COM,CRY,B64,FE],[("skipComment, incrementNonce, seal, openChunks",CRY),("readDataFileBytes",COM),("Encoder.Write, Decoder.Read",B64)],["signify.Sign","signify.Verify","signify.GenerateKey","crypto.Seal","crypto.Open","base64.NewEncoder","base64.NewDecoder"])
p("C29","What signing produces, verifying accepts",
 "For every generated key pair, with or without a passphrase, and every message, verifying with the public key accepts the signature that signing with the secret key has produced, whenever the files can be read and written and the passphrase entered is the one given at generation, byte for byte. (The name of the key file, which the comment quotes, contains no line break.)",
 ["inputs"],"every key pair, passphrase and message",
 "The tests sign one message with one fixed key; keys, key numbers, passphrases and lengths at which the parts disagree are not among them.",
 [KEY,SIG,COM],[("Sign, Verify, GenerateKeypair, decrypt, PassphrasePrompt",KEY),("readDataFileBytes, encodeDataFile",COM)],["signify.Sign","signify.Verify","signify.GenerateKey"])
p("C30","No operation leaves a file open",
 "Each operation of the library closes every file that it has opened before it returns, with success or with an error, whichever call fails, and starts nothing that runs on after it has returned. A program may therefore perform any number of operations.",
 ["inputs","fault_sequences"],"every path through every operation, with every call that can fail failing",
 "A leaked file descriptor does not fail a test, and the paths on which calls fail are not run.",
 [KEY,COM,CRY],[("Seal, Open",CRY),("writeSecretDataFile",COM)],["signify.Sign","signify.Verify","signify.GenerateKey","signify.LoadPublicKey","signify.LoadPrivateKey","crypto.Seal","crypto.Open"])
p("C31","A public key is never replaced before its secret key is stored",
 "Generating a key pair creates, replaces or removes the public key file only after the secret key file has been written completely and closed without an error. A failure or interruption at any earlier point leaves an existing public key as it was, and no public key is ever published whose secret key was lost.",
 ["inputs","fault_sequences","crash_points"],"every failure of a call and every point of interruption",
 "The tests generate keys in memory only, and no test fails a call.",
 [KEY,COM],[("GenerateKey",KEY),("writeSecretDataFile",COM)],["signify.GenerateKey"])
p("C32","A call yields a result or an error, never both and never neither",
 "Each call of the library that loads, generates or converts a key, or asks for a passphrase, returns either a result or an error. A refused or half-read key never reaches a caller that looks at the result first, success never comes with a missing key, and a key that is returned is the caller's own memory, not shared with another key or call.",
 ["inputs","fault_sequences"],"every input and every failure",
 "The tests look at results of calls that succeed.",
 [KEY],[("LoadPublicKey, LoadPrivateKey, GenerateKeypair, ToBox, PassphrasePrompt",KEY)],["signify.LoadPublicKey","signify.LoadPrivateKey","signify.GenerateKeypair","signify.Private.ToBox","signify.Public.ToBox"])
p("C33","Only the documented inputs influence an operation",
 "Whether an operation succeeds, and what it produces, depends only on its arguments, the passphrase, the random source and its documented input files: verifying reads the public key, the message and the signature; signing and opening the secret key and the message or encrypted file; sealing the public key and the message; loading the key file; generating none. No environment variable, clock, process state, other file or input outside the prompt has an influence (the command may look up the user for the default key), and the library asks for a passphrase only to unlock a secret key.",
 ["inputs","configurations"],"every environment, file system and argument",
 "Tests run in one environment, where a fallback path or a variable that is not set has no effect.",
 [KEY,SIG,COM,CRY,CMD],[("Verify, Sign, Load*, GenerateKey",KEY),("Seal, Open",CRY),("main, defaultKeyBase",CMD)],["signify.Verify","signify.Sign","signify.LoadPublicKey","signify.LoadPrivateKey","signify.GenerateKey","crypto.Seal","crypto.Open","psignify"])
p("C34","A passphrase is asked for exactly when one is needed",
 "Signing, and converting a secret key for opening, ask for a passphrase only if the stored key is protected or does not pass its checksum as it is, exactly once and without confirmation, and only after the key has been read; an unprotected or already unlocked key that is intact is used without asking. No other operation of the library asks, and all ask through PassphrasePrompt. The command asks once, with confirmation, only for -G without -n. The built-in prompt takes one entry, or, if it is to be confirmed, succeeds only if the same bytes have been entered twice.",
 ["inputs","histories"],"every key, entry and command line",
 "The tests replace the prompt by one that always gives the right answer, so nobody notices how often or when it is asked.",
 [KEY,CMD],[("PassphrasePrompt, Sign, Private.ToBox",KEY),("main",CMD)],["signify.Sign","signify.Private.ToBox","signify.PassphrasePrompt","psignify -G"])
p("C35","Sealing and opening need little memory",
 "Seal and Open process the file piece by piece: however large the message or the encrypted file (and whatever an encrypted file claims about its length) each buffer or list that they hold in memory stays below a fixed size (1 MiB, where the chunks that they work on have 16 KiB). The encoder and the decoder of package base64 keep no more than a bounded amount of data between calls, however much passes through them.",
 ["inputs","histories"],"every message and encrypted file",
 "The tests seal and open a short message.",
 [CRY,B64],[("Seal, Open, seal, open",CRY),("Encoder, Decoder",B64)],["crypto.Seal","crypto.Open","base64.NewEncoder","base64.NewDecoder"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import sys
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
except ImportError: pass
