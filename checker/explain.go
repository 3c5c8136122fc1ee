package main

// explain says, for the evidence, which rule decided each property.
var explain = map[string]string{
	"C01": "Provenance of every path through Verify that reports success: the path must pass an accepting Ed25519 verification whose key, message and signature arguments are the bytes at the layout's offsets of the decoded second lines of the two files and all that was read of the message file; the same path must have compared both tags, both record lengths and all eight bytes of the key numbers.",
	"C02": "Provenance of what Sign writes on every successful path, field by field (tag, key number of the signing key, Ed25519 signature over all of the message), and of the file it is written to; no file event on failing paths except a failed write of that file.",
	"C03": "Every instruction that can panic (index, slice bounds, nil dereference, conversion, division, negative make length, library preconditions) that is reachable from an entry point is an obligation, discharged from the linear facts and intervals of its path, in all calling contexts; no path may end in a panic. The streaming codec is analysed for every history of calls (most general client, to a fixpoint).",
	"C04": "On every path of every operation that uses a record, the facts of the path must decide the decoded length and the tags of the record before its first use in a primitive or a successful return.",
	"C05": "Byte provenance of records: each field written must lie at the layout's offset with the layout's width and byte order, and each field read must be the bytes at the same offset of the decoded record; the file is a comment line, a newline and one standard base64 line.",
	"C06": "Typestate along each path: a private key reaches the Ed25519 signer or the box key conversion only on paths whose facts include the equality of all eight bytes of its SHA-512 with the checksum of the same record, for exactly the bytes used.",
	"C07": "Frame condition: on each failing path of each method of a key, every field of the key object must be the value it had at entry, and on succeeding paths only the key bytes and protection of the private key may change.",
	"C08": "Provenance of the stored key on each path of key generation: plain key XOR the bcrypt-PBKDF output over 64 bytes for the given passphrase, the salt stored and the rounds stored; with rounds as requested; the plain key bytes occur in no other part of either file when there is a passphrase.",
	"C09": "Effect rule: every creation of the secret key file must have O_CREATE, O_EXCL and a mode without permissions for others, and no other event on the path may touch that path.",
	"C10": "Every byte buffer that a prompt has returned must hold only zeros at every exit of the operation that prompted, and no part of the passphrase may have been left in another buffer that the operation allocated.",
	"C11": "Information flow: secret sources (passphrases, private keys, key-encryption keys, box private and shared keys, plaintext being sealed) may reach a sink (print, error, file) only through the primitives that are meant to release a derived value, or the record of the secret key file.",
	"C12": "Provenance of each random value (key pair, salt, key number, ephemeral key): all its bytes come from distinct reads of crypto/rand.Reader in full; a failing read must end the operation with an error and without a later event; no other generator is called.",
	"C13": "Effect rule over all file system, process and network events on all paths: only the documented output, under the documented default name, may be created or modified; calls of anything that is not known to be harmless are reported.",
	"C14": "Per path and loop iteration of Seal: the key agreement uses the recipient's key and a key generated on this path, whose public half is in the header; its private half occurs in no other event; the nonce of the next chunk is the increment of the last, shown by evaluating the increment on every carry pattern of abstract nonces, with an error on wrap-around.",
	"C15": "Typestate of Open: no event on the output before the header's authenticator was accepted; each write's data is the output of the authenticated decryption under the header's shared key and the nonce of that position (inductive over the loop); success only when the facts imply that as many chunks as the header states were opened and written whole.",
	"C16": "Induction over the sealing loop: each iteration seals exactly what it read, in order; it may end successfully only at the end of the input; each chunk but the last is full; the facts of each success imply that the header's count equals the number of chunks sealed.",
	"C17": "Every I/O event that failed on a path must be reported by the operation's error; each file written must have been closed, with its buffers flushed, and the result of that checked before success.",
	"C18": "All paths through main: those that exit with status 0 performed an operation which succeeded (or printed the requested usage); those whose operation failed exit with another status after a message; success of verification is printed if and only if verified.",
	"C19": "All paths through main with arbitrary option values: the operation performed is that of the mode option and each of its arguments is the value of the option documented for it or the default key's path; the passphrase is that of the prompt unless -n was given.",
	"C20": "Most general client of the encoder: for every reachable state between calls and every write of any length, a representation invariant (pending bytes, line position) is found among the fields of the encoder and shown to be kept, by induction over the loop in Write; what was passed on plus what is pending is the base64 of what was given, with a newline after each 72 characters.",
	"C21": "Every path through the decoder's Read, in every state of the stream beneath it (data, short data, end, malformed, failure): the count and buffer content equal what the standard decoder delivered, ends and failures are reported as such, loops by induction.",
	"C22": "Effect rule: no path of any exported operation stores to a package-level variable (other than during initialisation) or to memory reachable from one, or, for reading operations, to memory reachable from the key given; no goroutine is started.",
	"C23": "The conversion is evaluated on the field arithmetic in the limb domain as polynomials over Z: the result must be the quotient (1+y)/(1-y) in canonical form for the y of the key, the acceptance test must be the curve equation, and the private half the clamped SHA-512 of the seed.",
	"C24": "Limb domain: each field operation reached from the conversion is interpreted over symbolic limbs with intervals; the result's value must be congruent modulo 2^255-19 to the exact polynomial in the operands' values, no intermediate may exceed int64 or int32, and each result must meet the bounds assumed of the operands of the next operation. The constants are checked against their defining equations by exact arithmetic.",
	"C25": "The layouts, nonce sequences, key agreements, layers and comments found on the paths of Seal and of Open are extracted as normal forms and compared part by part.",
	"C26": "Each failing path of each operation must have a cause among its events or facts: a failed I/O, random or prompt event, or a fact that contradicts a well-formed record; a fact that bounds a size or content otherwise is reported.",
	"C27": "Composition: with the axioms that X25519 commutes, that box opening inverts sealing for one key and nonce, and that the standard base64 reader inverts the standard encoding, the identity follows from the parts whose obligations are listed with a prefix: both sides derive one shared key; Seal passes on the whole message in order in counted chunks; writer and reader agree on each part of the format; the base64 layers lose and add nothing; Open writes each chunk it opened, in order, and succeeds only after the last; neither refuses anything well-formed.",
	"C28": "Termination: for each loop on each path, the transitions that the abstract interpretation finds at its back edges are removed group by group: a group goes when a number in the state (a counter, a length, an offset, the position in an input) strictly approaches a bound that the loop leaves alone, and every remaining group moves it the same way or not at all, or when the iteration takes bytes from a finite input. A loop with a back edge left over is reported. Recursion has no bound and is reported, as are waits for a channel and mutexes that an exit leaves locked.",
	"C29": "Composition: with the axiom that Ed25519 accepts what signing with the same pair has produced and that the key derivation is a function of its arguments, acceptance follows from the parts whose obligations are listed with a prefix: the two files of a pair hold one key and key number, the secret half recoverable from what is stored with it; records are read as they are written; the signature file is the record of the signature of the whole message; unlocking uses exactly the bytes entered; verifying applies Ed25519 to these bytes, and nothing is refused for another reason.",
	"C30": "Typestate: every successful opening on every path of every library operation is followed by a close before the exit, deferred calls included and with every other call failing in every combination; no goroutine is started.",
	"C31": "Ordering: on every path of key generation, each effect on the public key path (creation, truncation, removal, replacement) comes after a close without error of the secret key file to which a write without error has been made.",
	"C32": "Result discipline: at every exit of every exported function with a result and an error, an error comes with nil results and success with results that are not nil and were allocated by the call.",
	"C33": "Input analysis: every file that is opened for reading, read or looked at on any path of an operation must be one of its documented inputs (matched by parameter position); functions of the repository may not call what reads the environment, the clock or the state of the process, nor read standard input other than through the prompt; passphrases are asked for only by the operations that unlock a key.",
	"C34": "On every path of every operation, the calls of the prompt are counted and matched with what the path has found out about the key: it must have been read, and be protected or have failed its checksum. In the command, asking is matched with the options. On the paths of the built-in prompt, the entries read and the equality established between them are matched with the result.",
	"C35": "At every exit of Seal and Open on every path, and at the end of every iteration of their loops, the length of each byte array and buffer that has been made is bounded by a constant: from the facts of the path or, for those that a loop carries along, by induction (short before the loop, and short again after each iteration). Lists that a loop carries along are bounded alike, and so is what the clients of the encoder and the decoder can make them keep.",
}
