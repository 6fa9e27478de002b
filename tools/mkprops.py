#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import subprocess
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mechanism.split("; ")]}
    if observe: a["observe_at"] = observe.split(", ")
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a, technique=technique, note=note))

S = "src/ssh/"
p("C01", "An accepted certificate carries a valid CA signature over all of its fields",
  "Whenever certificate bytes or text are accepted, the signature in them is a cryptographically valid signature by the embedded CA key, of a scheme that belongs to exactly that key's type, over all bytes that precede it. Changing any byte of a certificate, transplanting or relabelling its signature, swapping the CA key, or adding or dropping bytes anywhere therefore makes it be rejected unless the result is itself validly signed.",
  ["inputs"], "every byte string, in particular every alteration of every validly signed certificate, for every subject and CA key type and signature scheme",
  "The tests reject a few hand-altered certificates; the claim is about every alteration of every certificate under every algorithm.",
  [S+"cert.rs", S+"signature.rs", S+"pubkey.rs", S+"keytype.rs"], "parsing verifies the signature over the signed prefix with the embedded CA key before returning a certificate",
  "property-based testing: structured forgeries of generated certificates against an independent strict parser plus OpenSSL verification",
  "Exploration: generated certificates of all algorithms with 16 families of forgery, relabelling and a bit flip in every region. Trusts OpenSSL's verification and the harness' own strict parser.", "Certificate::from_bytes, from_string, from_path")
p("C02", "Parsing a certificate yields exactly the encoded fields, or an error",
  "Parsing a well-formed, validly signed certificate from bytes, text or a file succeeds and yields exactly the encoded nonce, key, serial, type, key id, principals in order, validity bounds, critical options, extensions, reserved data, CA key, signature and comment. A certificate whose structure is not well formed (bad lengths, trailing data, invalid UTF-8, unknown type, duplicate options, non-canonical integers, key or curve not fitting the type) is rejected even when the CA signed exactly those bytes.",
  ["inputs"], "every field value of every certificate for every subject and CA key type; every structural malformation",
  "The tests parse a handful of fixed certificates; they reach few field values and hardly any malformation, since each must be re-signed to get past the signature check.",
  [S+"cert.rs", S+"pubkey.rs", S+"reader.rs"], "field by field reader; option and principal sub-readers",
  "property-based testing: round trip from an independent encoder and OpenSSL signer, malformations re-signed by the CA",
  "Exploration over generated field values and structural malformations; the independent encoder and parser follow PROTOCOL.certkeys.", "Certificate::from_bytes, from_string, from_path")
p("C03", "Issuing a certificate and reading it back yields what was asked for",
  "For every sequence of builder calls followed by signing with a software key or an external signer, the resulting certificate verifies, and reading it back from its bytes or from its text form yields exactly the values the calls set (the last call winning, principals accumulating in order), with the subject and CA keys given; the standard extensions are the five empty permit-* ones of OpenSSH.",
  ["inputs", "histories"], "every sequence of builder calls, every subject key type, every CA key that can sign",
  "The tests issue a few certificates with fixed values and one call order.",
  [S+"cert.rs", S+"writer.rs", S+"privkey.rs"], "builder methods, to-be-signed encoding, signing, serialised form, Display",
  "stateful property-based testing: builder call sequences against a model, read back through the library and an independent parser",
  "Exploration over generated call sequences; the model is a plain record, the second reader the harness' own parser with OpenSSL.", "Certificate::builder .. sign, to_string")
p("C04", "Issued certificates are encoded exactly as PROTOCOL.certkeys demands",
  "The bytes to be signed are a function of the certificate's fields alone and are byte for byte the PROTOCOL.certkeys encoding, with options in lexical order of their names, so that a certificate that was read can be completed or issued again without losing anything. OpenSSH's ssh-keygen accepts issued certificates and shows the same type, serial, key id, principals, options and keys.",
  ["inputs"], "every field value of every certificate, every subject and CA key type",
  "The tests only check that the library reads its own output; agreement with the specification and OpenSSH for arbitrary content is not sampled.",
  [S+"cert.rs", S+"writer.rs"], "to-be-signed encoding",
  "property-based differential testing against an independent encoder and ssh-keygen -L",
  "Exploration; trusts the harness' encoder and OpenSSH 9.6 ssh-keygen.", "Certificate::tbs_certificate, to_string")
p("C05", "Issuance never yields a certificate that does not verify",
  "Completing a certificate with a signature succeeds exactly when that signature is valid for the certificate's own bytes under its CA key; otherwise an error is returned and no certificate. A failing signer yields a signing error, completing a certificate changes none of its fields, and every new certificate starts with a fresh random 32-byte nonce.",
  ["inputs", "fault_sequences"], "every signature or failure an external signer may return, every certificate content and CA key",
  "The tests use well-behaved signers and one or two bad signatures.",
  [S+"cert.rs", S+"signature.rs"], "signature verification before a certificate is completed; system randomness for nonces",
  "property-based testing with adversarial signers against OpenSSL verification; statistical freshness check on nonces",
  "Exploration; a faulty signer is simulated by generated valid, damaged, foreign, relabelled, empty and missing signatures.", "Certificate::add_signature, sign, builder")
p("C06", "Public keys survive parsing and writing unchanged; malformed ones are rejected",
  "Parsing a well-formed public key of any supported type from bytes, a text line or a file yields exactly its components and comment, and encoding or writing it gives back the same blob and a line that parses to an equal key. A blob or line that is malformed (trailing or missing data, type name differing from the blob, wrong curve for the type, certificate instead of a key, non-canonical or negative integers, bad base64, unknown type) is rejected.",
  ["inputs"], "every key of every supported type, every comment, every malformation",
  "The tests parse one key per type and a few errors.",
  [S+"pubkey.rs", S+"keytype.rs", S+"reader.rs", S+"writer.rs"], "public key reader and encoder",
  "property-based testing: round trip and strict acceptance against an independent parser",
  "Exploration over generated keys (RSA of many sizes, all curves, security keys) and structured damage.", "PublicKey::from_bytes, from_string, from_path, encode, write, Display")
p("C07", "Fingerprints and key sizes agree with OpenSSH for every key",
  "The fingerprint of a public key under SHA-256, SHA-384 or SHA-512 is the unpadded base64 of that hash of its encoded form and is shown as HASH:value, is the same however the key was obtained (public key, private key, certificate) and independent of the comment. The reported size is the bit length of the RSA modulus or of the curve, as ssh-keygen reports it.",
  ["inputs"], "every public key of every supported type and size",
  "The tests compare a few known fingerprints.",
  [S+"pubkey.rs"], "fingerprint computation over the encoded key; size by kind",
  "property-based differential testing against OpenSSL hashes and ssh-keygen -l",
  "Exploration over generated keys, including RSA moduli whose length is no multiple of eight.", "PublicKey::fingerprint, fingerprint_with, bits; Fingerprint::compute")
p("C08", "Unencrypted private key files round-trip byte for byte",
  "Reading an unencrypted OpenSSH private key file of any supported type yields exactly its key components, comment and check value, and writing it back gives the identical file. The written form of any private key, newly generated ones included, is a valid OpenSSH private key file: ssh-keygen derives the same public key from it.",
  ["inputs"], "every private key of every supported type, every comment, every check value, every security key handle and reserved data",
  "The tests round-trip one or two files per type.",
  [S+"privkey.rs", S+"writer.rs"], "private key reader and encoder, padding, armor",
  "property-based testing: byte-exact round trip from an independent encoder; ssh-keygen -y as differential oracle",
  "Exploration over generated keys and comments of every length modulo the padding block.", "PrivateKey::from_string, from_path, encode, write, new")
p("C09", "Encrypted private keys open with exactly the right passphrase",
  "A private key file protected with aes256-ctr and bcrypt opens with its passphrase into exactly the protected key, and with no other passphrase; without a passphrase, or with any other cipher or key derivation, the corresponding error is returned. A passphrase given for an unencrypted file is ignored.",
  ["inputs"], "every passphrase, salt, round count and key; every wrong passphrase; every unsupported cipher",
  "The tests open a few fixed files with one right and one wrong passphrase.",
  [S+"privkey.rs"], "bcrypt-pbkdf derived key and IV, CTR decryption, check values",
  "property-based testing against an independent encryptor (OpenSSL AES, ssh-keygen bcrypt) over generated passphrases and keys",
  "Exploration with small round counts; ssh-keygen encrypts the differential cases. Wrong passphrases are generated close to the right one.", "PrivateKey::from_string_with_passphrase, from_path_with_passphrase")
p("C10", "Damaged or inconsistent private key files are rejected",
  "A private key file is rejected when its check values differ, when the public key in its header is not the one in its private part, when it does not hold exactly one key, when its structure is cut, mistyped or has a wrong preamble or armor, or when the key type or curve in it is unknown or contradictory. No such file yields a key with other components than those stored in it.",
  ["inputs"], "every structural alteration of every private key file",
  "The tests contain very few malformed private keys.",
  [S+"privkey.rs", S+"reader.rs"], "preamble, key count, check values, public key comparison",
  "property-based testing: structured damage against an independent strict parser",
  "Exploration; acceptance is compared with an independent parser of PROTOCOL.key.", "PrivateKey::from_string, from_bytes")
p("C11", "Signing with any usable private key produces a signature that verifies",
  "For every RSA, ECDSA P-256/P-384 or Ed25519 private key that was read or generated, and every message, signing returns a well-formed SSH signature of the right scheme that verifies under the key's public half and under no other message or key. Where signing is impossible (unsupported curve, unusable key material, security key without hardware) it reports failure rather than panicking or returning a wrong signature.",
  ["inputs"], "every key, including scalars with leading zero bytes and inconsistent key material; every message",
  "The tests sign with one key per type; about one ECDSA key in 256 has a short scalar and signatures vary per run.",
  [S+"privkey.rs", "src/utils.rs", S+"signature.rs"], "per-kind signing and DER to SSH conversion",
  "property-based testing against OpenSSL verification, keys generated to include short scalars and malformed material",
  "Exploration. RSA keys are 13 fixtures of different sizes and shapes, other keys are generated.", "PrivateKey as SSHCertificateSigner")
p("C12", "Dropping a private key wipes its secret material from memory",
  "After a private key is dropped, no heap block it owned still holds the secret components: private exponent, primes, CRT values, scalar, seed, security key handle or PIN. Clones are wiped as well, each when it is dropped.",
  ["inputs", "histories"], "every private key of every type, however obtained (read, generated, cloned, with PIN and device path set)",
  "Unit tests cannot see freed memory.",
  [S+"privkey.rs"], "zeroisation on drop",
  "property-based testing with an instrumented allocator that inspects every block at the moment it is freed",
  "Exploration; looks at blocks freed while a key is dropped, not at copies the parser frees earlier or at stack copies.", "Drop for PrivateKey")
p("C13", "A detached signature verifies exactly for its message, namespace and key",
  "An SSHSIG verifies if and only if it is well formed, of version 1, in a non-empty namespace equal to the expected one, made by the expected key where one is given (whatever the key's comment), with SHA-256 or SHA-512, and cryptographically valid for the message under a permitted scheme (never RSA with SHA-1). Any change to message, namespace, key, hash name, signature or framing makes it be rejected.",
  ["inputs"], "every message, namespace, key type and hash; every alteration of a valid signature",
  "The tests verify fixed signatures and a few mismatches.",
  [S+"signature.rs"], "signed-data reconstruction, namespace and key comparison, verification",
  "property-based testing: signatures from an independent implementation, altered in structured ways, against an independent verifier and ssh-keygen -Y",
  "Exploration; trusts OpenSSL and the harness' own SSHSIG code, cross-checked with ssh-keygen.", "SshSignature::from_armored_string, VerifiedSshSignature::from_ssh_signature")
p("C14", "Created detached signatures are valid SSHSIG files that ssh-keygen accepts",
  "Signing any message with a software key in any non-empty namespace under either hash yields an armored signature that reads back with the same key, namespace, hash and signature, verifies for that message only, and is accepted by ssh-keygen -Y. An empty namespace is refused; armor has the PEM markers and base64 lines of at most 76 characters.",
  ["inputs"], "every message, namespace, key and hash",
  "The tests sign one message per key type.",
  [S+"signature.rs", S+"privkey.rs"], "signature creation, armor",
  "property-based testing: round trip, independent verification and ssh-keygen -Y verify",
  "Exploration over generated messages, namespaces and keys.", "VerifiedSshSignature::new_with_private_key, Display")
p("C15", "Security key signatures bind application, flags, counter and message",
  "A signature by a security key (Ed25519 or ECDSA P-256) is accepted, in certificates and detached signatures alike, exactly when it is valid over the hash of the key's application, the flags, the counter and the hash of the signed data. Altering application, flags, counter, message or key, dropping or extending the trailer, or presenting a software-key signature for a security key (or the reverse) makes it be rejected.",
  ["inputs"], "every application string, flags byte, counter value and message",
  "The tests hold a few fixed security key certificates with one application.",
  [S+"signature.rs"], "security key branch of verification",
  "property-based testing: software emulation of a security key against OpenSSL verification",
  "Exploration; the emulated token follows PROTOCOL.u2f.", "Certificate::from_bytes, VerifiedSshSignature::from_ssh_signature")
p("C16", "An allowed_signers line is understood exactly as written or rejected",
  "A well-formed allowed_signers line yields exactly its principals, options (cert-authority, namespaces, valid-after, valid-before; names case-insensitive, values optionally quoted) and key, whatever the spacing, option order and trailing comment. A line with missing or empty principals, unbalanced or misplaced quotes, a repeated namespaces or validity option, an unknown option, an invalid timestamp, valid-before not after valid-after, a missing or invalid key, or unexpected trailing text is rejected.",
  ["inputs"], "every line over the grammar and every near miss",
  "The tests sample about forty lines.",
  [S+"allowed_signer.rs"], "tokenizer for quotes and comments; option loop",
  "property-based testing: grammar-based generation with a model, and mutations judged by a reference parser",
  "Exploration; the reference is the generating model, so ambiguous lines are not judged.", "AllowedSigner::from_string")
p("C17", "Timestamps in allowed_signers denote the right instant in every time zone",
  "A timestamp YYYYMMDD[HHMM[SS]] with a Z suffix denotes that UTC time, and without it that local time in the system's time zone; anything that is not exactly such a calendar time is rejected. No timestamp makes parsing panic, including local times that a daylight saving change skips or repeats.",
  ["inputs", "configurations"], "every timestamp string; every time zone rule",
  "The tests run in one time zone with a few dates.",
  [S+"allowed_signer.rs"], "timestamp parser, local time conversion",
  "property-based testing against an independent calendar; child processes with generated POSIX TZ rules against libc's mktime",
  "Exploration over generated dates and time zones, including transitions.", "AllowedSigner::from_string")
p("C18", "An allowed signer prints as a line that reads back as the same entry",
  "The text form of every allowed signer entry that was read from a line is a single allowed_signers line which parses to an equal entry: same principals, flags, namespaces, validity instants and key.",
  ["inputs", "configurations"], "every entry that parsing can produce, in every time zone",
  "The tests print hardly any entries with options.",
  [S+"allowed_signer.rs"], "Display for allowed signers",
  "property-based testing: parse, print, parse again", "Exploration over generated entries.", "Display for AllowedSigner")
p("C19", "An allowed_signers file yields its entries in order or a located error",
  "Parsing an allowed_signers file or string yields one entry per line that is neither blank nor a comment, in file order, each equal to that line parsed alone, with any line ending and indentation. If any entry is invalid the whole file is rejected with that line's own error and the zero-based number of the first offending line.",
  ["inputs"], "every sequence of valid, invalid, blank and comment lines",
  "The tests use three small files.",
  [S+"allowed_signer.rs"], "line loop", "property-based testing: generated files against the composition of single-line parsing", "Exploration.", "AllowedSigners::from_string, from_path")
p("C20", "The wire reader and writer implement the SSH encodings exactly",
  "Any sequence of values written by the writer (strings, byte strings, integers, multiple-precision integers, string lists and maps, raw bytes, C strings, keys) has the RFC 4251 encoding and reads back as the same values with the offset at the end of each. A read from truncated or malformed data fails without panicking, never returns bytes outside the buffer, and never reads past it whatever the length prefix.",
  ["inputs", "histories"], "every sequence of reader and writer operations on every buffer and offset",
  "The tests write and read one value at a time.",
  [S+"reader.rs", S+"writer.rs"], "length-prefixed reader and writer", "model-based stateful testing against a reference codec", "Exploration over generated operation sequences and buffers.", "Reader, Writer")
p("C21", "The readable form of a certificate shows its contents truthfully",
  "The readable form of a certificate shows its type, algorithm and fingerprint of subject and CA key as ssh-keygen names them, key id, serial, validity, every principal in order, every critical option with its value and every extension, and nothing else; validity is shown as forever exactly when it is unlimited at both ends. The one-line form is the type name, the base64 of the certificate bytes and the key id.",
  ["inputs"], "every certificate", "No test inspects the readable form.",
  [S+"cert.rs"], "Display for certificates", "property-based testing against an independent renderer (option order ignored)", "Exploration over generated certificates.", "Display for Certificate")
p("C22", "DER ECDSA signatures convert to SSH signatures of the same value, or not at all",
  "Every DER-encoded ECDSA signature of the curves the library signs with (P-256, P-384) converts to the SSH encoding of the same two integers, and wrapping a raw signature for a key yields the scheme name of that key's type with that signature. Anything that is not a DER sequence of exactly two integers is refused, without panicking.",
  ["inputs"], "every pair of integers up to the size of the supported curves; every byte string",
  "The tests convert a few signatures; values with leading zero or high bits are hit by chance.",
  ["src/utils.rs"], "minimal DER parser, SSH signature framing", "property-based testing against OpenSSL's DER encoder, plus damaged encodings", "Exploration.", "signature_convert_asn1_ecdsa_to_ssh, asn_der_to_r_s, format_signature_for_ssh")
p("C23", "Keys taken from X.509 certificates, requests and DER are the embedded keys",
  "Extracting an SSH public key from an X.509 certificate, a signing request or a DER public key yields exactly the embedded P-256 or P-384 key under the matching SSH type. RSA, other curves and malformed input are refused with an error.",
  ["inputs"], "every certificate, request and public key, every curve, subject and extension",
  "The tests use fixed certificates.",
  ["src/x509/mod.rs"], "X.509 and DER parsing, curve mapping", "property-based testing: certificates and requests built with OpenSSL from generated keys and contents", "Exploration; trusts OpenSSL's encoders.", "extract_ssh_pubkey_from_x509_certificate, extract_ssh_pubkey_from_x509_csr, der_encoding_to_ssh_public_key")
p("C24", "A PIV attestation is accepted only with an intact chain to the given root",
  "An attestation chain is accepted only if the intermediate is signed by the given root (Yubico's by default) and the leaf by that intermediate; then the returned key, firmware, serial, PIN policy and touch policy are exactly those in the leaf. A broken link, a missing or malformed required extension, an unsupported key or an unreadable root gives an error, never a panic.",
  ["inputs"], "every chain, every extension value, every alteration of a certificate in it",
  "The tests verify a few real chains.",
  ["src/yubikey/verification.rs", "src/x509/mod.rs"], "chain verification, extension extraction", "property-based testing: chains built with OpenSSL under generated roots, broken in structured ways", "Exploration; trusts OpenSSL's certificate builder.", "yubikey::verification::verify_certificate_chain")
p("C25", "FIDO authenticator data yields exactly the encoded credential and its SSH key",
  "Parsing authenticator data yields exactly the encoded relying party hash, flags, counter, AAGUID, credential id and public key, and the derived SSH key is the security key (Ed25519, or ECDSA P-256 as an uncompressed point) that verifies signatures by the credential. Data that is truncated, lacks the credential, or holds an unsupported algorithm or a malformed key map is refused without panicking.",
  ["inputs"], "every authenticator data, every member order of the key map, every truncation and alteration",
  "The tests parse a few recorded attestations.",
  ["src/fido/parsing.rs"], "authenticator data and COSE key parser", "property-based testing: authenticator data from an independent CBOR encoder, checked by verifying emulated signatures", "Exploration.", "AuthData::parse, AuthData::ssh_public_key")
p("C26", "A FIDO attestation is accepted only if signed through the given root",
  "Attestation data is accepted only if the attestation certificate is signed by the given root (Yubico's by default) and the signature over the authenticator data followed by the challenge is valid under that certificate's key; then the result holds exactly that authenticator data and the firmware, AAGUID and transports of the certificate. Altering the data, the challenge, the signature, the signed content of the certificate or the root key, or using an unsupported algorithm, gives an error.",
  ["inputs"], "every attestation and every alteration of it", "The tests verify a few recorded attestations.",
  ["src/fido/verification.rs", "src/fido/parsing.rs"], "chain and signature verification, extension extraction", "property-based testing: attestations made with OpenSSL under generated roots, broken in structured ways", "Exploration.", "fido::verification::verify_auth_data")
p("C27", "No input makes a parser panic, hang or allocate without bound",
  "For every input whatsoever, parsing a certificate, public key, private key, detached signature, allowed_signers text, X.509 or DER data, attestation or authenticator data, and using what was parsed (encoding, printing, fingerprinting, verifying, signing), returns a value or an error: it does not panic, overflow or run away, and memory use stays proportional to the input size.",
  ["inputs"], "every byte string and every string, for every parsing entry point", "The tests hold a few corrupt inputs.",
  ["src/ssh", "src/x509/mod.rs", "src/yubikey/verification.rs", "src/fido", "src/utils.rs"], "bounds checks throughout", "structure-aware fuzzing with overflow checks, a crash and hang monitor and an accounting allocator", "Exploration; bcrypt round counts are kept small because their cost is inherent to the format.", "every public parser")
p("C28", "Key type names map one to one to consistent key types",
  "Every supported key type name, and no other string, is recognised; the result reports that name, OpenSSH's short name, its algorithm, whether it is a certificate and a security key type, and its plain type, and converting between plain and certificate names is mutually inverse and matches OpenSSH's names. Curve identifiers and certificate type names (user, User, host, Host) are recognised likewise.",
  ["inputs"], "every string; the complete table of names", "The tests look up a few names.",
  [S+"keytype.rs"], "name table", "property-based testing: the complete table plus generated near misses", "The table is covered completely; other strings by exploration.", "KeyType::from_name, as_cert_name, as_pubkey_name, Curve::from_identifier, CertType::try_from")
p("C30", "Generated and adjusted private keys are exactly what was asked for",
  "Generating an Ed25519 key yields a fresh random key with the given comment whose public half belongs to its seed and which differs from every other generated key; generating any other kind is refused with an error. Setting the PIN or device path of a security key stores exactly that value, in that key only, and changes nothing else, and has no effect on software keys; printing a private key shows only its fingerprint and comment.",
  ["inputs", "histories"], "every kind and comment; every private key and sequence of adjustments", "The tests do not look at randomness, at what stays unchanged, or at what printing reveals.",
  [S+"privkey.rs", S+"pubkey.rs"], "key generation from system randomness; setters of the security key variants; Display", "stateful property-based testing against a plain model; statistical check on generated keys", "Exploration; randomness is judged by distinctness and bit balance over the generated keys.", "PrivateKey::new, set_pin, set_device_path, Display")
p("C31", "Answers depend on the input alone, not on earlier or concurrent calls",
  "However calls of the library are ordered, repeated or spread over threads, each gives the result it gives alone in a fresh process. No input accepted or rejected earlier changes a later answer.",
  ["histories", "schedules"], "every sequence and every concurrent mixture of parsing, verifying and encoding calls on every input", "The tests run each call once, in one process and on small inputs.",
  ["src/ssh", "src/x509", "src/fido", "src/yubikey/verification.rs"], "no state outlives a call", "stateful and concurrent property-based testing: generated histories against a fresh process per answer", "Exploration; thread schedules are those the operating system happens to give.", "every public parser and verifier")
p("C32", "Reading a file gives what its content gives",
  "Reading a certificate, public key, private key (with or without passphrase) or allowed_signers file gives exactly what parsing its whole content as a string gives. A missing path, a directory or content that is not valid UTF-8 gives an error, and reading never changes the file.",
  ["inputs"], "every file content, valid or not, and every kind of path", "The tests read a few well-formed files.",
  [S+"cert.rs", S+"pubkey.rs", S+"privkey.rs", S+"allowed_signer.rs"], "from_path functions", "property-based testing: metamorphic comparison of the file and string entry points over generated files", "Exploration; files lie in a scratch directory of the check.", "from_path, from_path_with_passphrase")
p("C33", "Optional features change only what they name",
  "The library built without optional features gives the same answer to every question as the full build, except that signing with RSA keys yields no signature and encrypted private keys are refused with the error for unsupported encryption. In particular RSA keys are still read, written and verified without the signing feature.",
  ["inputs", "configurations"], "every input of the SSH parsers, verifiers, encoders and signers, with and without the features", "The test suite runs under one set of features.",
  ["Cargo.toml", "src/lib.rs", S+"privkey.rs", S+"pubkey.rs", "src/utils.rs"], "cfg(feature) alternatives", "property-based differential testing between two builds of the library", "Exploration; the builds compared are the bare one and the one with rsa-signing, encrypted-keys, x509-support, yubikey-lite and fido-lite.", "every public parser, verifier and signer")
p("C34", "Writing a key delivers all of it or reports an error",
  "Writing a public or private key to any writer delivers exactly its whole text in order, however the writer fragments or interrupts, and otherwise returns an error. Success is never reported for a key that was written in part.",
  ["inputs", "fault_sequences"], "every key and every sequence of short writes, interruptions and failures of the writer", "The tests write to memory, which never falls short.",
  [S+"privkey.rs", S+"pubkey.rs"], "write functions", "property-based testing with fault injection: generated faulty writers against the whole text", "Exploration.", "PublicKey::write, PrivateKey::write")
p("C35", "Operations on a PIV token act on exactly the requested device and slot",
  "Opening by serial gives that YubiKey or the error for a missing one; signing, issuing certificates and making signing requests use the key in the named slot only and return signatures that verify under it, or an error. Provisioning makes a new key with the requested algorithm, PIN and touch policies, returns that key and stores a self-signed certificate of it with the requested name; writing a certificate stores exactly its bytes, and reading, attestation and unlocking report what the token holds and does. Whatever fails or is unplugged at any point, calls return an error instead of panicking or reporting success, other slots and tokens stay as they were, and without the management key nothing changes at all.",
  ["histories", "fault_sequences", "configurations"], "every history of calls, set of connected tokens, contents of their slots, and failing or lost command", "The tests have no token, and none can fail a command half way.",
  ["src/yubikey/piv/management.rs", "src/yubikey/piv/ssh.rs", "src/yubikey/piv/mod.rs"], "driver calls, self-signed certificate, CSR signer, algorithm and hash selection by slot", "stateful property-based testing with fault injection: generated histories against emulated PIV tokens behind the PC/SC interface", "Exploration; the tokens are emulated (PIV applet behind libpcsclite's functions), with the real yubikey crate in between.", "Yubikey::open, unlock, provision, sign_data, ssh_cert_signer, generate_csr, write_certificate, fetch_attestation")
p("C29", "A FIDO token signs and enrols with exactly the chosen device and credential",
  "A signature made with a security key is made by one use of the key's own credential on the token the user touched, verifies under the key over exactly the data given, and carries that token's flags and counter; where the token does not hold the credential, or its PIN is needed and not right, there is none, at most one PIN attempt is spent, and no other token is made to do anything. Enrolment returns the key the touched token has just made, with its handle, application, comment and attestation, only if the attestation verifies for a fresh challenge, and otherwise the fitting error (PIN required, wrong with the attempts left, locked, blocked). No answer, silence or loss of a token makes a call panic, hang, or return something unverified.",
  ["histories", "fault_sequences", "configurations"], "every set of connected tokens with their credentials, PINs and options, every history of calls, and every failing or lost command", "The tests have no token, so neither file is run by them at all.",
  ["src/fido/signing/mozilla.rs", "src/fido/generate/mozilla.rs", "src/fido/parsing.rs", "src/fido/verification.rs"], "arguments of the driver's sign and register, the channels it reports through, the signature's and the key's assembly", "stateful property-based testing with fault injection: generated histories against emulated FIDO tokens behind hidraw and udev", "Exploration; the tokens are emulated (CTAP 2.0, 2.1 and U2F behind libudev's functions and the system calls on hidraw nodes), with the real authenticator crate in between. The attestation root is replaced by one of our own through the cfg flag sshcerts_verif_root; C26 checks the built-in one.", "sign_with_private_key, generate_new_ssh_key, set_pin")
p("C36", "With device paths, FIDO calls reach exactly the device they name",
  "With the feature fido-support, listing gives every connected FIDO device with its path and name, and asking whether a PIN is set or how many attempts are left answers for the device of that path. Signing and enrolment act on the device whose path the key or call carries, or without a path on the first listed one that opens, and on no other; a signature is one use of the key's credential there, verifies over exactly the data given and carries that token's flags and counter, and an enrolled key is the one the token made, under an attestation that verifies for a fresh challenge. A missing device or credential, a wrong PIN (one attempt each), a failing command or a pulled token gives an error, never a panic or another device's answer.",
  ["histories", "fault_sequences", "configurations"], "every set of connected devices with their credentials, PINs and options, every history of calls and paths, and every failing or lost command", "The tests neither enable the feature nor have a token.",
  ["src/fido/signing/ctap2_hid.rs", "src/fido/generate/ctap2_hid.rs", "src/fido/utils/ctap2_hid.rs", "src/fido/utils/mod.rs"], "device selection by path, arguments of the driver's calls, flags, assembly of signature and key", "stateful property-based testing with fault injection: generated histories against emulated FIDO tokens behind hidraw and udev", "Exploration; as C29, with the real ctap-hid-fido2 and hidapi crates in between. Answers that are cut short or junk are left out, since the driver itself panics on them.", "list_fido_devices, device_requires_pin, device_pin_retries, set_device_path, sign_with_private_key, generate_new_ssh_key")
NA = []
for id, title, st, reason in NA:
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=["configurations", "fault_sequences"], text="every connected device, credential and failure"), why_tests_cant="The tests have no hardware either.", anchors=dict(files=["src/fido/signing/mozilla.rs", "src/fido/generate/mozilla.rs"], mechanism=[{"name": "driver calls", "where": "src/fido"}]), na=reason))
HOOKS = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
claimed = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else None
out = open(ROOT + "/properties.jsonl", "w")
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for x in P:
    d = {k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
    assert x["statement"].count(". ") <= 2, x["id"]
    out.write(json.dumps(d, ensure_ascii=False) + "\n")
    if "na" in x:
        man["not_applicable"].append({"property": x["id"], "reason": x["na"]})
    elif claimed is not None and x["id"] not in claimed:
        man["not_applicable"].append({"property": x["id"], "reason": "check under construction"})
    else:
        man["checks"].append({"property": x["id"], "quick_cmd": f"./run.sh {x['id']} quick", "thorough_cmd": f"./run.sh {x['id']} thorough", "technique": x["technique"], "level": "exploration", "level_note": x["note"]})
man["hooks"] = {"guard": "--cfg sshcerts_verif_root (rustc flag), with the path of a PEM file in SSHCERTS_VERIF_ROOT at build time", "enable": "env.sh's build_tokens sets RUSTFLAGS and SSHCERTS_VERIF_ROOT, for the binaries with emulated tokens (C29, C35, C36) only", "source_commits": HOOKS}
man["notes"] = "Property-based testing with a tape-based generator and shrinker (harness/src/engine.rs); replay a violation with ./replay.sh <file>. See DESIGN.md."
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(ROOT + "/MANIFEST.json", "a").write("\n")
