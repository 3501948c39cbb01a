"""The properties: text (properties.jsonl and MANIFEST.json are generated from here by gen.py) and the rules deciding each."""
READER = ['reader.read_bytes', 'reader.read_raw_bytes', 'reader.read_u32', 'reader.read_u64', 'reader.read_string', 'reader.new']
WRITER = ['writer.write_bytes', 'writer.write_string', 'writer.write_raw_bytes', 'writer.write_u32', 'writer.write_u64', 'writer.basic']
MPINT = ['reader.read_positive_mpint', 'writer.write_mpint']
LISTS = ['writer.write_string_vec', 'writer.write_string_map']
PUBKEY = ['pubkey.read', 'pubkey.encode', 'table']
TECH = 'abstract interpretation of MIR (trace-partitioned value-provenance dataflow), obligations checked per path; no solver, no execution'

P = []


def prop(id, title, statement, over, text, why, files, mech, rules, rule_text, level_note='', assumptions=(), technique=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rules=rules,
                  rule_text=rule_text, level_note=level_note, assumptions=list(assumptions), technique=technique))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


prop('C01', 'A parsed certificate is always one its signing key really signed',
     'Whenever parsing an SSH certificate (from bytes, text or file) succeeds, the embedded signature verified under the signature key embedded in the certificate, over exactly the certificate bytes that precede the signature field. '
     'A certificate whose signature does not verify is always rejected with an error, and one whose signature verifies is not rejected for that reason.',
     ['inputs'], 'every byte string offered as a certificate',
     'The tests parse a dozen fixed valid certificates and a few with one corrupted byte; they cannot show that no accepted input escapes the check.',
     ['src/ssh/cert.rs', 'src/ssh/reader.rs', 'src/ssh/signature.rs'],
     [('Certificate::from_bytes calls the verifier on the to-be-signed prefix', 'src/ssh/cert.rs'), ('prefix computed from the reader offset', 'src/ssh/reader.rs')],
     ['cert.signature', 'cert.text', 'sig.verify'] + READER + PUBKEY,
     'every Ok path of Certificate::from_bytes carries the fact that the verifier succeeded on (bytes[0..offset before the signature field], signature field, embedded signature key), every path where it failed is Err')

prop('C02', 'Signature verification checks the right key, algorithm, message and value',
     'A signature blob is accepted for a message and public key only when the cryptographic verification for that key kind, with the hash or curve the key and the algorithm label name, succeeded on exactly that message, that key and that signature value. '
     'An unknown or mismatching algorithm label, a malformed value or a failing verification always yields an error.',
     ['inputs'], 'every message, public key and signature blob',
     'Tests exercise a few fixed triples per algorithm; which (label, key kind, hash) combinations are accepted is quantified over all blobs.',
     ['src/ssh/signature.rs', 'src/ssh/cert.rs', 'src/utils.rs'],
     [('verify_signature dispatch on key type and signature algorithm', 'src/ssh/signature.rs')],
     ['sig.verify'] + READER + MPINT + ['table'],
     'per path of the verifier: the label compared, the algorithm object passed to the crypto library, the key bytes, the message and the signature bytes are the terms the protocol requires for that key kind; Ok only on paths where the verify call returned Ok')

prop('C03', 'Security-key signatures verify over application, flags, counter, message hash',
     'A security-key (FIDO) signature is accepted only when the cryptographic verification succeeded over SHA-256(application) || flags || counter || SHA-256(message), with the application taken from the public key and flags and counter from the signature, in that order and width. ',
     ['inputs'], 'every security-key public key, message and signature blob',
     'Tests verify a few fixed security-key certificates; the dependence of the signed data on every component is a statement about all inputs.',
     ['src/ssh/signature.rs', 'src/ssh/cert.rs'],
     [('assembly of the authenticator message', 'src/ssh/signature.rs')],
     ['sig.verify'] + READER + ['table', 'pubkey.read'],
     'the message term handed to the verify call on each sk- path is concat(sha256(application), flags, counter, sha256(message))')

prop('C04', 'Every certificate field is the wire field the protocol assigns to it',
     'For every accepted certificate each public field (nonce, key, serial, type, key id, principals, validity bounds, critical options, extensions, reserved, signature key, signature, comment) holds exactly the value of the corresponding wire field at the offset the OpenSSH certificate format defines for that key type. '
     'No accepted certificate has fields shifted, swapped, truncated or defaulted.',
     ['inputs'], 'every byte string accepted as a certificate, every key type',
     'Tests check selected fields of fixed certificates; equal or empty neighbouring fields hide swaps, and not all key types have every field checked.',
     ['src/ssh/cert.rs', 'src/ssh/reader.rs', 'src/ssh/pubkey.rs'],
     [('Certificate::from_bytes field order', 'src/ssh/cert.rs'), ('PublicKey::from_reader', 'src/ssh/pubkey.rs')],
     ['cert.layout', 'cert.text', 'cert.principals', 'cert.options'] + READER + PUBKEY,
     'each field of the returned aggregate is the term "wire field number n of the input" for the OpenSSH layout')

prop('C05', 'An issued certificate carries and signs exactly what the builder was given',
     'A certificate produced by the builder serialises as the OpenSSH certificate fields of the values set on the builder, in order, followed by the signature; the signer is asked to sign exactly those preceding bytes, and signing fails unless the produced signature verifies under the stated signature key. '
     'Each setter changes only its own field.',
     ['inputs', 'programs'], 'every sequence of builder calls, every subject key and signer',
     'Tests build a few certificates and re-parse them; a wrong field only in one key type or one option combination is not sampled.',
     ['src/ssh/cert.rs', 'src/ssh/writer.rs'],
     [('Certificate::tbs_certificate', 'src/ssh/cert.rs'), ('Certificate::sign / add_signature', 'src/ssh/cert.rs'), ('builder setters', 'src/ssh/cert.rs')],
     ['cert.tbs', 'cert.issue', 'cert.setters', 'cert.builder'] + WRITER + LISTS + ['pubkey.encode', 'table', 'sig.verify'],
     'the writer buffer at the end of tbs_certificate is the concatenation required by the format; sign() passes that term to the signer and the stored serialisation is it followed by the length-prefixed signature; each setter writes one field')

prop('C06', 'Principals and options are read completely or the certificate is rejected',
     'For every accepted certificate the principals list and the critical-option and extension maps contain every entry present on the wire, in order and with its own value (a repeated name keeps its last value); a malformed or truncated entry makes the whole parse fail. No entry is dropped, truncated or attributed to another name.',
     ['inputs'], 'every list and option blob of any length',
     'Tests have lists of at most a few well-formed entries; a loop that stops early or swallows an error on a malformed tail is invisible to them.',
     ['src/ssh/cert.rs', 'src/ssh/reader.rs'],
     [('read_principals / read_options loops', 'src/ssh/cert.rs')],
     ['cert.principals', 'cert.options', 'cert.layout', 'lists.eof'] + READER,
     'loop summary of the list readers: each iteration consumes exactly the next string(s) of the blob and appends them; the loop ends with Ok only when the blob offset equals its end; every error inside propagates')

prop('C07', 'SSHSIG verification binds namespace, hash algorithm, message and pinned key',
     'Verifying an SSHSIG signature succeeds only if the embedded namespace equals the requested one, the hash algorithm is a supported one, the embedded key equals the pinned key when one is given, and the signature verifies under that key over the SSHSIG preamble, namespace, reserved field, hash name and hash of the message. '
     'Signing signs those same bytes.',
     ['inputs'], 'every signature, message, namespace and pinned key',
     'Tests verify and reject fixed samples; that no path skips one of the comparisons needs all inputs.',
     ['src/ssh/signature.rs'],
     [('VerifiedSshSignature construction', 'src/ssh/signature.rs')],
     ['sshsig.binding', 'sshsig.blob', 'sshsig.create', 'sig.verify', 'value.equal'] + READER + WRITER,
     'each Ok path carries the facts namespace==requested, key==pinned, verify(...)==Ok over the term MAGIC||lp(namespace)||lp(reserved)||lp(hash name)||lp(H(message)); each Err path one of their negations')

prop('C08', 'SSHSIG parsing is strict and its writer and reader agree',
     'An SSHSIG blob is accepted only with the SSHSIG preamble, version 1 and its six fields in order, an armored one only between its begin and end markers with base64 in between; and what the library serialises as an SSHSIG (blob or armored) is the same layout the parser reads, with the same field values.',
     ['inputs'], 'every blob or text offered as a signature; every signature value serialised',
     'Tests use fixed armored samples; off-layout inputs and serialisations of other key types are not sampled.',
     ['src/ssh/signature.rs'],
     [('SshSignature::from_bytes / from_armored_string / Display', 'src/ssh/signature.rs')],
     ['sshsig.parse', 'sshsig.write', 'sshsig.armor'] + READER + WRITER,
     'parsed fields are the wire fields in order after checked preamble and version; the writer term is the same sequence')

prop('C14', 'Public keys survive encode and decode, and fingerprints cover the encoding',
     'For every supported public key the binary encoding is the OpenSSH one (type name, then the fields of that type in order), decoding yields the key with exactly those fields, and the text form is the type name, the base64 of that encoding and the comment. Fingerprints (SHA-256, SHA-384, SHA-512) are the hashes of exactly that encoding in OpenSSH notation.',
     ['inputs'], 'every public key of every supported type',
     'Tests round-trip one key per type; agreement field by field for all values and for certificates types is not sampled.',
     ['src/ssh/pubkey.rs', 'src/ssh/writer.rs', 'src/ssh/reader.rs', 'src/ssh/keytype.rs'],
     [('PublicKey::from_reader / encode / Display / fingerprint', 'src/ssh/pubkey.rs')],
     ['pubkey'] + READER + WRITER + MPINT + ['table'],
     'decoded fields are the wire fields of the type\'s layout; the encoding term is the inverse layout; text and fingerprint terms are functions of that encoding')

prop('C15', 'Wire reads return exactly the next field and never run past the input',
     'Each primitive of the public wire reader returns exactly the RFC 4251 value that starts at the current position, advances to its end and never uses bytes outside the input; when the field is truncated or malformed it returns an error, and it never rejects a well-formed field.',
     ['inputs'], 'every buffer, every position, every declared length',
     'Tests read a few literals; boundary lengths and positions near the end (and u32 lengths near 2^32) are quantified over all inputs.',
     ['src/ssh/reader.rs'], [('Reader::read_* bounds checks', 'src/ssh/reader.rs')],
     ['reader'],
     'for every Reader primitive and every abstract path: the returned term is exactly the field at the current offset, the new offset is its end, the end is proved within the input, and an error path carries a fact that the field does not fit or is malformed')

prop('C16', 'Wire writes append exactly the RFC 4251 encoding of the value',
     'Each primitive of the public wire writer appends exactly the RFC 4251 encoding of its argument (big-endian integers, length-prefixed strings, lists and maps, positive mpints with leading zeros stripped and a zero byte added when the high bit is set) and leaves what was written before untouched.',
     ['inputs'], 'every value and every prior buffer content',
     'Tests write a few literals; mpint edge cases and map contents of every size are not sampled.',
     ['src/ssh/writer.rs'], [('Writer::write_*', 'src/ssh/writer.rs')],
     ['writer'],
     'for every Writer primitive: the buffer after the call equals the buffer before it followed by the RFC 4251 encoding of the argument')

prop('C17', 'Algorithm and curve names map to their own kind, and to nothing else',
     'Every supported key-type and curve name maps to the key kind, certificate flag, security-key flag, plain name and curve that OpenSSH defines for it; every other name is rejected; and the certificate and plain names derived from a key type map back to the same kind.',
     ['inputs'], 'every name',
     'Tests look up some names; a wrong row for a rarely used name, or acceptance of an unlisted name, is not sampled.',
     ['src/ssh/keytype.rs', 'src/ssh/pubkey.rs'], [('KeyType::from_name, Curve::from_identifier', 'src/ssh/keytype.rs')],
     ['table'],
     'the lookup functions are explored once per distinguishing comparison; each accepted constant yields the table row of the protocol documents, everything else is an error, and the derived certificate / public-key names map back')

prop('C09', 'Parsing untrusted SSH input never panics',
     'No input to the parsers of certificates, public and private keys, SSHSIG signatures, allowed-signers entries, or to the wire reader and name lookups, makes the library panic: every malformed input is reported through an error. ',
     ['inputs'], 'every byte string or text given to a parsing entry point, every passphrase',
     'Tests feed a few malformed samples; absence of an out-of-bounds index, failed unwrap or overflow is a statement about all inputs.',
     ['src/ssh/cert.rs', 'src/ssh/pubkey.rs', 'src/ssh/privkey.rs', 'src/ssh/signature.rs', 'src/ssh/allowed_signer.rs', 'src/ssh/reader.rs', 'src/ssh/keytype.rs', 'src/utils.rs'],
     [('length checks before indexing and slicing', 'src/ssh/reader.rs'), ('error propagation instead of unwrap', 'src/ssh')],
     ['panic.ssh'] + READER + MPINT,
     'every bounds check, slice, str boundary, unwrap/expect, arithmetic overflow and explicit panic site on any path from the entry points is discharged by the path facts and inferred loop invariants',
     level_note='Panics inside third-party crates, stack overflow and allocation failure are outside.')

prop('C10', 'Parsing attestations, x509 and FIDO data never panics',
     'No attestation, certificate, certificate request, DER key, root certificate or FIDO authenticator data given to the verification and extraction functions makes the library panic; malformed or incomplete data is reported through an error.',
     ['inputs', 'configurations'], 'every byte string given to these functions, in every feature configuration that has them',
     'Tests verify a few fixed attestations; extensions that are short, absent or of another type are not sampled.',
     ['src/x509/mod.rs', 'src/fido/parsing.rs', 'src/fido/verification.rs', 'src/yubikey/verification.rs'],
     [('length checks on extension values', 'src/yubikey/verification.rs'), ('map_err on every parse', 'src/fido/parsing.rs')],
     ['panic.attest'],
     'every panic site on any path of these functions is discharged by the path facts',
     level_note='Panics inside x509-parser, der-parser and minicbor are outside.')

prop('C11', 'Signing with a decoded private key never panics',
     'Signing any message with any private key that decoding can produce (however malformed its components) returns a signature or reports failure, and never panics; the same holds for signing with a hardware token that fails or is absent.',
     ['inputs', 'configurations'], 'every decodable private key and message, in every feature configuration',
     'Tests sign with valid keys only; keys with short, empty or inconsistent components decode but are not sampled.',
     ['src/ssh/privkey.rs', 'src/utils.rs', 'src/fido/signing/mozilla.rs', 'src/fido/signing/ctap2_hid.rs'],
     [('length checks before using key components', 'src/ssh/privkey.rs')],
     ['panic.sign'],
     'each abstract value a successful decoding path returns is fed into the signer; every panic site reached is discharged by the facts of decoding and signing')

prop('C12', 'A private key is returned only if its container is consistent',
     'Decoding an OpenSSH private key succeeds only if the preamble is right, the file holds exactly one key, the two check integers agree, the outer public key equals the one in the private section; the passphrase-derived key and counter are the bcrypt output for the given passphrase, the file\'s salt and rounds. '
     'The returned fields are exactly the wire fields. An encrypted key without a passphrase, or with one whose decryption leaves the check integers different, never yields a key.',
     ['inputs'], 'every byte string or text offered as a private key, every passphrase',
     'Tests decode one valid file per key type and one wrong passphrase; that no accepted input skips a guard is a statement about all inputs.',
     ['src/ssh/privkey.rs', 'src/ssh/reader.rs'],
     [('PrivateKey::from_reader guards', 'src/ssh/privkey.rs'), ('decryption of the private section', 'src/ssh/privkey.rs')],
     ['privkey.container', 'privkey.record', 'privkey.text', 'reader.read_cstring', 'value.equal'] + READER + MPINT + PUBKEY,
     'every Ok path of the decoder carries the facts preamble==, count==1, check1==check2, public==public; each key component is the wire field of the type\'s record layout; the decryption key term is bcrypt(passphrase, salt, rounds)')

prop('C13', 'Encoded private keys decode to the same key, and new keys are consistent',
     'The binary encoding of a private key is the OpenSSH container (preamble, cipher none, one key, public key, private section with equal check integers, the fields of the key type in order, comment and 1,2,3.. padding to a multiple of eight), so that decoding returns the same key; the text form is the base64 of it between the markers. '
     'A generated key\'s secret belongs to its public key, and setting the pin or device path changes nothing else.',
     ['inputs'], 'every private key value of every type; every comment length',
     'Tests re-encode one key per type; the padding for each length and each type\'s layout for all values are not sampled.',
     ['src/ssh/privkey.rs', 'src/ssh/writer.rs'],
     [('PrivateKey::encode / write / new', 'src/ssh/privkey.rs')],
     ['privkey.encode', 'privkey.write', 'privkey.new', 'privkey.setters', 'pubkey.encode'] + WRITER + ['writer.write_mpint', 'table'],
     'the writer buffer term at the end of encode() is the container layout over the fields of self, with the padding length congruent to minus the length mod 8 on every path; the text term is base64 of encode() with newlines between the markers')

prop('C18', 'Software signatures use the stored secret, matching hash and matching label',
     'A signature made with a software private key is made over exactly the given bytes with the secret stored in that key, with the hash or curve that belongs to the algorithm name the signature blob carries, and the blob names the algorithm of that key; where signing is impossible the result says so instead of returning another value.',
     ['inputs', 'configurations'], 'every private key and message, in every feature configuration',
     'Tests sign with one key per type and verify; agreement of label, hash and key on every path and for every scalar length is not sampled.',
     ['src/ssh/privkey.rs', 'src/utils.rs', 'src/lib.rs'],
     [('SSHCertificateSigner::sign for PrivateKey', 'src/ssh/privkey.rs'), ('format_signature_for_ssh', 'src/utils.rs')],
     ['sign.format', 'sign.software', 'sign.rsader', 'table'] + WRITER + ['writer.write_mpint'],
     'per path of the signer: the algorithm object, key material and message passed to the crypto library and the label written into the blob are the terms that belong to the key kind; no Some without a successful library call')

prop('C26', 'Hardware signatures cover the right message, key and application',
     'Signing through a FIDO token asks it to sign SHA-256 of the message for the key\'s own application and credential handle, and the produced blob is algorithm name, signature, flags and counter as the token returned them. Signing through a PIV slot signs the digest belonging to the key in that slot and labels the blob with that key. A failing token yields no signature.',
     ['inputs', 'configurations'], 'every message, key, slot and token answer, in every feature configuration',
     'The test suite has no hardware: these paths run in no test at all.',
     ['src/fido/signing/mozilla.rs', 'src/fido/signing/ctap2_hid.rs', 'src/yubikey/piv/ssh.rs', 'src/yubikey/piv/management.rs', 'src/ssh/privkey.rs'],
     [('fido sign_with_private_key', 'src/fido/signing'), ('Yubikey::ssh_cert_signer', 'src/yubikey/piv/ssh.rs')],
     ['sign.fido', 'sign.piv', 'sign.format'] + WRITER,
     'the arguments of the token calls and the returned blob are the required terms over message, key and token answer on every path')

X509NOTE = 'DER, PEM, CBOR and x509 parsing and the certificate signature primitive are those of the dependency crates, taken as correct.'

prop('C21', 'SSH keys taken from x509 data are the subject key, under its own curve',
     'Extracting an SSH public key from an x509 certificate, a certificate signing request or a DER-encoded public key yields exactly the subject public key in it, typed with the curve its algorithm parameters name (P-256 as nistp256, P-384 as nistp384). Any other algorithm or curve is an error, and keys on the two supported curves are not rejected.',
     ['inputs'], 'every certificate, signing request or DER key',
     'Tests convert a few fixed files; which algorithm and curve identifiers are accepted, and as what, is quantified over all inputs.',
     ['src/x509/mod.rs', 'src/yubikey/verification.rs'],
     [('convert_x509_pki_to_pubkey', 'src/x509/mod.rs'), ('der_encoding_to_ssh_public_key', 'src/x509/mod.rs')],
     ['x509.certificate', 'x509.csr', 'x509.der', 'table'],
     'each Ok path carries the facts that the algorithm OID is id-ecPublicKey and the curve OID is the one of the returned type, and the key bytes are the subject bit string of the input; each Err path a contrary fact', level_note=X509NOTE)

prop('C22', 'A PIV attestation is accepted only with an unbroken chain to the root',
     'Verifying a PIV attestation succeeds only if the root (the given one, else the built-in Yubico one) signed the intermediate and the intermediate signed the client certificate, and the returned public key, firmware, serial number, pin policy and touch policy are those of the client certificate\'s key and attestation extensions. If any of them is missing the attestation is rejected.',
     ['inputs'], 'every client and intermediate certificate and root',
     'Tests verify a few genuine chains and a few failing ones; that no accepted pair skips a link or mixes certificates is a statement about all inputs.',
     ['src/yubikey/verification.rs', 'src/x509/mod.rs'],
     [('verify_certificate_chain', 'src/yubikey/verification.rs'), ('extraction of the attestation extensions', 'src/yubikey/verification.rs')],
     ['piv.chain', 'x509.certificate', 'table'],
     'each Ok path carries successful signature checks (intermediate under the root key, client under the intermediate key); each returned field is a fold over all extensions of the client certificate that changes only at its own OID, to that extension\'s value', level_note=X509NOTE)

prop('C23', 'A FIDO attestation is accepted only if the chain and its signature verify',
     'Verifying a FIDO attestation succeeds only for ES256, only if the root (given or the built-in Yubico one) signed the attestation certificate, and only if that certificate\'s key signed exactly the authenticator data followed by the challenge; the returned authenticator data is the parse of those signed bytes and firmware, AAGUID and transports are those of that certificate\'s extensions.',
     ['inputs'], 'every authenticator data, signature, challenge, algorithm, certificate and root',
     'Tests verify a few genuine attestations and a few broken ones; that no accepted input escapes a check needs all inputs.',
     ['src/fido/verification.rs', 'src/fido/generate/mod.rs'],
     [('verify_auth_data', 'src/fido/verification.rs'), ('U2FAttestation::verify', 'src/fido/generate/mod.rs')],
     ['fido.verify', 'fido.attestation'],
     'each Ok path carries alg == -7, a successful check of the certificate under the root key, and a successful ECDSA P-256 verification whose key, message and signature are the required terms; result fields are folds over all extensions', level_note=X509NOTE)

prop('C24', 'FIDO authenticator data is read exactly as the standard lays it out',
     'Parsing authenticator data yields the relying-party hash, flags, counter, AAGUID, credential id and COSE key at their WebAuthn offsets, with every COSE entry attributed to its own label and elliptic-curve points in uncompressed form; truncated data or data without a credential is an error. The SSH key made from it has the type of its COSE algorithm, that key and the given application; the presence and verification queries report their own flag bits.',
     ['inputs'], 'every byte string offered as authenticator data, every application',
     'Tests parse a few fixed samples of one kind (Ed25519); other COSE layouts, lengths and flag combinations are not sampled.',
     ['src/fido/parsing.rs'],
     [('AuthData::parse', 'src/fido/parsing.rs'), ('AuthData::ssh_public_key', 'src/fido/parsing.rs')],
     ['fido.authdata', 'fido.integer', 'fido.sshkey', 'table'],
     'each returned field is the slice of the input at its offset; each step of the COSE loop stores the value only under its label; flag queries are decided for all 256 flag values', level_note=X509NOTE)

prop('C25', 'FIDO enrolment returns a key only with its verified, fresh attestation',
     'Generating a FIDO key returns a key only if its attestation was verified against the built-in root over the very challenge sent to the token, which was freshly generated for this call; the returned public key and credential are those of the attested authenticator data and carry the requested application, comment and pin.',
     ['inputs', 'configurations'], 'every token answer, application, comment and pin, in both token backends',
     'The test suite has no hardware: these paths run in no test at all.',
     ['src/fido/generate/mozilla.rs', 'src/fido/generate/ctap2_hid.rs', 'src/fido/generate/mod.rs'],
     [('generate_new_ssh_key', 'src/fido/generate'), ('U2FAttestation::verify', 'src/fido/generate/mod.rs')],
     ['fido.enrol', 'fido.attestation', 'fido.sshkey'],
     'each Ok path carries a successful verifier call on exactly the fields of the returned attestation; the challenge is the output of the random source whose success was checked (or its SHA-256) and is the term in the request', level_note=X509NOTE)


prop('C27', 'An accepted allowed-signers line is recorded exactly as it reads',
     'Whenever an allowed-signers line is accepted, the entry has the comma-separated principals of the line (none empty), the key its type and data parse to, and exactly the options given: cert-authority, the non-empty namespaces, valid-after and valid-before each recorded from its own option (names in any case), unset when absent, never given twice, valid-before strictly later than valid-after, and nothing but a comment after the key. '
     'Unknown options are never skipped, and times of 8, 12 or 14 digits are read in UTC exactly when they end in Z. A list is the entries of all its lines that are neither blank nor comments, in order, and one bad line makes the whole list an error carrying that line\'s index.',
     ['inputs'], 'every line and every list of lines',
     'Tests parse about thirty fixed lines; which option is recorded where, and that no text is dropped, is quantified over all lines.',
     ['src/ssh/allowed_signer.rs'],
     [('AllowedSigner::from_string option loop', 'src/ssh/allowed_signer.rs'), ('AllowedSigners::from_string', 'src/ssh/allowed_signer.rs'), ('parse_timestamp', 'src/ssh/allowed_signer.rs'), ('AllowedSignerSplitter', 'src/ssh/allowed_signer.rs')],
     ['signers.line', 'signers.tokens', 'signers.time', 'signers.list'],
     'Ok paths carry the required facts on tokens (end of line, no empty principal, time order); the option loop is analysed per round: which name facts hold, which field changes, to which term; the list is a per-line fold whose empty contributions need the blank or comment fact',
     level_note='The tokenizer is checked through its loops (nothing but blanks and comments is dropped, token text is what was consumed); its placement of token borders is not proved against a grammar. The meaning of chrono\'s format strings is trusted.')

prop('C28', 'A printed allowed-signers entry reads back as the same entry',
     'Printing an allowed-signers entry that was parsed from a line, and parsing the printed line, gives an entry with the same principals, options, times and key (for principals without double quotes): principals with blanks or comment signs are quoted, every option that is set is printed in the form the parser reads, none is printed that is not set, and times are printed in UTC to the second.',
     ['inputs'], 'every entry obtained by parsing',
     'No test prints an entry and reads it back.',
     ['src/ssh/allowed_signer.rs', 'src/ssh/pubkey.rs'],
     [('Display for AllowedSigner', 'src/ssh/allowed_signer.rs')],
     ['signers.display', 'signers.time', 'signers.line', 'pubkey.print'],
     'on each path of the Display implementation the text written is compared, up to option order, with the text required by the path\'s facts about the entry\'s fields',
     level_note='Decided as agreement of the printer with the printed form the parser is separately shown to read; the meaning of chrono\'s format strings is trusted.')

prop('C19', 'Dropping a private key wipes its secret parts',
     'Whenever a private key value is dropped, whatever its kind and on every path, all its secret parts (RSA private exponent, primes, coefficient and CRT exponents; ECDSA scalar; Ed25519 secret; security-key handle and pin) are overwritten before their memory is released.',
     ['inputs'], 'every private key of every kind, however it was obtained',
     'What remains in freed memory is invisible to a test that only looks at return values; no test looks at it.',
     ['src/ssh/privkey.rs', 'src/ssh/keytype.rs'],
     [('Drop for PrivateKey', 'src/ssh/privkey.rs'), ('derived Zeroize implementations', 'src/ssh/privkey.rs')],
     ['secret.drop'],
     'the drop code of PrivateKey, with the derived Zeroize implementations inlined, is explored for each kind; on every path each secret field must end as the result of zeroize (or have been moved out and wiped)',
     level_note='Covers the memory the value owns when it is dropped; copies made by cloning, reallocation or inside the crypto libraries are outside. That zeroize overwrites is trusted.')

prop('C20', 'Secrets leave the library only through the writer made for them',
     'Printing a private key shows its fingerprint and comment and nothing derived from its secret part; the errors of private-key reading never contain the passphrase; and no parsing, signing, verifying or encoding function prints, logs or writes files of its own accord.',
     ['inputs'], 'every private key, passphrase and input',
     'A test sees one printed key; that no path prints or returns a secret is about all paths.',
     ['src/ssh/privkey.rs', 'src/error.rs', 'src/ssh/*.rs'],
     [('Display for PrivateKey', 'src/ssh/privkey.rs'), ('PrivateKey::from_reader errors', 'src/ssh/privkey.rs')],
     ['secret.display', 'secret.errors', 'secret.sinks'],
     'the text of Display is compared as a term; every error term of private-key reading is searched for the passphrase outside cryptographic calls; every function outside the token back ends is searched for calls of print, log and file-writing functions',
     level_note='The derived Debug implementations do print secrets and are not covered by the claim.')

prop('C29', 'Nonces, serial numbers and new keys come from the system random source',
     'The nonce of every certificate started with the builder is 32 bytes, and its serial number 8 further bytes, drawn for it from the system random source; the seed of every newly generated key is 32 bytes drawn from it, apart from the key\'s check value. When the source fails no certificate is started; no constant, time or reused value ever takes the place of a draw.',
     ['inputs', 'fault_sequences'], 'every call of the builder and of PrivateKey::new, and every failure of the random source',
     'Randomness cannot be judged from the few values a test sees, and the failure of the random source cannot be provoked in a test.',
     ['src/ssh/cert.rs', 'src/ssh/privkey.rs'],
     [('Certificate::builder', 'src/ssh/cert.rs'), ('PrivateKey::new', 'src/ssh/privkey.rs')],
     ['random.builder', 'random.key', 'cert.builder'],
     'on each Ok path the field is the whole buffer filled by a call of SystemRandom whose success is a fact of that path, and different fields stem from different calls',
     level_note='That ring\'s SystemRandom is unpredictable is trusted. FIDO challenges are in C25.')

prop('C30', 'Parsing, verifying and encoding depend on their arguments alone',
     'The result of every public parsing, verification, conversion, encoding and printing function is determined by its arguments: it reads no file, clock, environment, random source or device, starts no process or thread, and keeps no state from one call to the next. Not covered are the from-path functions (they read that file), the builder, key generation and signing (randomness or a token), and allowed-signers times without Z (local time zone).',
     ['inputs', 'histories'], 'every sequence of calls in every environment',
     'A test run is one history in one environment; that an earlier call never changes a later result is about all histories.',
     ['src/ssh/*.rs', 'src/x509/*.rs', 'src/fido/parsing.rs', 'src/fido/verification.rs', 'src/yubikey/verification.rs', 'src/utils.rs'],
     [('all public functions of these modules', 'src/ssh')],
     ['effects.pure'],
     'over the call graph (resolved calls, closures, function values, trait implementations, callbacks from library code) no function of the frozen list of public functions reaches an external function with an effect, nor a mutable or interior-mutable static (a once-initialised static is allowed if its initialiser captures nothing)',
     level_note='The effect-freedom of the called library functions is judged by name. HashMap order never reaches encoded output (C05, C16).')

prop('C31', 'Parsing allocates no more than its input warrants, and every round moves on',
     'No parser allocates memory for a length that an attacker merely claims: each explicitly sized allocation is bounded by a constant or by the length of data already held. No loop of a parser can repeat a round that changes nothing its own conditions depend on.',
     ['inputs'], 'every input of the parsing and verification functions',
     'Tests never feed a four-byte input claiming four gigabytes, or inputs on which a loop stands still.',
     ['src/ssh/reader.rs', 'src/ssh/*.rs', 'src/fido/parsing.rs', 'src/fido/verification.rs', 'src/yubikey/verification.rs', 'src/x509/*.rs'],
     [('Reader::read_bytes', 'src/ssh/reader.rs'), ('read_options, read_principals', 'src/ssh/cert.rs'), ('AuthData::parse', 'src/fido/parsing.rs')],
     ['alloc.ssh', 'alloc.attest'],
     'every sized allocation met on any path from the entry points is an obligation on the facts at that point; every round of every loop must change a variable its path conditions mention, by an amount that cannot be zero',
     level_note='A full ranking argument is found for all loops but the option loop of allowed-signers lines, whose tokenizer is analysed on its own. Work inside library calls (such as the number of bcrypt rounds asked for by a key file) is outside.')

prop('C32', 'Reading from a path parses exactly the whole text of that file',
     'Certificate, public key, private key and allowed-signers reading from a path yields exactly what the corresponding from-string function makes of the complete content of the file at that path, with the given passphrase handed on (none if none was given); a file that cannot be opened or read as text is an error and never an empty or partial input.',
     ['inputs', 'fault_sequences'], 'every path, file content and read failure',
     'Tests read a few small well-formed files.',
     ['src/ssh/cert.rs', 'src/ssh/pubkey.rs', 'src/ssh/privkey.rs', 'src/ssh/allowed_signer.rs'],
     [('from_path functions', 'src/ssh')],
     ['paths.read'],
     'each result term is the from-string function applied to the text read to the end from the file opened at the path parameter; each error path carries a failed open or read')

prop('C33', 'Printed certificates, fingerprints and names show their own fields',
     'A certificate prints as its type name, the base64 form of the bytes it was made of, and its key id, so that reading the line back yields the same certificate; its detailed form shows its own type, key and CA fingerprints, key id, serial number, validity (forever only for the full range), all principals, all critical options with their values and all extension names. Fingerprints print as their kind and hash, a verified signature as the signature. Certificate type names are read as their own type and no other; the standard extensions are the five permit-* ones.',
     ['inputs'], 'every certificate, fingerprint and signature',
     'Tests print one or two certificates; certificates with other validity, principals and options are not sampled.',
     ['src/ssh/cert.rs', 'src/ssh/pubkey.rs', 'src/ssh/signature.rs'],
     [('Display for Certificate', 'src/ssh/cert.rs'), ('Display for Fingerprint', 'src/ssh/pubkey.rs')],
     ['text.cert', 'text.small', 'cert.text'],
     'the text written on each path of the Display implementations is compared, part by part, with the text required by the facts of that path')

prop('C34', 'PIV operations act on the device, slot and data they were given',
     'Every operation on a PIV token acts on the opened device and the slot it was given: certificates, keys and attestations are read from and written to that slot unchanged, provisioning generates the key with the given algorithm and policies in that slot under the given name, and certificate requests carry the key, algorithm and signature of that slot. '
     'Unlocking succeeds only if the token accepted both the pin and the management key; no operation reports success when the token refused, or makes the token do anything else.',
     ['inputs', 'configurations', 'fault_sequences'], 'every slot, datum, policy and token answer, in every configuration with PIV support',
     'The test suite has no hardware: these paths run in no test at all.',
     ['src/yubikey/piv/management.rs', 'src/yubikey/piv/ssh.rs'],
     [('Yubikey::unlock, provision, write_certificate, generate_csr', 'src/yubikey/piv/management.rs'), ('Yubikey::ssh_cert_fetch_pubkey', 'src/yubikey/piv/ssh.rs')],
     ['piv.manage', 'sign.piv', 'x509.certificate'],
     'on each path the arguments of every token call are the required terms over the parameters, Ok paths carry the success of every required call, and no other state-changing token call occurs',
     level_note='The functions of the yubikey crate are taken to do what their names say; which of them change the token is judged by name.')

prop('C35', 'Errors name their own cause',
     'An unknown key type or curve is reported with its name, a key that is no certificate and an unknown certificate type (with its number) as just that, an encrypted private key read without a passphrase as encrypted and never otherwise, an unsupported encryption as unsupported, a signature that does not verify as an invalid signature, and a signer that gives none as a signing error. '
     'An error taken over from a lower layer is kept. Every error prints all it carries without stray text, and no two kinds print the same text of their own.',
     ['inputs'], 'every error value, and every input that leads to one',
     'Tests provoke a few errors and print almost none of them.',
     ['src/error.rs', 'src/fido/mod.rs', 'src/yubikey/piv/mod.rs', 'src/ssh/allowed_signer.rs', 'src/ssh/privkey.rs', 'src/ssh/cert.rs', 'src/ssh/keytype.rs'],
     [('Display and From implementations of the error types', 'src/error.rs'), ('errors of the private key container', 'src/ssh/privkey.rs')],
     ['error.text', 'error.from', 'error.kind'],
     'the text of each error variant is compared with its payload; conversions are compared as terms; each path returning one of the named errors must carry the fact it reports, and paths carrying that fact must return it')

prop('C36', 'Equality compares everything, copies keep everything',
     'Two keys, certificates, key types, curves, fingerprints or other values of the library\'s types compare as equal only if every part of them is equal, and always if every part is. A copy of a value has every part of the original.',
     ['inputs'], 'every pair of values, every value copied',
     'Tests compare a few values that are equal or differ everywhere; values that differ in one field only are not sampled.',
     ['src/ssh/*.rs', 'src/fido/*.rs', 'src/error.rs'],
     [('PartialEq and Clone implementations', 'src/ssh/pubkey.rs, src/ssh/cert.rs, src/ssh/privkey.rs')],
     ['value.equal', 'value.copy'],
     'a derived implementation satisfies the rule by construction; in a hand-written one each path returning true must be refuted by the difference of any one field, each path returning false by the equality of all, and every field of a copy must be that field of the original')

na('N01', 'The cryptographic primitives compute what their standards define',
   'Signature verification, signing, hashing, key derivation, encryption and random generation in the libraries used compute the standardised functions.',
   ['inputs'], 'every key, message and signature', 'Test vectors sample.', ['Cargo.toml'], [('calls of ring, aes, ctr, bcrypt-pbkdf, num-bigint', 'src/ssh')],
   'The primitives live in third-party crates, partly in assembly; their functional correctness is an algebraic statement about values that static analysis of this repository cannot reach. The rules take each call as an opaque function of its arguments and check the arguments and the use of the result.')

na('N02', 'Handling secrets takes time independent of their value',
   'The time taken by decoding, decrypting, comparing and signing with private keys does not depend on secret bytes.',
   ['inputs'], 'every pair of secrets', 'Timing is not observed by tests.', ['src/ssh/privkey.rs'], [('private key decoding and signing', 'src/ssh/privkey.rs')],
   'The code makes no such promise (big-integer arithmetic on secrets, early-exit comparisons of check integers and public keys), and what the compiled code and the primitives do at the instruction level is outside a source or MIR analysis.')

na('N03', 'A wrong passphrase never opens an encrypted private key',
   'Decoding an encrypted private key with any passphrase other than the one it was written with fails.',
   ['inputs'], 'every encrypted key and every wrong passphrase', 'Tests try one wrong passphrase.', ['src/ssh/privkey.rs'], [('check integers and public key comparison', 'src/ssh/privkey.rs')],
   'Holds only with overwhelming probability: it is a statement about the output distribution of bcrypt and AES. The deterministic part (no key without equal check integers and equal public keys) is C12.')

na('N04', 'Parsing takes time proportional to its input',
   'The running time of every parser is bounded by a small multiple of the length of its input.',
   ['inputs'], 'every input', 'Tests feed small inputs.', ['src/ssh/*.rs'], [('loops of the parsers; bcrypt rounds of an encrypted key', 'src/ssh/privkey.rs')],
   'Does not hold as stated (an encrypted key names its own number of bcrypt rounds), and the cost of library calls is not visible to the analysis. What can be decided, that allocations are bounded and rounds make progress, is C31.')
