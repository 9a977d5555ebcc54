#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they cannot drift apart."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True

import props  # noqa: E402

S = "src/age/"


def P(id, title, statement, over, text, why, files, mech, level_note="", observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files], mech=mech, note=level_note, observe=list(observe))


IN, HI, FA, CO, PR = "inputs", "histories", "fault_sequences", "configurations", "programs"

TABLE = [
    P("C01", "Payload sealing is the age STREAM construction for every length",
      "For every 32-byte stream key and every payload, the sealed payload is exactly the concatenation of ChaCha20-Poly1305 encryptions (no associated data) of the consecutive 64 KiB slices of the payload, at least one slice, in order, under nonces consisting of the 11-byte big-endian slice number from 0 and a final byte that is 1 for the last slice and 0 for all others. Hence no two slices share a nonce, and exactly the last one is marked. Keys of another length and slice numbers above 2^88-1 are refused.",
      [IN], "all keys, all payloads of every length (in particular every multiple of 64 KiB and the empty payload)",
      "tests seal a few short payloads and one long random one with one length; the chunk arithmetic at every boundary and the uniqueness of nonces quantify over all lengths",
      ["stream.py"], [("chunking and final flag", "stream.stream_encrypt"), ("nonce layout", "stream._pack_nonce"), ("slicing", "stream._chunk")], observe=["return value of stream_encrypt"]),
    P("C02", "Payload opening authenticates every chunk, its position and the end",
      "Opening a payload splits it into consecutive slices of 64 KiB + 16 bytes (at least one), opens slice number i with ChaCha20-Poly1305 under the nonce with counter i and the final byte set for exactly the last one, and returns the concatenation of all plaintexts in order. If any slice fails to authenticate - modified, missing, duplicated, reordered, truncated or appended data, or an empty payload - the whole operation fails and nothing is returned. Keys of another length are refused.",
      [IN], "all keys and all (also malicious) ciphertexts",
      "tests open honest ciphertexts and two or three corruptions; rejection of every truncation at a chunk boundary or reordering is a statement about all ciphertexts",
      ["stream.py"], [("per-chunk authentication", "stream.stream_decrypt"), ("nonce layout", "stream._pack_nonce")], observe=["return value and failure of stream_decrypt"]),
    P("C03", "An encrypted file binds its header and payload to one file key",
      "For every list of recipient keys and every plaintext, a finished encrypted file is: the version line, one stanza per key in order, a footer carrying HMAC-SHA256 of the header text up to and including '---' under HKDF-SHA256(file key, empty salt, 'header'), a newline, a 16-byte nonce, and the sealed plaintext under HKDF-SHA256(file key, that nonce, 'payload'). The same 16-byte file key is used for all stanzas, the header authentication and the payload. Nothing else is written to the output.",
      [IN], "all recipient key lists, plaintexts and random draws",
      "tests decrypt what was encrypted, which cannot notice a MAC over less than the whole header, a wrong label used on both sides, or a nonce that is not bound; all inputs are concerned",
      ["file.py", "format.py", "primitives/hkdf.py", "primitives/hmac.py"], [("header and MAC", "file.Encryptor._write_header"), ("payload", "file.Encryptor._encrypt_buffer"), ("key derivation", "file.Encryptor._hkdf")], observe=["bytes written to the output stream"]),
    P("C04", "No plaintext is released unless the whole header and payload verify",
      "Reading an encrypted file yields plaintext only if the header parses, some identity opens a stanza, the MAC in the footer equals HMAC-SHA256 of the re-serialised header (version line, every stanza including unknown ones, and '---') under the key derived from the recovered file key, a full 16-byte nonce follows, and the payload opens under the key derived from file key and nonce. Stanzas of unknown type are skipped for key recovery but stay covered by the MAC. In every other case the read fails and releases nothing.",
      [IN], "all input files (also malicious) and identity lists",
      "tests cover honest files and a few flipped bytes; that the MAC covers everything and is checked on every path is a statement about all files and all paths",
      ["file.py", "format.py", "primitives/hmac.py"], [("MAC verification", "file.Decryptor._decrypt_header"), ("payload", "file.Decryptor._decrypt_body"), ("serialisation", "format.dump_header")], observe=["return value of Decryptor.read", "exceptions"]),
    P("C05", "Header grammar: version line, stanzas, wrapped bodies, footer",
      "The header writer emits, for every list of stanzas, the version line, per stanza '-> type args' and its body wrapped at 64 columns, and '---' with the unpadded base64 MAC when there is one. The header reader refuses input whose first line is not the version line, whose stanza line has no type, or that ends before a footer line made of exactly '---' and one MAC word; it returns every stanza in order with all arguments and its complete body (all lines, white space at line ends removed), and consumes the stream exactly up to the end of the footer line.",
      [IN], "all stanza lists and all input streams",
      "tests parse two fixed headers; multi-line bodies, missing footers and stream position matter for all files",
      ["format.py", "primitives/encode.py"], [("parser", "format.load_header"), ("serialiser", "format.dump_header")], observe=["parsed header", "stream position", "bytes written"]),
    P("C06", "Any identity that opens any stanza decrypts the file",
      "Given the stanzas of a file in order and a collection of identities, the file key is the result of the first stanza that one of the identities of the type belonging to that stanza opens; a stanza whose opening fails (wrong key, wrong fingerprint, bad authentication tag) never prevents later identities or stanzas from being tried. Only if no identity opens any stanza does the operation fail, with the 'no identity' error. Identities of a type that does not belong to a stanza are never tried on it.",
      [IN, CO], "all stanza lists, all identity collections and all combinations of which of them succeed or fail",
      "tests use one or two stanzas with one key; the combinations of failing and succeeding identities are unbounded",
      ["recipients/helpers.py"], [("matching loop", "recipients.helpers.decrypt_file_key"), ("type filter", "recipients.helpers._filter_keys_for_recipient")], observe=["return value and exception of decrypt_file_key"]),
    P("C07", "Every recipient key gets a stanza of its own type or is refused",
      "For every public key or password of a supported kind the file key is wrapped by the stanza type belonging to exactly that kind of key. A key of an unsupported kind is refused with the 'unknown recipient' error and never skipped silently.",
      [IN, CO], "all kinds of recipient keys", "tests try each supported kind once; the dispatch must be right for the whole registry and for foreign kinds",
      ["recipients/helpers.py", "recipients/base.py"], [("dispatch", "recipients.helpers.generate_recipient_from_key")], observe=["class of the resulting stanza", "exceptions"]),
    P("C08", "X25519 stanza: wrap and unwrap follow the age construction exactly",
      "Wrapping draws a fresh 32-byte ephemeral secret e, publishes e*G and encrypts the file key with ChaCha20-Poly1305 (zero nonce) under HKDF-SHA256(ikm = e*recipient, salt = e*G || recipient, info = 'age-encryption.org/v1/X25519'). Unwrapping recomputes the same key from the identity and the published share and fails, with a value error or a bad tag, unless the tag verifies, the share has 32 bytes and the shared secret is not all zero. The stanza carries the share as its only argument and the wrapped key as its body, both as unpadded base64, and parsing inverts that.",
      [IN], "all keys, file keys and (also malicious) stanzas",
      "tests round-trip, so a construction changed on both sides, a reused or short ephemeral, or an unchecked zero point stays unnoticed",
      ["algorithms/x25519.py", "recipients/x25519.py", "primitives/x25519.py", "primitives/encrypt.py"], [("wrap", "algorithms.x25519.x25519_encrypt_file_key"), ("unwrap", "algorithms.x25519.x25519_decrypt_file_key"), ("stanza codec", "recipients.x25519.X25519Recipient")], observe=["stanza fields", "recovered file key", "failures"]),
    P("C09", "ssh-ed25519 stanza: tweaked X25519 bound to the SSH key",
      "Wrapping converts the Ed25519 key to Curve25519, multiplies it by the tweak HKDF-SHA256(ikm empty, salt = SSH wire encoding, info = 'age-encryption.org/v1/ssh-ed25519', 64 bytes) reduced modulo the group order, and wraps the file key for the tweaked point as for X25519, naming the first 4 bytes of SHA-256 of the SSH wire encoding as fingerprint. Unwrapping refuses a stanza whose fingerprint is not that of the identity, applies the same tweak to the published share, and recovers the key or fails authentication; a share that is not 32 bytes long or of low order is refused with a value error. The stanza carries fingerprint and share as arguments and the wrapped key as body.",
      [IN], "all Ed25519 keys, file keys and stanzas", "round-trip tests do not fix tweak, salt order or fingerprint; all keys are concerned",
      ["algorithms/ssh_ed25519.py", "recipients/ssh_ed25519.py", "keys/ed25519.py"], [("wrap and unwrap", "algorithms.ssh_ed25519"), ("conversion", "keys.ed25519.Ed25519PrivateKey.to_age_private_key"), ("stanza codec", "recipients.ssh_ed25519.SSHED25519Recipient")], observe=["stanza fields", "recovered file key", "failures"]),
    P("C10", "ssh-rsa stanza: OAEP with the age label bound to the SSH key",
      "Wrapping encrypts the file key with RSA-OAEP (MGF1 and hash SHA-256, label 'age-encryption.org/v1/ssh-rsa') and names the first 4 bytes of SHA-256 of the SSH wire encoding of the key as fingerprint. Unwrapping refuses a stanza whose fingerprint is not that of the identity and otherwise decrypts with the same padding and label, failing if the padding is wrong. The stanza carries the fingerprint as its only argument and the wrapped key as body.",
      [IN], "all RSA keys, file keys and stanzas", "round-trip tests cannot see a label, hash or fingerprint changed on both sides",
      ["algorithms/ssh_rsa.py", "recipients/ssh_rsa.py", "primitives/rsa_oaep.py"], [("wrap and unwrap", "algorithms.ssh_rsa"), ("padding", "primitives.rsa_oaep._padding"), ("stanza codec", "recipients.ssh_rsa.SSHRSARecipient")], observe=["stanza fields", "recovered file key", "failures"]),
    P("C11", "scrypt stanza: labelled salt, cost on the wire, cost bounded before work",
      "Wrapping for a password draws a fresh 16-byte salt and encrypts the file key with ChaCha20-Poly1305 (zero nonce) under scrypt(password, 'age-encryption.org/v1/scrypt' || salt, N = 2^cost, r = 8, p = 1), with cost 18 unless told otherwise, and writes salt and cost as arguments. Unwrapping uses the salt and cost of the stanza. A cost below 0 or above 22 is refused on both sides before any key derivation is started.",
      [IN], "all passwords, salts, costs and stanzas", "tests try three costs; the bound must hold before the expensive work for every stanza an attacker may send",
      ["algorithms/scrypt.py", "recipients/scrypt.py", "primitives/scrypt.py"], [("bound and derivation", "algorithms.scrypt.scrypt_decrypt_file_key"), ("wrap", "algorithms.scrypt.scrypt_encrypt_file_key"), ("stanza codec", "recipients.scrypt.SCryptRecipient")], observe=["stanza fields", "calls of scrypt", "failures"]),
    P("C12", "Every secret is a fresh, independent draw from the system CSPRNG",
      "Each encrypted file draws its own file key and its own payload nonce, and each stanza its own ephemeral secret or salt, of the full length, from the operating system's random generator (or the key generator of the crypto library); no draw is used for two purposes, two stanzas or two files, cached, or derived from anything else. No other source of randomness is used anywhere in the package.",
      [IN, HI], "all sequences of encryptions within a process, all recipient lists", "no finite number of samples shows independence of draws; a cached or shortened value passes every round-trip test",
      ["primitives/random.py", "file.py", "algorithms/x25519.py", "algorithms/scrypt.py"], [("randomness", "primitives.random.random"), ("file key and nonce", "file.Encryptor"), ("ephemeral", "algorithms.x25519.x25519_encrypt_file_key"), ("salt", "algorithms.scrypt.scrypt_encrypt_file_key")], observe=["arguments and results of os.urandom as they reach the output"]),
    P("C13", "Stanza registry and codecs are exhaustive",
      "A stanza line of type X25519, ssh-ed25519, ssh-rsa or scrypt is turned into the stanza class of exactly that type with all of its arguments decoded from unpadded base64 (the scrypt cost from decimal); any other type is reported as unknown, and a stanza with missing arguments fails. When a file is read, only stanzas of unknown type are passed over; a malformed stanza of a known type makes reading fail. Type names are compared exactly.",
      [IN], "all stanza types, argument lists and bodies", "tests parse one example per type",
      ["recipients/helpers.py", "recipients/x25519.py", "recipients/ssh_ed25519.py", "recipients/ssh_rsa.py", "recipients/scrypt.py"], [("dispatch", "recipients.helpers.get_recipient"), ("codecs", "load methods of the stanza classes")], observe=["resulting stanza", "exceptions"]),
    P("C14", "Recipient strings resolve completely or not at all",
      "Every recipient string is resolved, after removing surrounding white space, in the order alias, github: link, file, http(s) URL, age key, ssh-rsa key, ssh-ed25519 key; an alias yields the keys of all its entries in order or fails if one of them cannot be resolved; a file or URL yields the keys of all its lines in order. Malformed keys raise an error and are never dropped, and a string of no known form yields no key at all. The alias file maps each label to all keys of all its lines, ignoring blank lines and comments.",
      [IN, CO], "all recipient strings, alias tables, file and URL contents", "tests resolve a handful of strings with mocked files",
      ["keyloader.py"], [("resolution", "keyloader.resolve_public_key"), ("aliases", "keyloader.load_aliases")], observe=["list of resolved keys", "exceptions"]),
    P("C15", "Contents of files and URLs cannot cause further lookups",
      "Lines read from a recipients file or from a URL are only ever interpreted as literal public keys: they never trigger an alias lookup, opening of a file or a network request. The network is contacted only for a recipient that itself is an http(s) URL or a github: link, and github: links go to https://github.com/NAME.keys. An HTTP error status makes resolution fail instead of its body being used as keys.",
      [IN, CO], "all contents of recipient files, URL responses and recipient strings", "absence of an effect (opening, fetching) on every path cannot be sampled",
      ["keyloader.py"], [("resolution flags", "keyloader.resolve_public_key")], observe=["calls that open files or fetch URLs, with their arguments"]),
    P("C16", "Encryption on the command line fails closed",
      "For every combination of options, 'encrypt' either exits with failure before anything is written, or writes the file encrypted to all requested recipients plus the password if asked for; it refuses to run when a recipient cannot be resolved, when there is no recipient, or when binary output would go to a terminal. It encrypts the complete input, and with the armor option the output is one complete PEM block that is finished before success is reported. A failed run never exits with status 0.",
      [IN, CO, FA], "all options, recipient lists, inputs and failing lookups", "tests mock everything and try single recipients; silent omission of a recipient is a statement about all lists",
      ["cli.py", "utils/asciiarmor.py", "file.py"], [("command", "cli.encrypt")], observe=["bytes written to the output", "exit status"]),
    P("C17", "CLI decryption uses all identities and releases only verified data",
      "'decrypt' tries the default identity file, the SSH keys, every given key file and, if asked for, the password, refuses to run without any identity, and writes to the output exactly the complete plaintext of the (optionally armored) input. If anything fails, including a missing or duplicated armor section, nothing is written to the output and the status is not 0.",
      [IN, CO, FA], "all options, key files and inputs", "tests mock the key loaders and decrypt a single message",
      ["cli.py", "utils/asciiarmor.py", "file.py"], [("command", "cli.decrypt")], observe=["bytes written to the output", "exit status"]),
    P("C18", "Bech32 encoding and decoding follow the checksum and case rules",
      "Encoding yields the lower-case human-readable part, '1', the data in 5-bit groups padded with zero bits and the six-symbol Bech32 checksum (constant 1) over both. Decoding accepts exactly strings of printable ASCII in a single case, with a non-empty human-readable part, valid symbols and a valid checksum, and refuses non-zero or excess padding bits; it returns the part and the bytes. Everything else raises a value error.",
      [IN], "all strings and byte strings", "tests use published vectors only; acceptance of exactly the valid strings quantifies over all strings",
      ["primitives/bech32.py"], [("codec", "primitives.bech32.bech32_encode / bech32_decode")], observe=["return values and exceptions"]),
    P("C19", "Textual age keys identify exactly one key",
      "A secret key string is accepted exactly if it is a Bech32 string with the human-readable part 'age-secret-key-' and 32 bytes of data, and a public key string exactly if its part is 'age' and the data is a valid 32-byte point encoding; anything else is refused. Writing a key yields the corresponding string (upper case for secret keys) so that reading it again gives the same key. New keys come from the key generator of the crypto library.",
      [IN], "all key strings and keys", "tests read and write two fixed keys",
      ["keys/agekey.py"], [("codec", "keys.agekey.AgePrivateKey / AgePublicKey")], observe=["return values and exceptions"]),
    P("C20", "OpenSSH private key files are accepted only if every check passes",
      "An OpenSSH private key file is accepted only if it has the right armor label and magic, exactly one key, an encrypted part that is exactly the rest of the file, matching check values, a known key type, and the exact padding 1,2,3,... to the end; truncated fields are refused everywhere. Encrypted keys need a passphrase and use bcrypt with the salt and rounds of the file to derive key and IV for AES-CTR with the named key size, unencrypted ones are taken as they are; unknown ciphers and key derivations are refused.",
      [IN], "all key files (also malformed ones) and passphrases", "tests load a dozen valid files",
      ["openssh_keys.py", "utils/asciiarmor.py"], [("container", "openssh_keys.load_openssh_private_key"), ("decryption", "openssh_keys._decrypt_key"), ("fields", "openssh_keys._sshbuf_get_cstring")], observe=["returned key", "exceptions"]),
    P("C21", "OpenSSH key material is taken from the right fields",
      "From the private part of an OpenSSH key, each RSA, DSA, ECDSA and Ed25519 component is taken from the field the format defines for it, big-endian and non-negative; negative numbers, unsupported curves and Ed25519 keys whose public half is inconsistent are refused. The key returned is the one made of exactly these components.",
      [IN], "all key contents", "tests load one valid key per type; swapped or ignored fields may still load",
      ["openssh_keys.py"], [("field order", "openssh_keys._deserialize_*_private_key"), ("numbers", "openssh_keys._sshbuf_get_bignum2")], observe=["components of the returned key", "exceptions"]),
    P("C22", "Identity files are loaded completely, in order, from the documented places",
      "An identity file yields one identity per line that is not blank or a comment, in order; a malformed line makes loading fail, and a missing file yields none. SSH identities are collected from every id_* file in the SSH directory; a file that is unusable is skipped without losing the others, and RSA and Ed25519 keys become identities of their own kind. Default places are ~/.config/age/keys.txt and ~/.ssh.",
      [IN, CO], "all file contents, directory listings and failures while loading single files", "tests mock three files",
      ["keyloader.py"], [("identity file", "keyloader.load_keys_txt"), ("SSH keys", "keyloader.load_ssh_keys, load_ssh_private_key")], observe=["list of identities", "exceptions"]),
    P("C23", "ASCII armor is written canonically and read strictly",
      "Armor consists of the BEGIN line, the padded base64 text in lines of 64 characters, and the END line, and reading it back returns the same bytes. The reader yields the sections in order, ignores text outside of them, and refuses invalid labels, an END line with another label, a missing END line, invalid base64, and (in strict mode) lines longer than 64 characters or short lines that are not last; an armored age file must contain exactly one section with the age label. Output is complete once the writer is closed.",
      [IN], "all data, labels and texts", "tests armor a few random strings and three malformed ones",
      ["utils/asciiarmor.py"], [("reader", "utils.asciiarmor.read_ascii_armored"), ("writer", "utils.asciiarmor.write_ascii_armored"), ("streams", "utils.asciiarmor.AsciiArmoredInput / AsciiArmoredOutput")], observe=["sections", "bytes written", "exceptions"]),
    P("C24", "Secrets never appear in diagnostics",
      "The printed form of an identity shows at most its type and public part, and that of a password only its type; nothing the package writes to the error stream or puts into an exception it raises depends on private key bytes, passwords, passphrases or file keys. The password prompt does not echo.",
      [IN, FA], "all keys, passwords and error paths", "absence of a flow on every path cannot be sampled",
      ["keys/agekey.py", "keys/ed25519.py", "keys/rsa.py", "keys/password.py", "cli.py", "keyloader.py"], [("printed forms", "__repr__/__str__ of key classes"), ("messages", "cli, keyloader, openssh_keys")], observe=["printed forms", "error stream", "exception values"]),
    P("C25", "Key equality means equal key material, and hashes agree",
      "Two keys of the same kind are equal exactly if their encodings are equal, keys of different kinds are never equal, and equal keys have equal hashes.",
      [IN], "all pairs of keys", "tests compare a few keys", ["keys/agekey.py", "keys/ed25519.py", "keys/rsa.py"], [("equality and hash", "__eq__/__hash__ of key classes")], observe=["results of == and hash()"]),
    P("C26", "Encrypting and armoring writers follow the stream protocol",
      "The result of writing a payload in any number of pieces is that of writing it at once, and every write reports the number of bytes taken. Closing finishes the output exactly once, closing again writes nothing, writing after closing is refused, and neither closes the underlying stream nor writes to it afterwards.",
      [IN, HI], "all sequences of writes and closes", "tests write once and close once",
      ["file.py", "utils/asciiarmor.py"], [("typestate", "file.Encryptor.write/close, utils.asciiarmor.AsciiArmoredOutput.write/close")], observe=["bytes written after each call", "exceptions"]),
    P("C27", "Operations do not share or modify each other's state",
      "Headers and stanzas created separately never share their lists, operations leave the key lists, alias tables and stanzas passed to them unchanged, what they return is the caller's own to change, and running an operation a second time in the same process behaves like the first time. ",
      [HI, IN], "all sequences of operations in one process", "tests run each operation once in a fresh setting",
      ["format.py", "file.py", "keyloader.py", "cli.py"], [("constructors", "format.Header, format.Recipient"), ("callers", "file.Encryptor, keyloader.resolve_public_key")], observe=["arguments after the call", "results of a second call"]),
    P("C28", "Key generation writes a matching, freshly generated pair",
      "'generate' writes exactly three lines: the creation time as a comment, the public key as a comment, and the secret key, both belonging to one freshly generated key, to the given output or standard output. It completes also when the output has no file descriptor.",
      [IN, CO], "all generated keys, times and outputs", "tests mock randomness and time and compare one output", ["cli.py", "keys/agekey.py"], [("command", "cli.generate")], observe=["text written"]),
    P("C29", "SSH wire encodings and fingerprints are those of OpenSSH",
      "The binary encoding of an SSH public key is the base64 field of its OpenSSH text; only keys of the class's own type are accepted. Fingerprints are the MD5 (colon-separated hex) or SHA-256 (unpadded base64) of that encoding with the algorithm's name in front, other algorithm names are refused, and the fingerprint line shows size, fingerprint, comment and type.",
      [IN], "all SSH public keys, algorithms and comments", "tests compare two keys", ["keys/ed25519.py", "keys/rsa.py"], [("encoding", "binary_encoding"), ("fingerprint", "fingerprint, fingerprint_line")], observe=["return values and exceptions"]),
    P("C30", "Primitives have the documented algorithms and parameters",
      "HKDF is HKDF-SHA256 of RFC 5869 with the given salt, label, key and length; HMAC is HMAC-SHA256 and its verification accepts exactly the right tag; the hash is SHA-256; file key encryption is ChaCha20-Poly1305 with the all-zero nonce and no associated data; scrypt uses r=8, p=1 and 32 bytes; RSA uses OAEP with SHA-256 throughout; X25519 rejects the all-zero result. The text encoding is base64 without padding and its decoding inverts it.",
      [IN], "all inputs of the primitives", "published vectors fix a few points only", ["primitives/hkdf.py", "primitives/hmac.py", "primitives/hashes.py", "primitives/encrypt.py", "primitives/encode.py", "primitives/scrypt.py", "primitives/rsa_oaep.py", "primitives/x25519.py"], [("primitives", "primitives.*")], observe=["return values and exceptions"]),
    P("C31", "Command line options reach the operation they name",
      "For each command, every documented option and argument is passed to the operation under its own meaning: -i input file (opened for reading bytes), -o output file (opened for writing), -p/--password asks for a password, -a/--ascii selects armor, and all positional arguments are recipients (encrypt) or key files (decrypt). No option is dropped, swapped or always on.",
      [CO, IN], "all combinations of options and arguments", "tests call the operations directly, not through the option parser", ["cli.py"], [("option tables", "cli.cli_encrypt, cli.cli_decrypt, cli.cli_generate")], observe=["arguments the operations receive"]),
    P("C32", "Reading in pieces equals reading at once",
      "For the decrypting and the de-armoring reader, the concatenation of any sequence of reads is a prefix of the complete plaintext, a read without size returns all that is left, and a read at the end returns nothing.",
      [IN, HI], "all plaintexts and sequences of read sizes", "tests read once", ["file.py", "utils/asciiarmor.py"], [("buffering", "file.Decryptor.read, utils.asciiarmor.AsciiArmoredInput.read")], observe=["return values of read"]),
    P("C33", "Standard output carries only the result",
      "Standard output is never used for anything but what was asked for: ciphertext, plaintext, or (for 'generate') the key text. The passphrase prompt, notices about ignored or unresolved recipients and unusable keys, warnings and error messages go elsewhere, on success and on failure; no library operation (parsing, key loading, recipient resolution, wrapping, unwrapping, armoring, reading or writing files) writes to standard output at all.",
      [CO, PR, IN], "all invocations, inputs and failures", "tests compare standard output only for a few successful runs with the operations mocked", ["cli.py", "file.py", "keyloader.py", "keys/*.py"],
      [("messages", "cli.encrypt, cli.decrypt, keyloader.*, file.*"), ("prompt", "cli.encrypt, cli.decrypt")], observe=["bytes on standard output"]),
    P("C34", "SSH key pairs are loaded with the given passphrase and belong together",
      "Loading an SSH private key from PEM data uses the passphrase it was given, for the standard PEM formats and, when those do not apply (value error), for the OpenSSH format; a wrong passphrase or a missing one is reported, never ignored, and a key of the other algorithm is refused by the class it does not belong to. The public half of a private key is the one of that very key. Generated keys are fresh each time, RSA keys with exponent 65537 and the requested size (4096 bits by default).",
      [IN, FA], "all PEM data, passphrases, keys and sizes", "tests load two unencrypted sample keys", ["keys/ed25519.py", "keys/rsa.py", "keyloader.py"],
      [("loading", "keys.ed25519.Ed25519PrivateKey.from_pem, keys.rsa.RSAPrivateKey.from_pem, keyloader.load_ssh_private_key"), ("pairs", "public_key, generate")], observe=["keys returned and exceptions"]),
    P("C35", "Key generation warns about files others can access",
      "'generate' prints a warning to standard error exactly when the output that receives the secret key is a regular file whose permissions give group or others any of read, write or execute; nothing of the kind for files only the owner can access, terminals, pipes and directories. The permissions are those of that very output. The public key of the new key is shown on standard error unless the key pair itself goes to the terminal.",
      [IN, CO], "all permission bits and kinds of output", "tests do not look at the standard error of generate for different permissions", ["cli.py"], [("warning", "cli.generate")], observe=["messages on standard error"]),
    P("N01", "Secret-dependent operations take constant time",
      "Comparisons and derivations on secret data take a time independent of the data.", [IN], "all secrets",
      "needs timing of the interpreter and native libraries", ["primitives/hmac.py", "algorithms/ssh_rsa.py"], [("tag comparison", "primitives.hmac.HMAC.verify")]),
    P("N02", "Memory use is bounded by the chunk size",
      "Encrypting and decrypting need memory independent of the size of the data.", [IN], "all payload sizes",
      "a resource bound; the package buffers the whole payload by design, so it does not hold", ["file.py"], [("buffering", "file.Encryptor.write")]),
    P("N03", "Files are interchangeable with other age implementations",
      "Every file written by the package is readable by other implementations of the same format version and vice versa.", [IN, PR], "all files and all other implementations",
      "quantifies over foreign programs", ["file.py", "format.py"], [("format", "format.dump_header, format.load_header")]),
    P("N04", "Secrets are erased from memory after use",
      "File keys, private keys and passwords do not stay in memory after the operation that needed them.", [HI], "all runs",
      "object lifetime is decided by the interpreter", ["file.py"], [("file key", "file.Encryptor")]),
]

NA = {
    "N01": "timing depends on the interpreter, hardware and native libraries; no static argument over the Python source bounds it",
    "N02": "a resource bound over run-time quantities; the package buffers whole payloads by design, so the property does not hold and no source-level rule could establish it",
    "N03": "quantifies over other programs that are not in the sandbox; the part that is decidable from this source (the format itself) is C01-C13",
    "N04": "object lifetime and copies of immutable bytes are up to the Python runtime; not decidable from the source",
}

NOTE = ("whole-program value-flow analysis of the source on every run (no execution); equality of normal forms with the reference is "
        "decided for all inputs at once. Assumes library summaries (vfa/lib.py) and annotated argument types; formulations the analysis "
        "cannot follow are reported as undecided in the evidence, not as violations")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in TABLE:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in TABLE:
        if p["id"] in props.PROPS:
            tech = props.PROPS[p["id"]].get("technique", "static value-flow analysis (abstract interpretation of the syntax tree) against a reference summary")
            checks.append({"property": p["id"], "quick_cmd": "/usr/bin/python3 checks/run.py " + p["id"],
                           "thorough_cmd": "/usr/bin/python3 checks/run.py " + p["id"] + " --thorough",
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": "other",
                           "level_note": p["note"] or NOTE})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Checks need only /usr/bin/python3 and read /repo's working tree. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
