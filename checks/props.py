from core import Rule, Scenario
import randomness
from provenance import Places
from silence import Silent
from warns import Warns
from taint import Diagnostics

HLP = "age.recipients.helpers."
STREAM = dict(opaque=("age.stream.stream_encrypt", "age.stream.stream_decrypt"), types={"age.stream.stream_encrypt": "b", "age.stream.stream_decrypt": "b"},
              raises={"age.stream.stream_encrypt": ["!AssertionError"], "age.stream.stream_decrypt": ["!InvalidTag", "!AssertionError"]})
GEN = dict(alt=(STREAM,), opaque=(HLP + "generate_recipient_from_key",), types={HLP + "generate_recipient_from_key": "o:age.recipients.base.Recipient"},
           raises={HLP + "generate_recipient_from_key": ["!UnknownRecipient"]})
READ = dict(alt=(STREAM,), opaque=("age.format.load_header", HLP + "get_recipient", HLP + "decrypt_file_key"),
            types={HLP + "get_recipient": "o:age.recipients.base.Recipient", HLP + "decrypt_file_key": "b", "age.format.load_header": "t:(o:age.format.Header,b)"},
            raises={HLP + "get_recipient": ["!UnknownRecipient", "!ValueError"]})
DEC = [R + ".decrypt" for R in ("age.recipients.x25519.X25519Recipient", "age.recipients.ssh_ed25519.SSHED25519Recipient",
                                "age.recipients.ssh_rsa.SSHRSARecipient", "age.recipients.scrypt.SCryptRecipient")]
MATCH = dict(aspects=("ok", "ret", "raise:NoIdentity"), opaque=tuple(DEC), types={q: "b" for q in DEC},
             raises={q: ["!InvalidTag", "!ValueError"] for q in DEC})
B32 = "age.primitives.bech32.bech32_"
BECH = dict(opaque=(B32 + "encode", B32 + "decode"), types={B32 + "encode": "s", B32 + "decode": "t:(s,b)"})
K = "age.keys."
LITERAL = [K + "agekey.AgePublicKey.from_public_string", K + "rsa.RSAPublicKey.from_ssh_public_key", K + "ed25519.Ed25519PublicKey.from_ssh_public_key"]
LOADT = {q: "o:" + q.rsplit(".", 1)[0] for q in LITERAL}
RES = dict(opaque=tuple(LITERAL), types=LOADT, raises={q: ["ValueError"] for q in LITERAL})
LD = "age.keyloader."
IDS = dict(opaque=(K + "agekey.AgePrivateKey.from_private_string", "age.openssh_keys.load_openssh_private_key"),
           types={K + "agekey.AgePrivateKey.from_private_string": "o:age.keys.agekey.AgePrivateKey"},
           raises={K + "agekey.AgePrivateKey.from_private_string": ["!ValueError"],
                   "age.openssh_keys.load_openssh_private_key": ["!InvalidKeyFile", "!WrongPassphrase", "!NotImplementedError"]})
PEM = dict(opaque=("age.openssh_keys.load_openssh_private_key",), raises={"age.openssh_keys.load_openssh_private_key": ["!InvalidKeyFile", "!WrongPassphrase", "!NotImplementedError"]})
SSHS = dict(opaque=(LD + "load_ssh_private_key",), types={LD + "load_ssh_private_key": "?:" + K + "base.DecryptionKey"}, raises={LD + "load_ssh_private_key": ["!Exception"]})
PLACES = dict(opaque=(LD + "load_ssh_private_key", K + "agekey.AgePrivateKey.from_private_string"))
CLIO = [LD + n for n in ("load_aliases", "resolve_public_key", "load_keys_txt", "load_ssh_keys")]
CLI = dict(opaque=tuple(CLIO + [HLP + "generate_recipient_from_key", HLP + "decrypt_file_key", HLP + "get_recipient", "age.format.load_header", "age.stream.stream_encrypt", "age.stream.stream_decrypt", "age.utils.asciiarmor.read_ascii_armored"]),
           types={"age.format.load_header": "t:(o:age.format.Header,b)", LD + "resolve_public_key": "l:o:age.keys.base.EncryptionKey", LD + "load_keys_txt": "l:o:age.keys.base.DecryptionKey",
                  LD + "load_ssh_keys": "l:o:age.keys.base.DecryptionKey", HLP + "generate_recipient_from_key": "o:age.recipients.base.Recipient",
                  HLP + "decrypt_file_key": "b", HLP + "get_recipient": "o:age.recipients.base.Recipient", "age.stream.stream_encrypt": "b", "age.stream.stream_decrypt": "b", "age.utils.asciiarmor.read_ascii_armored": "l:t:(s,b)"},
           bags=((HLP + "decrypt_file_key", 1),),
           raises={LD + "resolve_public_key": ["!ValueError"], HLP + "get_recipient": ["!UnknownRecipient"]})
KEYLISTS = {k: {**IDS[k], **SSHS[k]} if isinstance(IDS[k], dict) else IDS[k] + SSHS[k] for k in IDS}
ARMOR = dict(opaque=("age.utils.asciiarmor.read_ascii_armored",), types={"age.utils.asciiarmor.read_ascii_armored": "l:t:(s,b)"})

SSH = dict(stubs={"age.utils.asciiarmor.read_ascii_armored": "stub_armor"})

PROPS = {
    "C01": {"checks": [Scenario("payload", "seal")]},
    "C02": {"checks": [Scenario("payload", "open")]},
    "C03": {"checks": [Scenario("header", n, ("ok", "out:OUT"), **GEN) for n in ("write", "write_two")]},
    "C04": {"checks": [Scenario("header", "read", ("ok", "ret"), **READ), Scenario("header", "load", ("ok", "ret")), Scenario("payload", "open")]},
    "C05": {"checks": [Scenario("header", "load", ("ok", "ret")), Scenario("header", "dump", ("ok", "out:OUT"))]},
    "C08": {"checks": [Scenario("wrap", n) for n in ("x25519_wrap", "x25519_alg", "x25519_unwrap")]},
    "C09": {"checks": [Scenario("wrap", n) for n in ("ed25519_wrap", "ed25519_unwrap", "ed25519_convert")]},
    "C10": {"checks": [Scenario("wrap", n) for n in ("rsa_wrap", "rsa_unwrap")]},
    "C11": {"checks": [Scenario("wrap", n, ("ok", "ret", "event:scrypt")) for n in ("scrypt_wrap", "scrypt_wrap_cost", "scrypt_unwrap")]},
    "C06": {"checks": [Scenario("match", n, **MATCH) for n in ("x25519", "ed25519", "rsa", "scrypt", "mixed", "mixed4", "keys")]
            + [Scenario("match", "one_" + n, ("ok", "ret", "raise:NoIdentity")) for n in ("x25519", "ed25519", "rsa", "scrypt")]},
    "C07": {"checks": [Scenario("match", "gen", ("ok", "ret", "raise:UnknownRecipient")), Scenario("header", "write", ("ok", "raise:UnknownRecipient"), **GEN),
                       Scenario("header", "write_two", ("ok", "raise:UnknownRecipient"), **GEN)]},
    "C13": {"checks": [Scenario("match", "parse", ("ok", "ret", "raise:UnknownRecipient")), Scenario("match", "redump"), Scenario("match", "redump_scrypt"), Scenario("header", "read", **READ)]
            + [Scenario("wrap", n) for n in ("x25519_unwrap", "ed25519_unwrap", "rsa_unwrap", "scrypt_unwrap")]},
    "C18": {"checks": [Scenario("agekey", "encode"), Scenario("agekey", "decode", ("ok", "ret", "raise:ValueError"))]},
    "C19": {"checks": [Scenario("agekey", n, **BECH) for n in ("read_private", "read_public", "write_private", "write_public", "generate")]},
    "C25": {"checks": [Scenario("agekey", n, **BECH) for n in ("eq_public", "eq_private", "hash_public", "hash_private")]
            + [Scenario("sshkey", n) for n in ("eq_ed", "eq_rsa", "hash_ed", "hash_rsa", "eq_kinds")]},
    "C29": {"checks": [Scenario("sshkey", n) for n in ("ed_blob", "rsa_blob", "ed_load", "rsa_load", "ed_print", "rsa_print", "defaults")]},
    "C14": {"checks": [Scenario("loading", n, **RES) for n in ("line", "direct", "alias")] + [Scenario("loading", "aliases")]
            + [Scenario("agekey", "read_public", **BECH)] + [Scenario("sshkey", n) for n in ("ed_load", "rsa_load")]},
    "C22": {"checks": [Scenario("loading", "keys_txt", **IDS), Scenario("loading", "ssh_key", **IDS), Scenario("loading", "ssh_keys", **SSHS),
                       Scenario("loading", "places", **PLACES), Scenario("agekey", "read_private", **BECH)]},
    "C15": {"checks": [Scenario("loading", n, ("ok", "event:requests.get", "event:open"), **RES) for n in ("line", "direct", "alias")]
            + [Places("loading", "direct", **RES)]},
    "C16": {"checks": [Scenario("cliuse", n, ("ok", "out:OUT", "errout:OUT", "exit0"), **CLI) for n in ("encrypt", "encrypt_armor", "encrypt_nobody")]
            + [Scenario("cliuse", n, ("ok", "out:sys.stdout.buffer", "errout:sys.stdout.buffer", "exit0"), **CLI) for n in ("encrypt_std", "encrypt_tty")]},
    "C17": {"checks": [Scenario("cliuse", "decrypt", ("ok", "out:OUT", "errout:OUT", "exit0"), **CLI),
                       Scenario("cliuse", "decrypt_armor", ("ok", "out:OUT", "errout:OUT", "exit0"), **CLI),
                       Scenario("cliuse", "decrypt_std", ("ok", "out:sys.stdout.buffer", "errout:sys.stdout.buffer", "exit0"), **CLI),
                       Scenario("armor", "input", **ARMOR), Scenario("payload", "open")]},
    "C23": {"checks": [Scenario("armor", n) for n in ("read_strict", "read_loose")]
            + [Scenario("armor", n, ("ok", "out:OUT", "errout:OUT")) for n in ("write", "output")] + [Scenario("armor", "input", **ARMOR)]},
    "C28": {"checks": [Scenario("cliuse", "generate", ("ok", "out:OUT"), **BECH), Scenario("cliuse", "generate_std", ("ok", "out:sys.stdout"), **BECH)]},
    "C20": {"checks": [Scenario("openssh", n, ("ok", "ret", "raise:WrongPassphrase"), **SSH) for n in ("count", "length", "trailing", "check", "padding", "plain", "locked",
                       "short_comment", "short_number", "short_cipher", "short_public", "short_count", "magic", "magic_near", "cipher", "meta")]
            + [Scenario("openssh", "aes%d" % n, ("ok", "ret", "event:cipher", "raise:WrongPassphrase"),
                        stubs={"age.utils.asciiarmor.read_ascii_armored": "stub_armor", "cipher": "stub_plain"}) for n in (128, 192, 256)]
            + [Scenario("openssh", n, ("ok",) + ("ret",) * (n == "label"), stubs={"age.utils.asciiarmor.read_ascii_armored": s}, label=n + " " + s)
               for n, s in (("label", "stub_two"), ("label", "stub_one"), ("nolabel", "stub_none"), ("nolabel", "stub_empty"))]},
    "C21": {"checks": [Scenario("openssh", "key_" + n, ("ok", "ret", "raise:NotImplementedError"), **SSH) for n in ("rsa", "dsa", "ecdsa", "ed25519", "other")]},
    "C30": {"checks": [Scenario("prims", n) for n in ("hkdf", "hmac", "verify", "valid", "sha256", "encrypt", "decrypt", "scrypt", "rsa_encrypt", "rsa_decrypt",
                       "mult", "base", "reduce", "text", "untext", "decode", "random")]
            + [Scenario("prims", n, ("ok", "raise:TypeError")) for n in ("encode_type", "decode_type")]},
    "C26": {"checks": [Scenario("streams", n, ("ok", "ret", "out:OUT", "closed:OUT"), **GEN) for n in ("pieces", "reuse", "many", "again", "late", "open", "with",
                       "apieces", "areuse", "amany", "aagain", "alate", "both")] + [Scenario("streams", "aopen", ("ok", "ret", "quiet:OUT"))]},
    "C32": {"checks": [Scenario("streams", n, **READ) for n in ("reads", "readable", "each")] + [Scenario("streams", n, **ARMOR) for n in ("areads", "areadable", "aeach")]},
    "C31": {"checks": [Scenario("options", c + "_" + n, ("ok", "out:OUT", "errout:OUT", "exit0", "event:click.prompt"), **CLI) for c in ("encrypt", "decrypt") for n in ("all", "long", "out")]
            + [Scenario("options", c + "_" + n, ("ok", "out:sys.stdout.buffer", "errout:sys.stdout.buffer", "exit0"), **CLI) for c, n in (("encrypt", "in"), ("decrypt", "in"), ("decrypt", "none"))]
            + [Scenario("options", "encrypt_none", ("ok", "exit0"), **CLI)]
            + [Scenario("options", n, ("ok", "out:OUT"), **BECH) for n in ("generate", "generate_long")]
            + [Scenario("options", "generate_std", ("ok", "out:sys.stdout"), **BECH)]},
    "C33": {"technique": "static effect analysis over value-flow terms (abstract interpretation of the syntax tree): output of every operation to standard output",
            "checks": [Silent("cliuse", n, **CLI) for n in ("encrypt", "encrypt_armor", "encrypt_nobody", "decrypt", "decrypt_armor")]
            + [Silent("cliuse", n, ("sys.stdout",), **CLI) for n in ("encrypt_std", "encrypt_tty", "decrypt_std")] + [Silent("cliuse", "generate", **BECH)]
            + [Silent("header", "write", **GEN), Silent("header", "read", **READ), Silent("payload", "open"), Silent("payload", "seal")]
            + [Silent("loading", "keys_txt", **IDS), Silent("loading", "ssh_key", **IDS), Silent("loading", "ssh_keys", **SSHS), Silent("loading", "direct", **RES), Silent("loading", "aliases")]
            + [Silent("wrap", n) for n in ("x25519_wrap", "x25519_unwrap", "ed25519_wrap", "ed25519_unwrap", "rsa_wrap", "rsa_unwrap", "scrypt_wrap", "scrypt_unwrap")]
            + [Silent("match", "mixed4", **MATCH), Silent("match", "parse"), Silent("openssh", "plain", **SSH), Silent("openssh", "key_ed25519", **SSH), Silent("armor", "read_strict"), Silent("agekey", "decode")]},
    "C34": {"checks": [Scenario("sshkey", n, ("ok", "ret", "raise:WrongPassphrase", "raise:TypeError"), **PEM) for n in ("ed_pem", "rsa_pem", "ed_pem_plain", "rsa_pem_plain")]
            + [Scenario("sshkey", n) for n in ("halves", "fresh", "fresh_rsa")] + [Scenario("loading", "ssh_key", ("ok", "ret", "raise:WrongPassphrase"), **IDS)]},
    "C35": {"technique": "static value-flow analysis of the syntax tree: messages as terms over the mode of the output, compared for all permission bits",
            "checks": [Warns("cliuse", n, o, **BECH) for n, o in (("generate", "OUT"), ("generate_std", "sys.stdout"))]},
    "C12": {"checks": [Rule(randomness.sources)] + [Scenario("state", "draw_" + n) for n in ("x25519", "ed25519", "scrypt", "same", "same_ed25519", "same_password", "dumped")] + [Scenario("state", "draw_keys", **BECH)]
            + [Scenario("state", "draw_file", ("ok", "out:OUT", "out:OUT2"), **GEN)]},
    "C27": {"checks": [Scenario("state", n) for n in ("headers", "stanzas", "loads", "alias_tables", "parsed")]
            + [Scenario("state", "keys", **GEN), Scenario("state", "ids", **READ), Scenario("state", "dumped", ("ok", "ret", "out:OUT"))]
            + [Scenario("state", "key_lists", **KEYLISTS), Scenario("state", "recipient_lists", **RES)]
            + [Scenario("state", "resolved", **RES), Scenario("state", "resolve2", **RES), Scenario("state", "decrypt2", **READ)]
            + [Scenario("state", n, ("ok", "out:OUT", "out:OUT2"), **GEN) for n in ("encrypt2", "interleaved")]},
    "C24": {"technique": "static taint analysis over value-flow terms (abstract interpretation of the syntax tree): secrets to diagnostics", "checks": [Diagnostics("secrets", "show_" + n, ("SEC",), ret=True, sizes=n != "password") for n in ("password", "age", "ed25519", "rsa")]
            + [Diagnostics("loading", n, files=True, **IDS) for n in ("keys_txt", "ssh_key")]
            + [Diagnostics("secrets", "show_keys", ("P", "K"), ret=True)]
            + [Diagnostics("secrets", n, ("SEC",)) for n in ("read_private", "wrong_secret", "unwrap_x25519")]
            + [Diagnostics("wrap", n, ("FK", "SEC", "PW")) for n in ("x25519_wrap", "x25519_unwrap", "ed25519_wrap", "ed25519_unwrap", "rsa_wrap", "rsa_unwrap", "scrypt_wrap_cost", "scrypt_unwrap")]
            + [Diagnostics("match", n, ("KEYS", "K1", "K2", "K3", "FK"), **(MATCH if n != "gen" else {})) for n in ("mixed4", "keys", "gen")]
            + [Diagnostics("header", "write", ("DATA",), **GEN), Diagnostics("header", "read", ("IDS",), **READ)]
            + [Diagnostics("cliuse", n, **CLI) for n in ("encrypt", "decrypt")] + [Diagnostics("cliuse", n, stdout=False, **BECH) for n in ("generate", "generate_std")]
            + [Diagnostics("openssh", "key_" + n, v, **SSH) for n, v in (("rsa", "DPQ"), ("dsa", "X"), ("ecdsa", "X"), ("ed25519", "B"))]
            + [Diagnostics("openssh", n, ("PW",), **SSH) for n in ("plain", "cipher", "meta")]},
}
