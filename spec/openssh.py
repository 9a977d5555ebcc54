"""OpenSSH private key files.

The armor around them is replaced by a stub (its own property is elsewhere): BLOB is what it contains.
"""
import bcrypt
from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed25519, rsa
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from age.openssh_keys import WrongPassphrase, load_openssh_private_key

LABEL = "OPENSSH PRIVATE KEY"
BLOB = b""


def stub_armor():
    return [(LABEL, BLOB)]


def stub_two():
    return [("SOMETHING ELSE", b""), (LABEL, BLOB)]


def load(blob, passphrase=None):
    global BLOB
    BLOB = blob
    return load_openssh_private_key(b"", passphrase)


def u32(n):
    return n.to_bytes(4, "big")


def field(x):
    return u32(len(x)) + x


def outer(secret, cipher=b"none", kdf=b"none", meta=b"", count=1, pub=b"", declared=None):
    if declared is None:
        declared = len(secret)
    return b"openssh-key-v1\0" + field(cipher) + field(kdf) + field(meta) + u32(count) + field(pub) + u32(declared) + secret


def inner(kind, fields, check1=b"\1\2\3\4", check2=b"\1\2\3\4", comment=b"", padding=b""):
    return check1 + check2 + field(kind) + fields + field(comment) + padding


def ed(private, public):
    return field(public) + field(private + public)


def number(x):
    if x[:1] >= b"\x80":
        raise ValueError()
    return int.from_bytes(x, "big")


# ---- the key is made of the fields of the file


def scn_key_rsa(PUB: bytes, N: bytes, E: bytes, D: bytes, I: bytes, P: bytes, Q: bytes, COMMENT: bytes):
    return load(outer(inner(b"ssh-rsa", field(N) + field(E) + field(D) + field(I) + field(P) + field(Q), comment=COMMENT), pub=PUB))


def ref_key_rsa(PUB: bytes, N: bytes, E: bytes, D: bytes, I: bytes, P: bytes, Q: bytes, COMMENT: bytes):
    n, e, d, i, p, q = number(N), number(E), number(D), number(I), number(P), number(Q)
    return rsa.RSAPrivateNumbers(p=p, q=q, d=d, dmp1=rsa.rsa_crt_dmp1(d, p), dmq1=rsa.rsa_crt_dmq1(d, q), iqmp=i,
                                 public_numbers=rsa.RSAPublicNumbers(e=e, n=n)).private_key()


def scn_key_dsa(P: bytes, Q: bytes, G: bytes, Y: bytes, X: bytes, COMMENT: bytes):
    return load(outer(inner(b"ssh-dss", field(P) + field(Q) + field(G) + field(Y) + field(X), comment=COMMENT)))


def ref_key_dsa(P: bytes, Q: bytes, G: bytes, Y: bytes, X: bytes, COMMENT: bytes):
    p, q, g, y, x = number(P), number(Q), number(G), number(Y), number(X)
    return dsa.DSAPrivateNumbers(x=x, public_numbers=dsa.DSAPublicNumbers(y=y, parameter_numbers=dsa.DSAParameterNumbers(p=p, q=q, g=g))).private_key()


def scn_key_ecdsa(KIND: bytes, CURVE: bytes, POINT: bytes, X: bytes, COMMENT: bytes):
    return load(outer(inner(b"ecdsa-" + KIND, field(CURVE) + field(POINT) + field(X), comment=COMMENT)))


def ref_key_ecdsa(KIND: bytes, CURVE: bytes, POINT: bytes, X: bytes, COMMENT: bytes):
    if CURVE == b"nistp256":
        curve = ec.SECP256R1()
    elif CURVE == b"nistp521":
        curve = ec.SECP521R1()
    elif CURVE == b"nistp224":
        curve = ec.SECP224R1()
    else:
        raise ValueError()
    public = ec.EllipticCurvePublicKey.from_encoded_point(curve, POINT).public_numbers()
    return ec.EllipticCurvePrivateNumbers(private_value=number(X), public_numbers=public).private_key()


def scn_key_ed25519(PUB: bytes, A: bytes, B: bytes, COMMENT: bytes):
    return load(outer(inner(b"ssh-ed25519", field(A) + field(B), comment=COMMENT), pub=PUB))


def ref_key_ed25519(PUB: bytes, A: bytes, B: bytes, COMMENT: bytes):
    if len(A) != 32 or len(B) != 64 or B[32:] != A:
        raise ValueError()
    return ed25519.Ed25519PrivateKey.from_private_bytes(B[:32])


def scn_key_other(KIND: bytes, REST: bytes):
    if KIND == b"ssh-rsa" or KIND == b"ssh-dss" or KIND == b"ssh-ed25519" or KIND.startswith(b"ecdsa-"):
        return None
    return load(outer(inner(KIND, REST)))


def ref_key_other(KIND: bytes, REST: bytes):
    if KIND == b"ssh-rsa" or KIND == b"ssh-dss" or KIND == b"ssh-ed25519" or KIND.startswith(b"ecdsa-"):
        return None
    raise NotImplementedError()


# ---- what is accepted


def sample(**kw):
    return inner(b"ssh-ed25519", ed(b"a" * 32, b"p" * 32), **kw)


def scn_magic(REST: bytes):
    if REST.startswith(b"openssh-key-v1\0"):
        return None
    return load(REST)


def ref_magic(REST: bytes):
    if REST.startswith(b"openssh-key-v1\0"):
        return None
    raise ValueError()


def scn_magic_near(N: int):
    rest = outer(sample())[15:]
    if N == 0:
        return load(b"openssh-key-v1\1" + rest)
    if N == 1:
        return load(b"Openssh-key-v1\0" + rest)
    if N == 2:
        return load(b"openssh-key-v2\0" + rest)
    if N == 3:
        return load(b"OPENSSH-KEY-V1\0" + rest)
    if N == 4:
        return load(b"\0openssh-key-v1\0" + rest)
    if N == 5:
        return load(b"openssh-key-v1" + rest)
    return None


def ref_magic_near(N: int):
    if N not in (0, 1, 2, 3, 4, 5):
        return None
    raise ValueError()


def scn_count(N: int):
    return load(outer(sample(), count=N))


def key():
    return ed25519.Ed25519PrivateKey.from_private_bytes(b"a" * 32)


def ref_count(N: int):
    if N != 1:
        raise ValueError()
    return key()


def scn_length(N: int, SECRET: bytes):
    if N == len(SECRET):
        return None
    return load(outer(SECRET, declared=N))


def ref_length(N: int, SECRET: bytes):
    if N == len(SECRET):
        return None
    raise ValueError()


def scn_trailing(EXTRA: bytes):
    return load(outer(sample()) + EXTRA)


def ref_trailing(EXTRA: bytes):
    if EXTRA:
        raise ValueError()
    return key()


def scn_check(A: int, B: int):
    return load(outer(sample(check1=u32(A), check2=u32(B))))


def ref_check(A: int, B: int):
    if A != B:
        raise WrongPassphrase()
    return key()


def scn_padding(COMMENT: bytes, PAD: bytes):
    return load(outer(sample(comment=COMMENT, padding=PAD)))


def ref_padding(COMMENT: bytes, PAD: bytes):
    for i in range(len(PAD)):
        if PAD[i] != i + 1:
            raise ValueError()
    return key()


def scn_short_comment(X: bytes, REST: bytes):
    if len(X) <= len(REST):
        return None
    return load(outer(b"\1\2\3\4\1\2\3\4" + field(b"ssh-ed25519") + ed(b"a" * 32, b"p" * 32) + u32(len(X)) + REST))


def ref_short_comment(X: bytes, REST: bytes):
    if len(X) <= len(REST):
        return None
    raise ValueError()


def scn_short_number(X: bytes, REST: bytes):
    if len(X) <= len(REST):
        return None
    return load(outer(b"\1\2\3\4\1\2\3\4" + field(b"ssh-rsa") + field(b"\3") + u32(len(X)) + REST))


def ref_short_number(X: bytes, REST: bytes):
    if len(X) <= len(REST):
        return None
    raise ValueError()


def scn_short_cipher(X: bytes, REST: bytes):
    if len(X) <= len(REST):
        return None
    return load(b"openssh-key-v1\0" + u32(len(X)) + REST)


def ref_short_cipher(X: bytes, REST: bytes):
    if len(X) <= len(REST):
        return None
    raise ValueError()


def scn_short_public(X: bytes, REST: bytes):
    if len(X) <= len(REST):
        return None
    return load(b"openssh-key-v1\0" + field(b"none") + field(b"none") + field(b"") + u32(1) + u32(len(X)) + REST)


def ref_short_public(X: bytes, REST: bytes):
    if len(X) <= len(REST):
        return None
    raise ValueError()


def scn_short_count(REST: bytes):
    if len(REST) >= 4:
        return None
    return load(b"openssh-key-v1\0" + field(b"none") + field(b"none") + field(b"") + REST)


def ref_short_count(REST: bytes):
    if len(REST) >= 4:
        return None
    raise ValueError()


# ---- encryption


def scn_plain(KDF: bytes, META: bytes, PW: bytes):
    return load(outer(sample(), kdf=KDF, meta=META), PW)


def ref_plain(KDF: bytes, META: bytes, PW: bytes):
    return key()


def scn_locked(CIPHER: bytes, KDF: bytes, META: bytes, SECRET: bytes):
    if CIPHER == b"none":
        return None
    return load(outer(SECRET, cipher=CIPHER, kdf=KDF, meta=META))


def ref_locked(CIPHER: bytes, KDF: bytes, META: bytes, SECRET: bytes):
    if CIPHER == b"none":
        return None
    raise WrongPassphrase()


PLAIN = sample()


def stub_plain():
    return PLAIN


def decrypted(size, kdf, salt, rounds, secret, passphrase):
    if not passphrase:
        raise WrongPassphrase()
    if kdf != b"bcrypt":
        raise ValueError()
    material = bcrypt.kdf(passphrase, salt, size + 16, rounds, ignore_few_rounds=True)
    opener = Cipher(algorithms.AES(material[:size]), modes.CTR(material[size:])).decryptor()
    return load(outer(opener.update(secret)), passphrase)


def scn_aes256(KDF: bytes, SALT: bytes, ROUNDS: int, SECRET: bytes, PW: bytes):
    return load(outer(SECRET, cipher=b"aes256-ctr", kdf=KDF, meta=field(SALT) + u32(ROUNDS)), PW)


def ref_aes256(KDF: bytes, SALT: bytes, ROUNDS: int, SECRET: bytes, PW: bytes):
    return decrypted(32, KDF, SALT, ROUNDS, SECRET, PW)


def scn_aes192(KDF: bytes, SALT: bytes, ROUNDS: int, SECRET: bytes, PW: bytes):
    return load(outer(SECRET, cipher=b"aes192-ctr", kdf=KDF, meta=field(SALT) + u32(ROUNDS)), PW)


def ref_aes192(KDF: bytes, SALT: bytes, ROUNDS: int, SECRET: bytes, PW: bytes):
    return decrypted(24, KDF, SALT, ROUNDS, SECRET, PW)


def scn_aes128(KDF: bytes, SALT: bytes, ROUNDS: int, SECRET: bytes, PW: bytes):
    return load(outer(SECRET, cipher=b"aes128-ctr", kdf=KDF, meta=field(SALT) + u32(ROUNDS)), PW)


def ref_aes128(KDF: bytes, SALT: bytes, ROUNDS: int, SECRET: bytes, PW: bytes):
    return decrypted(16, KDF, SALT, ROUNDS, SECRET, PW)


def scn_cipher(CIPHER: bytes, KDF: bytes, META: bytes, SECRET: bytes, PW: bytes):
    if CIPHER in (b"none", b"aes128-ctr", b"aes192-ctr", b"aes256-ctr"):
        return None
    return load(outer(SECRET, cipher=CIPHER, kdf=KDF, meta=META), PW)


def ref_cipher(CIPHER: bytes, KDF: bytes, META: bytes, SECRET: bytes, PW: bytes):
    if CIPHER in (b"none", b"aes128-ctr", b"aes192-ctr", b"aes256-ctr"):
        return None
    if not PW:
        raise WrongPassphrase()
    raise ValueError()


def scn_meta(META: bytes, SECRET: bytes, PW: bytes, X: bytes):
    if len(X) <= len(META):
        return None
    return load(outer(SECRET, cipher=b"aes256-ctr", kdf=b"bcrypt", meta=u32(len(X)) + META), PW)


def ref_meta(META: bytes, SECRET: bytes, PW: bytes, X: bytes):
    if len(X) <= len(META):
        return None
    if not PW:
        raise WrongPassphrase()
    raise ValueError()


# ---- the armored section that counts


def scn_label():
    return load(outer(sample()))


def ref_label():
    return key()


def scn_nolabel():
    return load(outer(sample()))


def ref_nolabel():
    raise ValueError()


def stub_none():
    return [("SOMETHING ELSE", BLOB)]


def stub_one():
    return [(LABEL + " ", BLOB), ("OPENSSH PUBLIC KEY", b""), (LABEL, BLOB)]


def stub_empty():
    return []
