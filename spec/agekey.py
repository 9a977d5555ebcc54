"""Bech32 and the textual form of age keys."""
from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey, X25519PublicKey
from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat, PublicFormat

from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.primitives.bech32 import bech32_decode, bech32_encode

CHARSET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
GEN = [0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]


def polymod(values):
    chk = 1
    for v in values:
        top = chk >> 25
        chk = (chk & 0x1FFFFFF) << 5 ^ v
        for i in range(5):
            chk ^= GEN[i] if ((top >> i) & 1) else 0
    return chk


def expand(hrp):
    b = hrp.encode("ascii")
    return [x >> 5 for x in b] + [0] + [x & 31 for x in b]


def convert(data, frombits, tobits, pad):
    acc = 0
    bits = 0
    ret = []
    maxv = (1 << tobits) - 1
    max_acc = (1 << (frombits + tobits - 1)) - 1
    for value in data:
        if value < 0 or (value >> frombits):
            raise ValueError()
        acc = ((acc << frombits) | value) & max_acc
        bits += frombits
        while bits >= tobits:
            bits -= tobits
            ret.append((acc >> bits) & maxv)
    if pad:
        if bits:
            ret.append((acc << (tobits - bits)) & maxv)
    elif bits >= frombits or ((acc << (tobits - bits)) & maxv):
        raise ValueError()
    return ret


def scn_encode(HRP: str, DATA: bytes):
    return bech32_encode(HRP, DATA)


def ref_encode(HRP: str, DATA: bytes):
    data = convert(DATA, 8, 5, True)
    mod = polymod(expand(HRP) + data + [0, 0, 0, 0, 0, 0]) ^ 1
    check = [(mod >> 5 * (5 - i)) & 31 for i in range(6)]
    return HRP + "1" + "".join([CHARSET[d] for d in data + check])


def scn_decode(TEXT: str):
    return bech32_decode(TEXT)


def ref_decode(TEXT: str):
    if TEXT.upper() != TEXT and TEXT.lower() != TEXT:
        raise ValueError()
    text = TEXT.lower()
    pos = text.rfind("1")
    if pos == -1:
        raise ValueError()
    hrp = text[:pos]
    if len(hrp) < 1 or len(hrp) > 83:
        raise ValueError()
    for c in hrp:
        if ord(c) < 33 or ord(c) > 126:
            raise ValueError()
    tail = text[pos + 1 :]
    if len(tail) < 6:
        raise ValueError()
    for c in tail:
        if c not in CHARSET:
            raise ValueError()
    data = [CHARSET.index(c) for c in tail]
    if polymod(expand(hrp) + data) != 1:
        raise ValueError()
    return hrp, bytes(convert(data[:-6], 5, 8, False))


# ---- key strings (bech32 itself is opaque here)


def scn_read_private(TEXT: str):
    return AgePrivateKey.from_private_string(TEXT).private_bytes()


def ref_read_private(TEXT: str):
    hrp, data = bech32_decode(TEXT.lower())
    if hrp != "age-secret-key-" or len(data) != 32:
        raise ValueError()
    return X25519PrivateKey.from_private_bytes(data).private_bytes(Encoding.Raw, PrivateFormat.Raw, NoEncryption())


def scn_read_public(TEXT: str):
    return AgePublicKey.from_public_string(TEXT).public_bytes()


def ref_read_public(TEXT: str):
    hrp, data = bech32_decode(TEXT.lower())
    if hrp != "age":
        raise ValueError()
    return X25519PublicKey.from_public_bytes(data).public_bytes(Encoding.Raw, PublicFormat.Raw)


def scn_write_private(SEC: bytes):
    return AgePrivateKey.from_private_bytes(SEC).private_string()


def ref_write_private(SEC: bytes):
    X25519PrivateKey.from_private_bytes(SEC)
    return bech32_encode("age-secret-key-", SEC).upper()


def scn_write_public(SEC: bytes):
    return AgePrivateKey.from_private_bytes(SEC).public_key().public_string()


def ref_write_public(SEC: bytes):
    pub = X25519PrivateKey.from_private_bytes(SEC).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
    return bech32_encode("age", pub)


def scn_generate():
    return AgePrivateKey.generate().private_bytes()


def ref_generate():
    return X25519PrivateKey.generate().private_bytes(Encoding.Raw, PrivateFormat.Raw, NoEncryption())


# ---- equality, hashing and printed form of keys


def scn_eq_public(A: bytes, B: bytes):
    a, b = AgePublicKey.from_public_bytes(A), AgePublicKey.from_public_bytes(B)
    return a == b, a != b


def ref_eq_public(A: bytes, B: bytes):
    return A == B, A != B


def scn_hash_public(A: bytes):
    return hash(AgePublicKey.from_public_bytes(A)) == hash(AgePublicKey.from_public_bytes(A))


def ref_hash_public(A: bytes):
    AgePublicKey.from_public_bytes(A)
    return True


def scn_eq_private(A: bytes, B: bytes):
    a, b = AgePrivateKey.from_private_bytes(A), AgePrivateKey.from_private_bytes(B)
    return a == b, a != b


def ref_eq_private(A: bytes, B: bytes):
    return A == B, A != B


def scn_hash_private(A: bytes):
    return hash(AgePrivateKey.from_private_bytes(A)) == hash(AgePrivateKey.from_private_bytes(A))


def ref_hash_private(A: bytes):
    AgePrivateKey.from_private_bytes(A)
    return True
