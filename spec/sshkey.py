"""SSH keys: binary encoding, fingerprints, equality."""
import base64
import hashlib

from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey as CEdPriv
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PublicKey as CEd
from cryptography.hazmat.primitives.asymmetric.rsa import RSAPrivateKey as CRsaPriv
from cryptography.hazmat.primitives.asymmetric.rsa import RSAPublicKey as CRsa
from cryptography.hazmat.primitives.asymmetric.rsa import generate_private_key
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat, load_pem_private_key, load_ssh_public_key

from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
from age.keys.rsa import RSAPrivateKey, RSAPublicKey
from age.openssh_keys import load_openssh_private_key


def blob(key, kind):
    words = key.public_bytes(Encoding.OpenSSH, PublicFormat.OpenSSH).split()
    if words[0] != kind:
        raise ValueError()
    if len(words) < 2:
        raise ValueError()
    return base64.b64decode(words[1] + b"===")


def md5(data):
    return "MD5:" + ":".join([f"{b:02x}" for b in hashlib.md5(data).digest()])


def sha(data):
    return "SHA256:" + base64.b64encode(hashlib.sha256(data).digest()).decode("ascii").rstrip("=")


def fingerprint(data, algorithm):
    if algorithm == "MD5":
        return md5(data)
    if algorithm == "SHA256":
        return sha(data)
    raise ValueError()


def scn_ed_blob(K: Ed25519PublicKey):
    return K.binary_encoding()


def ref_ed_blob(K: Ed25519PublicKey):
    return blob(K._key, b"ssh-ed25519")


def scn_rsa_blob(K: RSAPublicKey):
    return K.binary_encoding()


def ref_rsa_blob(K: RSAPublicKey):
    return blob(K._key, b"ssh-rsa")


def scn_ed_load(TEXT: bytes):
    return Ed25519PublicKey.from_ssh_public_key(TEXT).binary_encoding()


def ref_ed_load(TEXT: bytes):
    k = load_ssh_public_key(TEXT)
    if not isinstance(k, CEd):
        raise ValueError()
    return blob(k, b"ssh-ed25519")


def scn_rsa_load(TEXT: bytes):
    return RSAPublicKey.from_ssh_public_key(TEXT).binary_encoding()


def ref_rsa_load(TEXT: bytes):
    k = load_ssh_public_key(TEXT)
    if not isinstance(k, CRsa):
        raise ValueError()
    return blob(k, b"ssh-rsa")


def scn_ed_print(K: Ed25519PublicKey, ALG: str, COMMENT: str):
    return K.fingerprint(ALG), K.fingerprint_line(ALG, COMMENT)


def ref_ed_print(K: Ed25519PublicKey, ALG: str, COMMENT: str):
    f = fingerprint(K.binary_encoding(), ALG)
    return f, "256 " + f + " " + COMMENT + " (ED25519)"


def scn_rsa_print(K: RSAPublicKey, ALG: str, COMMENT: str):
    return K.fingerprint(ALG), K.fingerprint_line(ALG, COMMENT)


def ref_rsa_print(K: RSAPublicKey, ALG: str, COMMENT: str):
    f = fingerprint(K.binary_encoding(), ALG)
    return f, str(K._key.key_size) + " " + f + " " + COMMENT + " (RSA)"


def scn_defaults(E: Ed25519PublicKey, R: RSAPublicKey):
    return E.fingerprint(), R.fingerprint(), E.fingerprint_line(), R.fingerprint_line()


def ref_defaults(E: Ed25519PublicKey, R: RSAPublicKey):
    e, r = md5(E.binary_encoding()), md5(R.binary_encoding())
    return e, r, "256 " + e + " age (ED25519)", str(R._key.key_size) + " " + r + " age (RSA)"


def scn_eq_ed(A: Ed25519PublicKey, B: Ed25519PublicKey):
    return A == B, A != B


def ref_eq_ed(A: Ed25519PublicKey, B: Ed25519PublicKey):
    return A.binary_encoding() == B.binary_encoding(), A.binary_encoding() != B.binary_encoding()


def scn_eq_rsa(A: RSAPublicKey, B: RSAPublicKey):
    return A == B, A != B


def ref_eq_rsa(A: RSAPublicKey, B: RSAPublicKey):
    return A.binary_encoding() == B.binary_encoding(), A.binary_encoding() != B.binary_encoding()


def scn_hash_ed(A: Ed25519PublicKey):
    return hash(A) == hash(A), hash(Ed25519PublicKey(A._key)) == hash(Ed25519PublicKey(A._key))


def ref_hash_ed(A: Ed25519PublicKey):
    A.binary_encoding()
    return True, True


def scn_hash_rsa(A: RSAPublicKey):
    return hash(A) == hash(A), hash(RSAPublicKey(A._key)) == hash(RSAPublicKey(A._key))


def ref_hash_rsa(A: RSAPublicKey):
    A.binary_encoding()
    return True, True


def scn_eq_kinds(A: AgePublicKey, B: Ed25519PublicKey, C: RSAPublicKey, D: AgePrivateKey, E: bytes, F: str):
    return A == B, A == C, A == D, B == A, B == C, C == A, C == B, C == D, D == A, D == B, A == E, D == E, B == E, C == E, A == F, A == None


def ref_eq_kinds(A: AgePublicKey, B: Ed25519PublicKey, C: RSAPublicKey, D: AgePrivateKey, E: bytes, F: str):
    return tuple([False] * 16)


# ---- private keys


def from_pem(data, password):
    try:
        return load_pem_private_key(data, password)
    except ValueError:
        return load_openssh_private_key(data, password)


def scn_ed_pem(TEXT: bytes, PW: bytes):
    k = Ed25519PrivateKey.from_pem(TEXT, PW)
    return k._key


def ref_ed_pem(TEXT: bytes, PW: bytes):
    k = from_pem(TEXT, PW)
    if not isinstance(k, CEdPriv):
        raise ValueError()
    return k


def scn_rsa_pem(TEXT: bytes, PW: bytes):
    k = RSAPrivateKey.from_pem(TEXT, PW)
    return k._key


def ref_rsa_pem(TEXT: bytes, PW: bytes):
    k = from_pem(TEXT, PW)
    if not isinstance(k, CRsaPriv):
        raise ValueError()
    return k


def scn_ed_pem_plain(TEXT: bytes):
    return Ed25519PrivateKey.from_pem(TEXT)._key


def ref_ed_pem_plain(TEXT: bytes):
    k = from_pem(TEXT, None)
    if not isinstance(k, CEdPriv):
        raise ValueError()
    return k


def scn_rsa_pem_plain(TEXT: bytes):
    return RSAPrivateKey.from_pem(TEXT)._key


def ref_rsa_pem_plain(TEXT: bytes):
    k = from_pem(TEXT, None)
    if not isinstance(k, CRsaPriv):
        raise ValueError()
    return k


def scn_halves(E: Ed25519PrivateKey, R: RSAPrivateKey):
    return E.public_key().binary_encoding(), R.public_key().binary_encoding()


def ref_halves(E: Ed25519PrivateKey, R: RSAPrivateKey):
    return blob(E._key.public_key(), b"ssh-ed25519"), blob(R._key.public_key(), b"ssh-rsa")


def scn_fresh():
    a, b = Ed25519PrivateKey.generate(), Ed25519PrivateKey.generate()
    return a._key, b._key, a.public_key()._key, b.public_key()._key


def ref_fresh():
    a, b = CEdPriv.generate(), CEdPriv.generate()
    return a, b, a.public_key(), b.public_key()


def scn_fresh_rsa(N: int):
    a, b = RSAPrivateKey.generate(), RSAPrivateKey.generate(N)
    return a._key, b._key, a.public_key()._key, b.public_key()._key


def ref_fresh_rsa(N: int):
    a, b = generate_private_key(65537, 4096), generate_private_key(65537, N)
    return a, b, a.public_key(), b.public_key()
