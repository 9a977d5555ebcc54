"""The primitives have the documented algorithms and parameters."""
import base64
import hashlib

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes, hmac
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305
from cryptography.hazmat.primitives.kdf.hkdf import HKDF
from cryptography.hazmat.primitives.kdf.scrypt import Scrypt
from nacl.bindings import crypto_core_ed25519_scalar_reduce, crypto_scalarmult, crypto_scalarmult_base

from age.keys.rsa import RSAPrivateKey, RSAPublicKey
from age.primitives.encode import decode, encode
from age.primitives.encrypt import decrypt, encrypt
from age.primitives.hashes import sha256
from age.primitives.hkdf import hkdf
from age.primitives.hmac import HMAC
from age.primitives.random import random
from age.primitives.rsa_oaep import rsa_decrypt, rsa_encrypt
from age.primitives.scrypt import scrypt
from age.primitives.x25519 import x25519_reduce, x25519_scalarmult, x25519_scalarmult_base


def scn_hkdf(SALT: bytes, LABEL: bytes, KEY: bytes, N: int):
    return hkdf(SALT, LABEL, KEY, N)


def ref_hkdf(SALT: bytes, LABEL: bytes, KEY: bytes, N: int):
    return HKDF(algorithm=hashes.SHA256(), length=N, salt=SALT, info=LABEL).derive(KEY)


def tag(key, message):
    h = hmac.HMAC(key, hashes.SHA256())
    h.update(message)
    return h.finalize()


def scn_hmac(KEY: bytes, MESSAGE: bytes):
    return HMAC(KEY).generate(MESSAGE)


def ref_hmac(KEY: bytes, MESSAGE: bytes):
    return tag(KEY, MESSAGE)


def scn_verify(KEY: bytes, MESSAGE: bytes, TAG: bytes):
    return HMAC(KEY).verify(MESSAGE, TAG)


def ref_verify(KEY: bytes, MESSAGE: bytes, TAG: bytes):
    if TAG != tag(KEY, MESSAGE):
        raise InvalidSignature()


def scn_valid(KEY: bytes, MESSAGE: bytes, TAG: bytes):
    return HMAC(KEY).is_valid(MESSAGE, TAG)


def ref_valid(KEY: bytes, MESSAGE: bytes, TAG: bytes):
    return TAG == tag(KEY, MESSAGE)


def scn_sha256(DATA: bytes):
    return sha256(DATA)


def ref_sha256(DATA: bytes):
    return hashlib.sha256(DATA).digest()


def scn_encrypt(KEY: bytes, DATA: bytes):
    return encrypt(KEY, DATA)


def ref_encrypt(KEY: bytes, DATA: bytes):
    return ChaCha20Poly1305(KEY).encrypt(b"\0" * 12, DATA, None)


def scn_decrypt(KEY: bytes, DATA: bytes):
    return decrypt(KEY, DATA)


def ref_decrypt(KEY: bytes, DATA: bytes):
    return ChaCha20Poly1305(KEY).decrypt(b"\0" * 12, DATA, None)


def scn_scrypt(SALT: bytes, N: int, PASSWORD: bytes):
    return scrypt(SALT, N, PASSWORD)


def ref_scrypt(SALT: bytes, N: int, PASSWORD: bytes):
    return Scrypt(salt=SALT, length=32, n=N, r=8, p=1).derive(PASSWORD)


def oaep(label):
    return padding.OAEP(mgf=padding.MGF1(hashes.SHA256()), algorithm=hashes.SHA256(), label=label)


def scn_rsa_encrypt(KEY: RSAPublicKey, LABEL: bytes, DATA: bytes):
    return rsa_encrypt(KEY, LABEL, DATA)


def ref_rsa_encrypt(KEY: RSAPublicKey, LABEL: bytes, DATA: bytes):
    return KEY._key.encrypt(DATA, oaep(LABEL))


def scn_rsa_decrypt(KEY: RSAPrivateKey, LABEL: bytes, DATA: bytes):
    return rsa_decrypt(KEY, LABEL, DATA)


def ref_rsa_decrypt(KEY: RSAPrivateKey, LABEL: bytes, DATA: bytes):
    return KEY._key.decrypt(DATA, oaep(LABEL))


def scn_mult(A: bytes, B: bytes):
    return x25519_scalarmult(A, B)


def ref_mult(A: bytes, B: bytes):
    if len(A) != 32 or len(B) != 32:
        raise ValueError()
    try:
        k = crypto_scalarmult(A, B)
    except RuntimeError:
        raise ValueError()
    if not any(k):
        raise ValueError()
    return k


def scn_base(A: bytes):
    return x25519_scalarmult_base(A)


def ref_base(A: bytes):
    return crypto_scalarmult_base(A)


def scn_reduce(A: bytes):
    return x25519_reduce(A)


def ref_reduce(A: bytes):
    return crypto_core_ed25519_scalar_reduce(A)


def scn_text(DATA: bytes):
    return encode(DATA)


def ref_text(DATA: bytes):
    return base64.b64encode(DATA).decode("ascii").rstrip("=")


def scn_untext(DATA: bytes):
    return decode(encode(DATA))


def ref_untext(DATA: bytes):
    return DATA


def scn_encode_type(DATA: str):
    return encode(DATA)


def ref_encode_type(DATA: str):
    raise TypeError()


def scn_decode_type(DATA: bytes):
    return decode(DATA)


def ref_decode_type(DATA: bytes):
    raise TypeError()


def scn_decode(TEXT: str):
    return decode(TEXT)


def ref_decode(TEXT: str):
    return base64.b64decode(TEXT + "===")


def scn_random(N: int):
    return random(N)


def ref_random(N: int):
    import os

    return os.urandom(N)
