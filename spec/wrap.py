"""Wrapping the file key for one recipient: the four stanza types."""
import base64
import hashlib
import os

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey, X25519PublicKey
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305
from cryptography.hazmat.primitives.kdf.hkdf import HKDF
from cryptography.hazmat.primitives.kdf.scrypt import Scrypt
from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat, PublicFormat
from nacl.bindings import (
    crypto_core_ed25519_scalar_reduce,
    crypto_scalarmult,
    crypto_scalarmult_base,
    crypto_sign_ed25519_pk_to_curve25519,
    crypto_sign_ed25519_sk_to_curve25519,
)

from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
from age.algorithms.ssh_ed25519 import ssh_ed25519_decrypt_file_key, ssh_ed25519_encrypt_file_key
from age.algorithms.ssh_rsa import ssh_rsa_decrypt_file_key, ssh_rsa_encrypt_file_key
from age.algorithms.x25519 import x25519_decrypt_file_key, x25519_encrypt_file_key
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
from age.keys.password import PasswordKey
from age.keys.rsa import RSAPrivateKey, RSAPublicKey
from age.recipients.helpers import generate_recipient_from_key, get_recipient


def b64(data):
    return base64.b64encode(data).decode("ascii").rstrip("=")


def unb64(text):
    return base64.b64decode(text + "===")


def hkdf(key, salt, label, n):
    return HKDF(algorithm=hashes.SHA256(), length=n, salt=salt, info=label).derive(key)


def seal(key, data):
    return ChaCha20Poly1305(key).encrypt(b"\0" * 12, data, b"")


def unseal(key, data):
    return ChaCha20Poly1305(key).decrypt(b"\0" * 12, data, b"")


def mult(a, b):
    if len(a) != 32 or len(b) != 32:
        raise ValueError()
    try:
        k = crypto_scalarmult(a, b)
    except RuntimeError:
        raise ValueError()
    if not any(k):
        raise ValueError()
    return k


# ---- X25519


def scn_x25519_wrap(PUB: bytes, FK: bytes):
    r = generate_recipient_from_key(AgePublicKey.from_public_bytes(PUB), FK)
    args, body = r.dump()
    return r.TAG, args, body


def ref_x25519_wrap(PUB: bytes, FK: bytes):
    X25519PublicKey.from_public_bytes(PUB)
    eph = os.urandom(32)
    share = crypto_scalarmult_base(eph)
    key = hkdf(mult(eph, PUB), share + PUB, b"age-encryption.org/v1/X25519", 32)
    return "X25519", [b64(share)], b64(seal(key, FK))


def scn_x25519_alg(PUB: bytes, FK: bytes):
    return x25519_encrypt_file_key(AgePublicKey.from_public_bytes(PUB), FK)


def ref_x25519_alg(PUB: bytes, FK: bytes):
    X25519PublicKey.from_public_bytes(PUB)
    eph = os.urandom(32)
    share = crypto_scalarmult_base(eph)
    key = hkdf(mult(eph, PUB), share + PUB, b"age-encryption.org/v1/X25519", 32)
    return share, seal(key, FK)


def scn_x25519_unwrap(ARGS: L_str, BODY: str, SEC: bytes):
    return get_recipient("X25519", ARGS, BODY).decrypt(AgePrivateKey.from_private_bytes(SEC))


def ref_x25519_unwrap(ARGS: L_str, BODY: str, SEC: bytes):
    pub = X25519PrivateKey.from_private_bytes(SEC).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
    share = unb64(ARGS[0])
    body = unb64(BODY)
    key = hkdf(mult(SEC, share), share + pub, b"age-encryption.org/v1/X25519", 32)
    return unseal(key, body)


# ---- ssh-ed25519


def scn_ed25519_wrap(PUB: Ed25519PublicKey, FK: bytes):
    r = generate_recipient_from_key(PUB, FK)
    args, body = r.dump()
    return r.TAG, args, body


def ref_ed25519_wrap(PUB: Ed25519PublicKey, FK: bytes):
    blob = PUB.binary_encoding()
    conv = crypto_sign_ed25519_pk_to_curve25519(PUB._key.public_bytes(Encoding.Raw, PublicFormat.Raw))
    tweak = crypto_core_ed25519_scalar_reduce(hkdf(b"", blob, b"age-encryption.org/v1/ssh-ed25519", 64))
    pub = mult(tweak, conv)
    eph = os.urandom(32)
    share = crypto_scalarmult_base(eph)
    key = hkdf(mult(eph, pub), share + pub, b"age-encryption.org/v1/X25519", 32)
    return "ssh-ed25519", [b64(hashlib.sha256(blob).digest()[:4]), b64(share)], b64(seal(key, FK))


def scn_ed25519_unwrap(ARGS: L_str, BODY: str, SEC: Ed25519PrivateKey):
    return get_recipient("ssh-ed25519", ARGS, BODY).decrypt(SEC)


def ref_ed25519_unwrap(ARGS: L_str, BODY: str, SEC: Ed25519PrivateKey):
    tag, share, body = unb64(ARGS[0]), unb64(ARGS[1]), unb64(BODY)
    blob = SEC.public_key().binary_encoding()
    if tag != hashlib.sha256(blob).digest()[:4]:
        raise ValueError()
    sec = SEC.to_age_private_key()
    tweak = crypto_core_ed25519_scalar_reduce(hkdf(b"", blob, b"age-encryption.org/v1/ssh-ed25519", 64))
    pub = mult(tweak, sec.public_key().public_bytes())
    shared = mult(sec.private_bytes(), mult(tweak, share))
    return unseal(hkdf(shared, share + pub, b"age-encryption.org/v1/X25519", 32), body)


def scn_ed25519_convert(SEC: Ed25519PrivateKey, PUB: Ed25519PublicKey):
    return SEC.to_age_private_key().private_bytes(), PUB.to_age_public_key().public_bytes()


def ref_ed25519_convert(SEC: Ed25519PrivateKey, PUB: Ed25519PublicKey):
    pk = SEC._key.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
    sk = SEC._key.private_bytes(Encoding.Raw, PrivateFormat.Raw, NoEncryption())
    return (
        crypto_sign_ed25519_sk_to_curve25519(sk + pk),
        crypto_sign_ed25519_pk_to_curve25519(PUB._key.public_bytes(Encoding.Raw, PublicFormat.Raw)),
    )


# ---- ssh-rsa


def oaep():
    return padding.OAEP(mgf=padding.MGF1(hashes.SHA256()), algorithm=hashes.SHA256(), label=b"age-encryption.org/v1/ssh-rsa")


def scn_rsa_wrap(PUB: RSAPublicKey, FK: bytes):
    r = generate_recipient_from_key(PUB, FK)
    args, body = r.dump()
    return r.TAG, args, body


def ref_rsa_wrap(PUB: RSAPublicKey, FK: bytes):
    return "ssh-rsa", [b64(hashlib.sha256(PUB.binary_encoding()).digest()[:4])], b64(PUB._key.encrypt(FK, oaep()))


def scn_rsa_unwrap(ARGS: L_str, BODY: str, SEC: RSAPrivateKey):
    return get_recipient("ssh-rsa", ARGS, BODY).decrypt(SEC)


def ref_rsa_unwrap(ARGS: L_str, BODY: str, SEC: RSAPrivateKey):
    tag, body = unb64(ARGS[0]), unb64(BODY)
    if tag != hashlib.sha256(SEC.public_key().binary_encoding()).digest()[:4]:
        raise ValueError()
    return SEC._key.decrypt(body, oaep())


# ---- scrypt


def stretch(password, salt, cost):
    return Scrypt(salt=b"age-encryption.org/v1/scrypt" + salt, length=32, n=2 ** cost, r=8, p=1).derive(password)


def scn_scrypt_wrap(PW: bytes, FK: bytes):
    r = generate_recipient_from_key(PasswordKey(PW), FK)
    args, body = r.dump()
    return r.TAG, args, body


def ref_scrypt_wrap(PW: bytes, FK: bytes):
    salt = os.urandom(16)
    return "scrypt", [b64(salt), "18"], b64(seal(stretch(PW, salt, 18), FK))


def scn_scrypt_wrap_cost(PW: bytes, FK: bytes, COST: int):
    return scrypt_encrypt_file_key(PasswordKey(PW), FK, COST)


def ref_scrypt_wrap_cost(PW: bytes, FK: bytes, COST: int):
    if COST < 0 or COST > 22:
        raise ValueError()
    salt = os.urandom(16)
    return salt, COST, seal(stretch(PW, salt, COST), FK)


def scn_scrypt_unwrap(ARGS: L_str, BODY: str, PW: bytes):
    return get_recipient("scrypt", ARGS, BODY).decrypt(PasswordKey(PW))


def ref_scrypt_unwrap(ARGS: L_str, BODY: str, PW: bytes):
    salt, cost, body = unb64(ARGS[0]), int(ARGS[1]), unb64(BODY)
    if cost < 0 or cost > 22:
        raise ValueError()
    return unseal(stretch(PW, salt, cost), body)
