"""Operations do not share state: separate objects, unchanged arguments, fresh randomness, a second run like the first."""
import os

from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey

from age.exceptions import NoIdentity
from age.file import Decryptor, Encryptor
from age.format import Header, Recipient, dump_header, load_header
from age.keyloader import load_aliases, load_keys_txt, load_ssh_keys, resolve_public_key
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.base import DecryptionKey, EncryptionKey
from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
from age.keys.password import PasswordKey
from age.keys.rsa import RSAPrivateKey, RSAPublicKey
from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
from spec.header import ref_load, ref_read, text
from spec.streams import finish, head
from spec.wrap import ref_ed25519_wrap, ref_scrypt_wrap, ref_x25519_wrap


# ---- separate objects


def scn_headers(R: Recipient):
    a = Header()
    a.recipients.append(R)
    b = Header()
    return list(b.recipients)


def ref_headers(R: Recipient):
    return []


def scn_stanzas(X: str):
    a = Recipient("a")
    a.arguments.append(X)
    b = Recipient("b")
    return list(b.arguments), b.body


def ref_stanzas(X: str):
    return [], ""


def scn_loads(IN: stream, IN2: stream):
    a, m = load_header(IN)
    a.recipients.clear()
    b, n = load_header(IN2)
    return list(b.recipients), n


def ref_loads(IN: stream, IN2: stream):
    ref_load(IN)
    return ref_load(IN2)


def scn_alias_tables(NAME: str):
    a = load_aliases(NAME)
    a["x"] = ["y"]
    return load_aliases(NAME)


def ref_alias_tables(NAME: str):
    load_aliases(NAME)
    return load_aliases(NAME)


def scn_key_lists(NAME: str, ROOT: str):
    load_keys_txt(NAME).clear()
    load_ssh_keys(ROOT).clear()
    return load_keys_txt(NAME), load_ssh_keys(ROOT)


def ref_key_lists(NAME: str, ROOT: str):
    load_keys_txt(NAME)
    load_ssh_keys(ROOT)
    return load_keys_txt(NAME), load_ssh_keys(ROOT)


def scn_recipient_lists(A: str):
    resolve_public_key(A).clear()
    return resolve_public_key(A)


def ref_recipient_lists(A: str):
    resolve_public_key(A)
    return resolve_public_key(A)


# ---- arguments are left alone


def scn_keys(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    keys = list(KEYS)
    e = Encryptor(keys, OUT)
    e.write(A)
    e.close()
    return keys


def ref_keys(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    finish(head(KEYS, OUT), A, OUT)
    return KEYS


def scn_ids(IDS: L_DecryptionKey, IN: stream):
    ids = list(IDS)
    d = Decryptor(ids, IN)
    d.read()
    return ids


def ref_ids(IDS: L_DecryptionKey, IN: stream):
    ref_read(IDS, IN)
    return IDS


def scn_dumped(H: L_Recipient, MAC: bytes, OUT: out):
    h = Header(list(H))
    dump_header(h, OUT, MAC)
    return list(h.recipients)


def ref_dumped(H: L_Recipient, MAC: bytes, OUT: out):
    OUT.write(text(H, MAC))
    return H


def scn_resolved(NAME: str, A: str):
    table = {NAME: [A]}
    resolve_public_key(NAME, aliases=table)
    return table


def ref_resolved(NAME: str, A: str):
    resolve_public_key(NAME, aliases={NAME: [A]})
    return {NAME: [A]}


def scn_parsed(ARGS: L_str, BODY: str):
    args = list(ARGS)
    get_recipient("X25519", args, BODY)
    return args


def ref_parsed(ARGS: L_str, BODY: str):
    get_recipient("X25519", ARGS, BODY)
    return list(ARGS)


# ---- a second run


def scn_encrypt2(KEYS: L_EncryptionKey, A: bytes, B: bytes, OUT: out, OUT2: out):
    e = Encryptor(KEYS, OUT)
    e.write(A)
    e.close()
    f = Encryptor(KEYS, OUT2)
    f.write(B)
    f.close()


def ref_encrypt2(KEYS: L_EncryptionKey, A: bytes, B: bytes, OUT: out, OUT2: out):
    finish(head(KEYS, OUT), A, OUT)
    finish(head(KEYS, OUT2), B, OUT2)


def scn_interleaved(KEYS: L_EncryptionKey, OTHER: L_EncryptionKey, A: bytes, B: bytes, C: bytes, OUT: out, OUT2: out):
    e = Encryptor(KEYS, OUT)
    f = Encryptor(OTHER, OUT2)
    e.write(A)
    f.write(B)
    e.write(C)
    f.close()
    e.close()


def ref_interleaved(KEYS: L_EncryptionKey, OTHER: L_EncryptionKey, A: bytes, B: bytes, C: bytes, OUT: out, OUT2: out):
    j = head(KEYS, OUT)
    k = head(OTHER, OUT2)
    finish(k, B, OUT2)
    finish(j, A + C, OUT)


def scn_decrypt2(IDS: L_DecryptionKey, OTHER: L_DecryptionKey, IN: stream, IN2: stream):
    d = Decryptor(IDS, IN)
    e = Decryptor(OTHER, IN2)
    return d.read(), e.read()


def ref_decrypt2(IDS: L_DecryptionKey, OTHER: L_DecryptionKey, IN: stream, IN2: stream):
    return ref_read(IDS, IN), ref_read(OTHER, IN2)


def scn_resolve2(A: str):
    table = {"bob": [A]}
    try:
        resolve_public_key("bob", aliases=table)
    except ValueError:
        pass
    return resolve_public_key("bob", aliases=table)


def ref_resolve2(A: str):
    return resolve_public_key("bob", aliases={"bob": [A]})


# ---- every secret is its own draw


def two(k, l, fk):
    a = generate_recipient_from_key(k, fk)
    b = generate_recipient_from_key(l, fk)
    return a.dump(), b.dump()


def scn_draw_x25519(P: bytes, Q: bytes, FK: bytes):
    return two(AgePublicKey.from_public_bytes(P), AgePublicKey.from_public_bytes(Q), FK)


def ref_draw_x25519(P: bytes, Q: bytes, FK: bytes):
    X25519PrivateKey  # the points are checked when the keys are made
    a = ref_x25519_wrap(P, FK)
    b = ref_x25519_wrap(Q, FK)
    return a[1:], b[1:]


def scn_draw_ed25519(P: Ed25519PublicKey, Q: Ed25519PublicKey, FK: bytes):
    return two(P, Q, FK)


def ref_draw_ed25519(P: Ed25519PublicKey, Q: Ed25519PublicKey, FK: bytes):
    a = ref_ed25519_wrap(P, FK)
    b = ref_ed25519_wrap(Q, FK)
    return a[1:], b[1:]


def scn_draw_scrypt(P: bytes, Q: bytes, FK: bytes):
    return two(PasswordKey(P), PasswordKey(Q), FK)


def ref_draw_scrypt(P: bytes, Q: bytes, FK: bytes):
    a = ref_scrypt_wrap(P, FK)
    b = ref_scrypt_wrap(Q, FK)
    return a[1:], b[1:]


def scn_draw_same(P: bytes, FK: bytes):
    key = AgePublicKey.from_public_bytes(P)
    return two(key, key, FK)


def ref_draw_same(P: bytes, FK: bytes):
    a = ref_x25519_wrap(P, FK)
    b = ref_x25519_wrap(P, FK)
    return a[1:], b[1:]


def scn_draw_same_password(P: bytes, FK: bytes):
    key = PasswordKey(P)
    return two(key, key, FK), key.value


def ref_draw_same_password(P: bytes, FK: bytes):
    a = ref_scrypt_wrap(P, FK)
    b = ref_scrypt_wrap(P, FK)
    return (a[1:], b[1:]), P


def scn_draw_same_ed25519(P: Ed25519PublicKey, FK: bytes):
    return two(P, P, FK)


def ref_draw_same_ed25519(P: Ed25519PublicKey, FK: bytes):
    a = ref_ed25519_wrap(P, FK)
    b = ref_ed25519_wrap(P, FK)
    return a[1:], b[1:]


def scn_draw_dumped(P: bytes, FK: bytes):
    r = generate_recipient_from_key(AgePublicKey.from_public_bytes(P), FK)
    return r.dump(), r.dump()


def ref_draw_dumped(P: bytes, FK: bytes):
    a = ref_x25519_wrap(P, FK)
    return a[1:], a[1:]


def scn_draw_keys():
    a = AgePrivateKey.generate()
    b = AgePrivateKey.generate()
    return a.private_string(), b.private_string()


def ref_draw_keys():
    a = AgePrivateKey(X25519PrivateKey.generate())
    b = AgePrivateKey(X25519PrivateKey.generate())
    return a.private_string(), b.private_string()


def scn_draw_file(KEYS: L_EncryptionKey, A: bytes, OUT: out, OUT2: out):
    e = Encryptor(KEYS, OUT)
    f = Encryptor(KEYS, OUT2)
    e.write(A)
    f.write(A)
    e.close()
    f.close()


def ref_draw_file(KEYS: L_EncryptionKey, A: bytes, OUT: out, OUT2: out):
    j = head(KEYS, OUT)
    k = head(KEYS, OUT2)
    finish(j, A, OUT)
    finish(k, A, OUT2)
