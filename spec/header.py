"""The file header and how the payload hangs off it."""
import base64
import io
import os
import textwrap

from cryptography.hazmat.primitives import hashes, hmac
from cryptography.hazmat.primitives.kdf.hkdf import HKDF

from age.exceptions import UnknownRecipient
from age.file import Decryptor, Encryptor
from age.format import Header, Recipient, dump_header, load_header
from age.keys.base import DecryptionKey, EncryptionKey
from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
from age.stream import stream_decrypt, stream_encrypt


def b64(data):
    return base64.b64encode(data).decode("ascii").rstrip("=")


def text(header, mac):
    out = b"age-encryption.org/v1\n"
    for r in header:
        out += ("-> " + r.type + " " + " ".join(r.arguments) + "\n").encode("utf-8")
        if r.body:
            out += textwrap.fill(r.body, width=64, break_on_hyphens=False).encode("utf-8") + b"\n"
    out += b"---"
    if mac:
        out += (" " + b64(mac)).encode("utf-8")
    return out


def kdf(key, salt, label):
    return HKDF(algorithm=hashes.SHA256(), length=32, salt=salt, info=label).derive(key)


def mac_of(file_key, data):
    h = hmac.HMAC(kdf(file_key, b"", b"header"), hashes.SHA256())
    h.update(data)
    return h.finalize()


# ---- writing


def scn_write(KEYS: L_EncryptionKey, DATA: bytes, OUT: out):
    e = Encryptor(KEYS, OUT)
    e.write(DATA)
    e.close()


def ref_write(KEYS: L_EncryptionKey, DATA: bytes, OUT: out):
    file_key = os.urandom(16)
    rs = []
    for k in KEYS:
        r = generate_recipient_from_key(k, file_key)
        args, body = r.dump()
        rs.append(Recipient(r.TAG, args, body))
    OUT.write(text(rs, mac_of(file_key, text(rs, None))))
    OUT.write(b"\n")
    nonce = os.urandom(16)
    OUT.write(nonce)
    OUT.write(stream_encrypt(kdf(file_key, nonce, b"payload"), DATA))


def scn_write_two(K1: EncryptionKey, K2: EncryptionKey, DATA: bytes, OUT: out):
    e = Encryptor([K1, K2], OUT)
    e.write(DATA)
    e.close()


def ref_write_two(K1: EncryptionKey, K2: EncryptionKey, DATA: bytes, OUT: out):
    ref_write([K1, K2], DATA, OUT)


def scn_dump(H: L_Recipient, MAC: bytes, OUT: out):
    dump_header(Header(H), OUT, MAC)


def ref_dump(H: L_Recipient, MAC: bytes, OUT: out):
    OUT.write(text(H, MAC))


# ---- reading


def scn_read(IDS: L_DecryptionKey, IN: stream):
    return Decryptor(IDS, IN).read()


def ref_read(IDS: L_DecryptionKey, IN: stream):
    header, mac = load_header(IN)
    rs = []
    for r in header.recipients:
        try:
            rs.append(get_recipient(r.type, r.arguments, r.body))
        except UnknownRecipient:
            pass
    file_key = decrypt_file_key(rs, IDS)
    h = hmac.HMAC(kdf(file_key, b"", b"header"), hashes.SHA256())
    h.update(text(header.recipients, None))
    h.verify(mac)
    nonce = IN.read(16)
    if len(nonce) != 16:
        raise ValueError()
    return stream_decrypt(kdf(file_key, nonce, b"payload"), IN.read())


# ---- header grammar


def scn_load(IN: stream):
    header, mac = load_header(IN)
    return header.recipients, mac


def ref_load(IN: stream):
    if IN.readline().strip().decode("utf-8", "replace") != "age-encryption.org/v1":
        raise ValueError()
    rs = []
    line = ""
    for raw in IN:
        line = raw.decode("utf-8")
        if line.startswith("->"):
            words = line[2:].split()
            if not words:
                raise ValueError()
            rs.append(Recipient(words[0], words[1:]))
        elif line.startswith("---"):
            break
        elif rs:
            rs[-1].body += line.strip()
    words = line.split()
    if not (line.startswith("---") and len(words) == 2 and words[0] == "---"):
        raise ValueError()
    mac = base64.b64decode(words[1] + "===")
    return rs, mac
