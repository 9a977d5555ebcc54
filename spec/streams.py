"""Writers and readers as streams: pieces, closing, what is written when."""
import base64
import io
import os

from age.file import Decryptor, Encryptor
from age.keys.base import DecryptionKey, EncryptionKey
from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
from age.stream import stream_encrypt
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput, read_ascii_armored
from spec.armor import armored, ref_input, ref_input_2
from spec.header import kdf, mac_of, ref_read, text
from age.format import Recipient

LABEL = "AGE ENCRYPTED FILE"


def head(keys, out):
    file_key = os.urandom(16)
    rs = []
    for k in keys:
        r = generate_recipient_from_key(k, file_key)
        args, body = r.dump()
        rs.append(Recipient(r.TAG, args, body))
    out.write(text(rs, mac_of(file_key, text(rs, None))))
    return file_key


def finish(file_key, data, out):
    nonce = os.urandom(16)
    out.write(b"\n" + nonce + stream_encrypt(kdf(file_key, nonce, b"payload"), data))


def scn_pieces(KEYS: L_EncryptionKey, A: bytes, B: bytes, C: bytes, OUT: out):
    e = Encryptor(KEYS, OUT)
    n = [e.write(A), e.write(B), e.write(C)]
    e.close()
    return n


def ref_pieces(KEYS: L_EncryptionKey, A: bytes, B: bytes, C: bytes, OUT: out):
    finish(head(KEYS, OUT), A + B + C, OUT)
    return [len(A), len(B), len(C)]


def scn_reuse(KEYS: L_EncryptionKey, A: bytes, B: bytes, OUT: out):
    # what was written is what the buffer held then, whatever its owner does with it later
    buffer = bytearray(A)
    e = Encryptor(KEYS, OUT)
    e.write(buffer)
    buffer.clear()
    buffer.extend(B)
    e.write(buffer)
    buffer.clear()
    e.close()
    return len(buffer)


def ref_reuse(KEYS: L_EncryptionKey, A: bytes, B: bytes, OUT: out):
    finish(head(KEYS, OUT), A + B, OUT)
    return 0


def scn_many(KEYS: L_EncryptionKey, PARTS: L_bytes, OUT: out):
    e = Encryptor(KEYS, OUT)
    for p in PARTS:
        e.write(p)
    e.close()


def ref_many(KEYS: L_EncryptionKey, PARTS: L_bytes, OUT: out):
    finish(head(KEYS, OUT), b"".join(PARTS), OUT)


def scn_again(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    e = Encryptor(KEYS, OUT)
    e.write(A)
    e.close()
    e.close()
    e.close()
    return e.closed


def ref_again(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    finish(head(KEYS, OUT), A, OUT)
    return True


def scn_late(KEYS: L_EncryptionKey, A: bytes, B: bytes, OUT: out):
    e = Encryptor(KEYS, OUT)
    e.write(A)
    e.close()
    try:
        e.write(B)
    except ValueError:
        e.close()
        return "refused"
    return "accepted"


def ref_late(KEYS: L_EncryptionKey, A: bytes, B: bytes, OUT: out):
    finish(head(KEYS, OUT), A, OUT)
    return "refused"


def scn_open(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    e = Encryptor(KEYS, OUT)
    e.write(A)
    return e.closed, e.writable()


def ref_open(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    head(KEYS, OUT)
    return False, True


def scn_with(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    with Encryptor(KEYS, OUT) as e:
        e.write(A)
    return e.closed


def ref_with(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    finish(head(KEYS, OUT), A, OUT)
    return True


# ---- armor


def scn_apieces(A: bytes, B: bytes, C: bytes, OUT: out):
    w = AsciiArmoredOutput(LABEL, OUT)
    n = [w.write(A), w.write(B), w.write(C)]
    w.close()
    return n


def ref_apieces(A: bytes, B: bytes, C: bytes, OUT: out):
    OUT.write(armored(LABEL, A + B + C).encode("utf-8"))
    return [len(A), len(B), len(C)]


def scn_areuse(A: bytes, B: bytes, OUT: out):
    buffer = bytearray(A)
    w = AsciiArmoredOutput(LABEL, OUT)
    w.write(buffer)
    buffer.clear()
    buffer.extend(B)
    w.write(buffer)
    buffer.clear()
    w.close()
    return len(buffer)


def ref_areuse(A: bytes, B: bytes, OUT: out):
    OUT.write(armored(LABEL, A + B).encode("utf-8"))
    return 0


def scn_amany(PARTS: L_bytes, OUT: out):
    w = AsciiArmoredOutput(LABEL, OUT)
    for p in PARTS:
        w.write(p)
    w.close()


def ref_amany(PARTS: L_bytes, OUT: out):
    OUT.write(armored(LABEL, b"".join(PARTS)).encode("utf-8"))


def scn_aagain(A: bytes, OUT: out):
    w = AsciiArmoredOutput(LABEL, OUT)
    w.write(A)
    w.close()
    w.close()
    return w.closed


def ref_aagain(A: bytes, OUT: out):
    OUT.write(armored(LABEL, A).encode("utf-8"))
    return True


def scn_alate(A: bytes, B: bytes, OUT: out):
    w = AsciiArmoredOutput(LABEL, OUT)
    w.write(A)
    w.close()
    try:
        w.write(B)
    except ValueError:
        w.close()
        return "refused"
    return "accepted"


def ref_alate(A: bytes, B: bytes, OUT: out):
    OUT.write(armored(LABEL, A).encode("utf-8"))
    return "refused"


def scn_both(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    w = AsciiArmoredOutput(LABEL, OUT)
    e = Encryptor(KEYS, w)
    e.write(A)
    e.close()
    before = w.closed
    w.close()
    return before, w.closed


def ref_both(KEYS: L_EncryptionKey, A: bytes, OUT: out):
    inner = io.BytesIO()
    finish(head(KEYS, inner), A, inner)
    OUT.write(armored(LABEL, inner.getvalue()).encode("utf-8"))
    return False, True


# ---- reading in pieces


def some(data, n):
    if n < 0:
        return data, b""
    return data[:n], data[n:]


def scn_reads(IDS: L_DecryptionKey, IN: stream, N: int, M: int):
    d = Decryptor(IDS, IN)
    return d.read(N), d.read(M), d.read(), d.read(), d.read(N)


def ref_reads(IDS: L_DecryptionKey, IN: stream, N: int, M: int):
    a, rest = some(ref_read(IDS, IN), N)
    b, rest = some(rest, M)
    return a, b, rest, b"", b""


def scn_areads(NAME: str, IN: stream, N: int, M: int):
    d = AsciiArmoredInput(NAME, IN)
    return d.read(N), d.read(M), d.read(), d.read(), d.read(N)


def ref_areads(NAME: str, IN: stream, N: int, M: int):
    a, rest = some(ref_input(NAME, IN), N)
    b, rest = some(rest, M)
    return a, b, rest, b"", b""


def ref_areads_2(NAME: str, IN: stream, N: int, M: int):
    a, rest = some(ref_input_2(NAME, IN), N)
    b, rest = some(rest, M)
    return a, b, rest, b"", b""


def scn_readable(IDS: L_DecryptionKey, IN: stream):
    d = Decryptor(IDS, IN)
    return d.readable(), d.writable(), d.closed


def ref_readable(IDS: L_DecryptionKey, IN: stream):
    ref_read(IDS, IN)
    return True, False, False


def scn_each(IDS: L_DecryptionKey, IN: stream, SIZES: L_int):
    d = Decryptor(IDS, IN)
    got = []
    for n in SIZES:
        got.append(d.read(n))
    return got


def ref_each(IDS: L_DecryptionKey, IN: stream, SIZES: L_int):
    rest = io.BytesIO(ref_read(IDS, IN))
    got = []
    for n in SIZES:
        got.append(rest.read(n))
    return got


def scn_aeach(NAME: str, IN: stream, SIZES: L_int):
    d = AsciiArmoredInput(NAME, IN)
    got = []
    for n in SIZES:
        got.append(d.read(n))
    return got


def ref_aeach(NAME: str, IN: stream, SIZES: L_int):
    rest = io.BytesIO(ref_input(NAME, IN))
    got = []
    for n in SIZES:
        got.append(rest.read(n))
    return got


def ref_aeach_2(NAME: str, IN: stream, SIZES: L_int):
    rest = io.BytesIO(ref_input_2(NAME, IN))
    got = []
    for n in SIZES:
        got.append(rest.read(n))
    return got


def scn_areadable(NAME: str, IN: stream):
    d = AsciiArmoredInput(NAME, IN)
    return d.readable(), d.writable(), d.closed


def ref_areadable(NAME: str, IN: stream):
    ref_input(NAME, IN)
    return True, False, False


def ref_areadable_2(NAME: str, IN: stream):
    ref_input_2(NAME, IN)
    return True, False, False


def scn_aopen(A: bytes, OUT: out):
    w = AsciiArmoredOutput(LABEL, OUT)
    w.write(A)
    return w.closed, w.writable(), w.readable()


def ref_aopen(A: bytes, OUT: out):
    return False, True, False
