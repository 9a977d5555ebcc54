"""Payload: the STREAM construction (64 KiB chunks, counter and final flag in the nonce)."""
import os

from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

from age.stream import stream_decrypt, stream_encrypt


def scn_seal(KEY: bytes, DATA: bytes):
    return stream_encrypt(KEY, DATA)


def ref_seal(KEY: bytes, DATA: bytes):
    if len(KEY) != 32:
        raise ValueError()
    n = max(1, (len(DATA) + 65535) // 65536)
    out = b""
    for i in range(n):
        nonce = i.to_bytes(11, "big") + (b"\x01" if i == n - 1 else b"\x00")
        if i > 2 ** 88 - 1:
            raise ValueError()
        out += ChaCha20Poly1305(KEY).encrypt(nonce, DATA[i * 65536 : (i + 1) * 65536], b"")
    return out


def scn_open(KEY: bytes, DATA: bytes):
    return stream_decrypt(KEY, DATA)


def ref_open(KEY: bytes, DATA: bytes):
    if len(KEY) != 32:
        raise ValueError()
    n = max(1, (len(DATA) + 65551) // 65552)
    out = b""
    for i in range(n):
        nonce = i.to_bytes(11, "big") + (b"\x01" if i == n - 1 else b"\x00")
        if i > 2 ** 88 - 1:
            raise ValueError()
        out += ChaCha20Poly1305(KEY).decrypt(nonce, DATA[i * 65552 : (i + 1) * 65552], b"")
    return out
