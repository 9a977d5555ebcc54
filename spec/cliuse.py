"""The command line: encrypt, decrypt, generate."""
import base64
import io
import os
import stat
import sys
from datetime import datetime

import click

from age.cli import decrypt, encrypt, generate
from age.file import Decryptor, Encryptor
from age.keyloader import load_aliases, load_keys_txt, load_ssh_keys, resolve_public_key
from age.keys.agekey import AgePrivateKey
from age.keys.password import PasswordKey
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput


def recipients(names, password):
    aliases = load_aliases()
    keys = []
    for n in names:
        found = resolve_public_key(n, aliases=aliases)
        if not found:
            sys.exit(1)
        keys.extend(found)
    if password:
        keys.append(PasswordKey(click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")))
    if not keys:
        sys.exit(1)
    return keys


def scn_encrypt(NAMES: L_str, PASSWORD: bool, IN: stream, OUT: out):
    encrypt(recipients=NAMES, infile=IN, outfile=OUT, ask_password=PASSWORD)


def ref_encrypt(NAMES: L_str, PASSWORD: bool, IN: stream, OUT: out):
    e = Encryptor(recipients(NAMES, PASSWORD), OUT)
    e.write(IN.read())
    e.close()


def armored(data):
    text = base64.b64encode(data).decode("ascii")
    out = "-----BEGIN AGE ENCRYPTED FILE-----\n"
    for i in range(0, len(text), 64):
        out += text[i : i + 64] + "\n"
    return (out + "-----END AGE ENCRYPTED FILE-----\n").encode("utf-8")


def scn_encrypt_armor(NAMES: L_str, PASSWORD: bool, IN: stream, OUT: out):
    encrypt(recipients=NAMES, infile=IN, outfile=OUT, ask_password=PASSWORD, ascii_armored=True)


def ref_encrypt_armor(NAMES: L_str, PASSWORD: bool, IN: stream, OUT: out):
    buf = io.BytesIO()
    e = Encryptor(recipients(NAMES, PASSWORD), buf)
    e.write(IN.read())
    e.close()
    OUT.write(armored(buf.getvalue()))


def scn_encrypt_std(NAMES: L_str, PASSWORD: bool):
    encrypt(NAMES, ask_password=PASSWORD)


def ref_encrypt_std(NAMES: L_str, PASSWORD: bool):
    if sys.stdout.isatty():
        sys.exit(1)
    e = Encryptor(recipients(NAMES, PASSWORD), sys.stdout.buffer)
    e.write(sys.stdin.buffer.read())
    e.close()


def scn_encrypt_tty(NAMES: L_str, PASSWORD: bool, IN: stream):
    encrypt(NAMES, infile=IN, ask_password=PASSWORD)


def ref_encrypt_tty(NAMES: L_str, PASSWORD: bool, IN: stream):
    if sys.stdout.isatty():
        sys.exit(1)
    e = Encryptor(recipients(NAMES, PASSWORD), sys.stdout.buffer)
    e.write(IN.read())
    e.close()


def scn_encrypt_nobody(PASSWORD: bool, IN: stream, OUT: out):
    encrypt(infile=IN, outfile=OUT, ask_password=PASSWORD)


def ref_encrypt_nobody(PASSWORD: bool, IN: stream, OUT: out):
    e = Encryptor(recipients([], PASSWORD), OUT)
    e.write(IN.read())
    e.close()


def identities(files, password):
    keys = []
    keys.extend(load_keys_txt())
    keys.extend(load_ssh_keys())
    for f in files:
        keys.extend(load_keys_txt(f))
    if password:
        keys.append(PasswordKey(click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")))
    if not keys:
        sys.exit(1)
    return keys


def scn_decrypt(FILES: L_str, PASSWORD: bool, IN: stream, OUT: out):
    decrypt(infile=IN, outfile=OUT, ask_password=PASSWORD, keyfiles=FILES)


def ref_decrypt(FILES: L_str, PASSWORD: bool, IN: stream, OUT: out):
    OUT.write(Decryptor(identities(FILES, PASSWORD), IN).read())


def scn_decrypt_std(FILES: L_str, PASSWORD: bool):
    decrypt(keyfiles=FILES, ask_password=PASSWORD)


def ref_decrypt_std(FILES: L_str, PASSWORD: bool):
    sys.stdout.buffer.write(Decryptor(identities(FILES, PASSWORD), sys.stdin.buffer).read())


def scn_decrypt_armor(FILES: L_str, PASSWORD: bool, IN: stream, OUT: out):
    decrypt(infile=IN, outfile=OUT, keyfiles=FILES, ask_password=PASSWORD, ascii_armored=True)


def ref_decrypt_armor(FILES: L_str, PASSWORD: bool, IN: stream, OUT: out):
    OUT.write(Decryptor(identities(FILES, PASSWORD), AsciiArmoredInput("AGE ENCRYPTED FILE", IN)).read())


# ---- generate


def scn_generate(OUT: tout):
    generate(OUT)


def ref_generate(OUT: tout):
    key = AgePrivateKey.generate()
    OUT.write("# created: " + format(datetime.now(), "%Y-%m-%dT%H:%M:%S") + "\n")
    OUT.write("# " + key.public_key().public_string() + "\n")
    OUT.write(key.private_string() + "\n")


def scn_generate_std():
    generate()


def ref_generate_std():
    key = AgePrivateKey.generate()
    sys.stdout.write("# created: " + format(datetime.now(), "%Y-%m-%dT%H:%M:%S") + "\n")
    sys.stdout.write("# " + key.public_key().public_string() + "\n")
    sys.stdout.write(key.private_string() + "\n")
