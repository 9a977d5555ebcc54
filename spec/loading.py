"""Finding recipients and identities: key strings, files, URLs, aliases, key files, SSH keys."""
import glob
import os
import re

import requests
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey as CEd
from cryptography.hazmat.primitives.asymmetric.rsa import RSAPrivateKey as CRsa
from cryptography.hazmat.primitives.serialization import load_pem_private_key

from age.keyloader import load_aliases, load_keys_txt, load_ssh_keys, load_ssh_private_key, resolve_public_key
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
from age.keys.rsa import RSAPrivateKey, RSAPublicKey
from age.openssh_keys import InvalidKeyFile, load_openssh_private_key


def literal(s):
    s = s.strip()
    if s.startswith("age"):
        return [AgePublicKey.from_public_string(s)]
    if s.startswith("ssh-rsa"):
        return [RSAPublicKey.from_ssh_public_key(s.encode("utf-8"))]
    if s.startswith("ssh-ed25519"):
        return [Ed25519PublicKey.from_ssh_public_key(s.encode("utf-8"))]
    return []


def from_url(url):
    out = []
    response = requests.get(url)
    response.raise_for_status()
    for line in response.text.splitlines():
        out.extend(literal(line))
    return out


def direct(s):
    s = s.strip()
    if s.startswith("github:"):
        return direct2("https://github.com/" + s[7:] + ".keys")
    return direct2(s)


def direct2(s):
    s = s.strip()
    if os.path.isfile(s):
        out = []
        with open(s, "r") as f:
            for line in f:
                out.extend(literal(line))
        return out
    if s.startswith("http://") or s.startswith("https://"):
        return from_url(s)
    return literal(s)


# a line of a file or URL: nothing but a literal key


def scn_line(TEXT: str):
    return resolve_public_key(TEXT, read_aliases=False, read_files=False, read_urls=False)


def ref_line(TEXT: str):
    return literal(TEXT)


def scn_direct(TEXT: str):
    return resolve_public_key(TEXT)


def ref_direct(TEXT: str):
    return direct(TEXT)


def scn_alias(NAME: str, VALUES: L_str, TEXT: str):
    return resolve_public_key(TEXT, aliases={NAME: VALUES})


def ref_alias(NAME: str, VALUES: L_str, TEXT: str):
    if TEXT.strip() == NAME:
        out = []
        for v in VALUES:
            keys = direct(v)
            if not keys:
                raise ValueError()
            out.extend(keys)
        return out
    return direct(TEXT)


# ---- alias files


def scn_aliases(NAME: str):
    return load_aliases(NAME)


def ref_aliases(NAME: str):
    name = os.path.expanduser(NAME)
    out = {}
    if os.path.isfile(name):
        with open(name, "r") as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    label, _, values = line.partition(":")
                    out.setdefault(label, []).extend(values.split())
    return out


def scn_places():
    return load_keys_txt(), load_ssh_keys(), load_aliases()


def ref_places():
    return load_keys_txt("~/.config/age/keys.txt"), load_ssh_keys("~/.ssh"), load_aliases("~/.config/age/aliases.txt")


# ---- identities


def scn_keys_txt(NAME: str):
    return load_keys_txt(NAME)


def ref_keys_txt(NAME: str):
    name = os.path.expanduser(NAME)
    out = []
    if os.path.isfile(name):
        with open(name, "r") as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    out.append(AgePrivateKey.from_private_string(line))
    return out


def scn_ssh_key(NAME: str, PW: bytes):
    return load_ssh_private_key(NAME, PW)


def ref_ssh_key(NAME: str, PW: bytes):
    name = os.path.expanduser(NAME)
    if not os.path.isfile(name):
        return None
    with open(name, "rb") as f:
        data = f.read()
    try:
        key = load_pem_private_key(data, PW)
    except ValueError:
        try:
            key = load_openssh_private_key(data, PW)
        except InvalidKeyFile:
            return None
    if isinstance(key, CRsa):
        return RSAPrivateKey(key)
    if isinstance(key, CEd):
        return Ed25519PrivateKey(key)
    return None


def scn_ssh_keys(ROOT: str):
    return load_ssh_keys(ROOT)


def ref_ssh_keys(ROOT: str):
    out = []
    for name in glob.glob(os.path.join(os.path.expanduser(ROOT), "id_*")):
        try:
            key = load_ssh_private_key(name)
        except Exception:
            continue
        if key:
            out.append(key)
    return out
