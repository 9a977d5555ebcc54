"""What is shown of secret values."""
from age.keys.agekey import AgePrivateKey
from age.keys.ed25519 import Ed25519PrivateKey
from age.keys.password import PasswordKey
from age.keys.rsa import RSAPrivateKey
from age.openssh_keys import load_openssh_private_key
from age.recipients.helpers import get_recipient


def shown(x):
    return repr(x), str(x), f"{x}", "%s" % x, "{!r}".format(x)


def scn_show_password(SEC: bytes):
    return shown(PasswordKey(SEC))


def scn_show_age(SEC: bytes):
    return shown(AgePrivateKey.from_private_bytes(SEC))


def scn_show_ed25519(SEC: Ed25519PrivateKey):
    return shown(SEC)


def scn_show_rsa(SEC: RSAPrivateKey):
    return shown(SEC)


def scn_show_keys(P: bytes, K: AgePrivateKey):
    return str([PasswordKey(P), K])


def scn_read_private(SEC: str):
    return AgePrivateKey.from_private_string(SEC)


def scn_wrong_secret(SEC: bytes):
    return AgePrivateKey.from_private_bytes(SEC)


def scn_unwrap_x25519(ARGS: L_str, BODY: str, SEC: AgePrivateKey):
    return get_recipient("X25519", ARGS, BODY).decrypt(SEC)
