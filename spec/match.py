"""Finding the identity that opens the file, and the key types that may be encrypted to."""
import base64

from cryptography.exceptions import InvalidTag

from age.exceptions import NoIdentity, UnknownRecipient
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.base import DecryptionKey, EncryptionKey
from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
from age.keys.password import PasswordKey
from age.keys.rsa import RSAPrivateKey, RSAPublicKey
from age.recipients.base import Recipient
from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
from age.recipients.scrypt import SCryptRecipient
from age.recipients.ssh_ed25519 import SSHED25519Recipient
from age.recipients.ssh_rsa import SSHRSARecipient
from age.recipients.x25519 import X25519Recipient
from spec.wrap import b64, ref_ed25519_unwrap, ref_rsa_unwrap, ref_scrypt_unwrap, ref_x25519_unwrap


def search(recipients, keys):
    for r in recipients:
        for k in keys:
            if isinstance(k, r.DECRYPTION_KEY_TYPE):
                try:
                    return r.decrypt(k)
                except (InvalidTag, ValueError):
                    pass
    raise NoIdentity()


# ---- whatever is wrong with the only stanza for the only identity, it is that no identity matches


def one(unwrap, args, body, sec):
    try:
        return unwrap([b64(a) for a in args], b64(body), sec)
    except (InvalidTag, ValueError):
        raise NoIdentity()


def scn_one_rsa(TAG: bytes, BODY: bytes, SEC: RSAPrivateKey):
    return decrypt_file_key([get_recipient("ssh-rsa", [b64(TAG)], b64(BODY))], [SEC])


def ref_one_rsa(TAG: bytes, BODY: bytes, SEC: RSAPrivateKey):
    return one(ref_rsa_unwrap, [TAG], BODY, SEC)


def scn_one_ed25519(TAG: bytes, SHARE: bytes, BODY: bytes, SEC: Ed25519PrivateKey):
    return decrypt_file_key([get_recipient("ssh-ed25519", [b64(TAG), b64(SHARE)], b64(BODY))], [SEC])


def ref_one_ed25519(TAG: bytes, SHARE: bytes, BODY: bytes, SEC: Ed25519PrivateKey):
    return one(ref_ed25519_unwrap, [TAG, SHARE], BODY, SEC)


def scn_one_x25519(SHARE: bytes, BODY: bytes, SEC: bytes):
    return decrypt_file_key([get_recipient("X25519", [b64(SHARE)], b64(BODY))], [AgePrivateKey.from_private_bytes(SEC)])


def ref_one_x25519(SHARE: bytes, BODY: bytes, SEC: bytes):
    return one(ref_x25519_unwrap, [SHARE], BODY, SEC)


def scn_one_scrypt(SALT: bytes, COST: int, BODY: bytes, PW: bytes):
    return decrypt_file_key([get_recipient("scrypt", [b64(SALT), str(COST)], b64(BODY))], [PasswordKey(PW)])


def ref_one_scrypt(SALT: bytes, COST: int, BODY: bytes, PW: bytes):
    try:
        return ref_scrypt_unwrap([b64(SALT), str(COST)], b64(BODY), PW)
    except (InvalidTag, ValueError):
        raise NoIdentity()


def scn_x25519(RS: L_X25519Recipient, KEYS: L_DecryptionKey):
    return decrypt_file_key(RS, KEYS)


def ref_x25519(RS: L_X25519Recipient, KEYS: L_DecryptionKey):
    return search(RS, KEYS)


def scn_ed25519(RS: L_SSHED25519Recipient, KEYS: L_DecryptionKey):
    return decrypt_file_key(RS, KEYS)


def ref_ed25519(RS: L_SSHED25519Recipient, KEYS: L_DecryptionKey):
    return search(RS, KEYS)


def scn_rsa(RS: L_SSHRSARecipient, KEYS: L_DecryptionKey):
    return decrypt_file_key(RS, KEYS)


def ref_rsa(RS: L_SSHRSARecipient, KEYS: L_DecryptionKey):
    return search(RS, KEYS)


def scn_scrypt(RS: L_SCryptRecipient, KEYS: L_DecryptionKey):
    return decrypt_file_key(RS, KEYS)


def ref_scrypt(RS: L_SCryptRecipient, KEYS: L_DecryptionKey):
    return search(RS, KEYS)


def scn_mixed(A: X25519Recipient, B: SSHRSARecipient, KEYS: L_DecryptionKey):
    return decrypt_file_key([A, B], KEYS)


def ref_mixed(A: X25519Recipient, B: SSHRSARecipient, KEYS: L_DecryptionKey):
    return search([A, B], KEYS)


def scn_mixed4(A: SCryptRecipient, B: SSHRSARecipient, C: SSHED25519Recipient, D: X25519Recipient, KEYS: L_DecryptionKey):
    return decrypt_file_key([A, B, C, D], KEYS)


def ref_mixed4(A: SCryptRecipient, B: SSHRSARecipient, C: SSHED25519Recipient, D: X25519Recipient, KEYS: L_DecryptionKey):
    return search([A, B, C, D], KEYS)


def scn_keys(RS: L_X25519Recipient, K1: AgePrivateKey, K2: PasswordKey, K3: AgePrivateKey):
    return decrypt_file_key(RS, [K1, K2, K3])


def ref_keys(RS: L_X25519Recipient, K1: AgePrivateKey, K2: PasswordKey, K3: AgePrivateKey):
    return search(RS, [K1, K2, K3])


# ---- which stanza for which key


def scn_gen(K: EncryptionKey, FK: bytes):
    return generate_recipient_from_key(K, FK)


def ref_gen(K: EncryptionKey, FK: bytes):
    if isinstance(K, PasswordKey):
        return SCryptRecipient.generate(K, FK)
    if isinstance(K, RSAPublicKey):
        return SSHRSARecipient.generate(K, FK)
    if isinstance(K, Ed25519PublicKey):
        return SSHED25519Recipient.generate(K, FK)
    if isinstance(K, AgePublicKey):
        return X25519Recipient.generate(K, FK)
    raise UnknownRecipient()


def scn_parse(TYPE: str, ARGS: L_str, BODY: str):
    return get_recipient(TYPE, ARGS, BODY)


def ref_parse(TYPE: str, ARGS: L_str, BODY: str):
    if TYPE == "X25519":
        return X25519Recipient.load(ARGS, BODY)
    if TYPE == "ssh-rsa":
        return SSHRSARecipient.load(ARGS, BODY)
    if TYPE == "ssh-ed25519":
        return SSHED25519Recipient.load(ARGS, BODY)
    if TYPE == "scrypt":
        return SCryptRecipient.load(ARGS, BODY)
    raise UnknownRecipient()


def b64(data):
    return base64.b64encode(data).decode("ascii").rstrip("=")


def unb64(text):
    return base64.b64decode(text + "===")


def scn_redump(TYPE: str, ARGS: L_str, BODY: str):
    if TYPE == "scrypt":
        return None
    return get_recipient(TYPE, ARGS, BODY).dump()


def ref_redump(TYPE: str, ARGS: L_str, BODY: str):
    if TYPE == "scrypt":
        return None
    if TYPE == "X25519" or TYPE == "ssh-rsa":
        return [b64(unb64(ARGS[0]))], b64(unb64(BODY))
    if TYPE == "ssh-ed25519":
        return [b64(unb64(ARGS[0])), b64(unb64(ARGS[1]))], b64(unb64(BODY))
    raise UnknownRecipient()


def scn_redump_scrypt(ARGS: L_str, BODY: str):
    return get_recipient("scrypt", ARGS, BODY).dump()


def ref_redump_scrypt(ARGS: L_str, BODY: str):
    return [b64(unb64(ARGS[0])), str(int(ARGS[1]))], b64(unb64(BODY))


def scn_types():
    return (
        X25519Recipient.DECRYPTION_KEY_TYPE is AgePrivateKey,
        SSHRSARecipient.DECRYPTION_KEY_TYPE is RSAPrivateKey,
        SSHED25519Recipient.DECRYPTION_KEY_TYPE is Ed25519PrivateKey,
        SCryptRecipient.DECRYPTION_KEY_TYPE is PasswordKey,
    )


def ref_types():
    return True, True, True, True
