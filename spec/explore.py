import io
from age.file import Encryptor, Decryptor
from age.format import load_header, dump_header
from age.keys.agekey import AgePublicKey, AgePrivateKey
from age.keys.password import PasswordKey
from age.recipients.helpers import decrypt_file_key, get_recipient, generate_recipient_from_key

def enc1(KEY: bytes, DATA: bytes, OUT: out):
    e = Encryptor([AgePublicKey.from_public_bytes(KEY)], OUT)
    e.write(DATA)
    e.close()

def encn(KEYS, DATA: bytes, OUT: out):
    e = Encryptor(KEYS, OUT)
    e.write(DATA)
    e.close()

def dec1(KEY: bytes, IN: stream):
    d = Decryptor([AgePrivateKey.from_private_bytes(KEY)], IN)
    return d.read()

def hdr(IN: stream):
    h, mac = load_header(IN)
    return h, mac

def dump(H, MAC: bytes, OUT: out):
    dump_header(H, OUT, MAC)

def dfk(RS: L_X, K: bytes):
    return decrypt_file_key(RS, [AgePrivateKey.from_private_bytes(K)])

def dfk2(R: bytes, S: bytes, K: bytes):
    return decrypt_file_key([get_recipient("X25519", [R], S)], [AgePrivateKey.from_private_bytes(K)])

def gr(TYPE: str, ARGS: L_str, BODY: str):
    return get_recipient(TYPE, ARGS, BODY)

def gen(KEY, FK: bytes):
    return generate_recipient_from_key(KEY, FK)


def armor(F: stream):
    from age.utils.asciiarmor import read_ascii_armored
    import io
    return list(read_ascii_armored(io.TextIOWrapper(F, "utf-8"), False))


def st1(L: L_str):
    cur = None
    n = 0
    for x in L:
        if cur is None:
            if x.startswith("B"):
                cur = x
        else:
            if x == cur:
                n += 1
                cur = None
    return n, cur


def st2(L: L_str):
    cur = None
    n = 0
    for x in L:
        if cur is None:
            if x.startswith("B"):
                cur = x
        else:
            if x.startswith("E"):
                if x == cur:
                    n += 1
                    cur = None
                else:
                    raise ValueError()
    return n, cur


def rl1(L: L_str):
    out = []
    cur = []
    for x in L:
        if x == "E":
            out.append("".join(cur))
            cur = []
        else:
            cur.append(x)
    return out


def rl2(L: L_str):
    out = []
    cur = []
    for x in L:
        if x == "E":
            out.append("".join(cur))
            cur.clear()
        else:
            cur.append(x)
    return out
