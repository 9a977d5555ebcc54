"""Command line options reach the operation under their own meaning.

`invoke` runs a command the way click does: the declared options decide which parameter receives which value.
"""
from age.cli import decrypt, encrypt, generate, main

from vfa_click import invoke


def scn_encrypt_all(NAMES: L_str, PASSWORD: bool, ASCII: bool, IN: stream, OUT: out):
    invoke(main, "encrypt", ("-i", "rb", IN), ("-o", "wb", OUT), ("-p", "flag", PASSWORD), ("-a", "flag", ASCII), ("*", "many", NAMES))


def ref_encrypt_all(NAMES: L_str, PASSWORD: bool, ASCII: bool, IN: stream, OUT: out):
    encrypt(recipients=NAMES, infile=IN, outfile=OUT, ask_password=PASSWORD, ascii_armored=ASCII)


def scn_encrypt_long(NAMES: L_str, PASSWORD: bool, ASCII: bool, IN: stream, OUT: out):
    invoke(main, "encrypt", ("--infile", "rb", IN), ("--outfile", "wb", OUT), ("--password", "flag", PASSWORD), ("--ascii", "flag", ASCII), ("*", "many", NAMES))


def ref_encrypt_long(NAMES: L_str, PASSWORD: bool, ASCII: bool, IN: stream, OUT: out):
    encrypt(recipients=NAMES, infile=IN, outfile=OUT, ask_password=PASSWORD, ascii_armored=ASCII)


def scn_encrypt_none():
    invoke(main, "encrypt")


def ref_encrypt_none():
    encrypt(recipients=[])


def scn_encrypt_out(NAMES: L_str, OUT: out):
    invoke(main, "encrypt", ("*", "many", NAMES), ("-o", "wb", OUT))


def ref_encrypt_out(NAMES: L_str, OUT: out):
    encrypt(recipients=NAMES, outfile=OUT)


def scn_encrypt_in(NAMES: L_str, IN: stream):
    invoke(main, "encrypt", ("*", "many", NAMES), ("-i", "rb", IN))


def ref_encrypt_in(NAMES: L_str, IN: stream):
    encrypt(recipients=NAMES, infile=IN)


def scn_decrypt_all(FILES: L_str, PASSWORD: bool, ASCII: bool, IN: stream, OUT: out):
    invoke(main, "decrypt", ("-i", "rb", IN), ("-o", "wb", OUT), ("-p", "flag", PASSWORD), ("-a", "flag", ASCII), ("*", "many", FILES))


def ref_decrypt_all(FILES: L_str, PASSWORD: bool, ASCII: bool, IN: stream, OUT: out):
    decrypt(keyfiles=FILES, infile=IN, outfile=OUT, ask_password=PASSWORD, ascii_armored=ASCII)


def scn_decrypt_long(FILES: L_str, PASSWORD: bool, ASCII: bool, IN: stream, OUT: out):
    invoke(main, "decrypt", ("--infile", "rb", IN), ("--outfile", "wb", OUT), ("--password", "flag", PASSWORD), ("--ascii", "flag", ASCII), ("*", "many", FILES))


def ref_decrypt_long(FILES: L_str, PASSWORD: bool, ASCII: bool, IN: stream, OUT: out):
    decrypt(keyfiles=FILES, infile=IN, outfile=OUT, ask_password=PASSWORD, ascii_armored=ASCII)


def scn_decrypt_none():
    invoke(main, "decrypt")


def ref_decrypt_none():
    decrypt()


def scn_decrypt_out(OUT: out):
    invoke(main, "decrypt", ("-o", "wb", OUT))


def ref_decrypt_out(OUT: out):
    decrypt(outfile=OUT)


def scn_decrypt_in(IN: stream):
    invoke(main, "decrypt", ("-i", "rb", IN))


def ref_decrypt_in(IN: stream):
    decrypt(infile=IN)


def scn_generate(OUT: tout):
    invoke(main, "generate", ("-o", "w", OUT))


def ref_generate(OUT: tout):
    generate(OUT)


def scn_generate_long(OUT: tout):
    invoke(main, "generate", ("--outfile", "w", OUT))


def ref_generate_long(OUT: tout):
    generate(OUT)


def scn_generate_std():
    invoke(main, "generate")


def ref_generate_std():
    generate()
