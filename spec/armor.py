"""ASCII armor."""
import base64
import io
import re

from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput, read_ascii_armored, write_ascii_armored


def bad(label):
    return label.upper() != label or "-" in label or label.startswith(" ") or label.endswith(" ")


def sections(text, strict):
    out = []
    current = None
    lines = []
    for line in text:
        if current is None:
            m = re.match(r"^-----BEGIN ([^-]*)-----\n$", line)
            if m:
                if bad(m.group(1)):
                    raise ValueError()
                current = m.group(1)
        else:
            m = re.match(r"^-----END ([^-]*)-----\n?$", line)
            if not m:
                lines.append(line.strip())
            elif m.group(1) != current:
                raise ValueError()
            else:
                if strict:
                    for i, x in enumerate(lines):
                        if len(x) > 64 or (len(x) < 64 and i < len(lines) - 1):
                            raise ValueError()
                out.append((current, base64.b64decode("".join(lines), validate=True)))
                current = None
                lines = []
    if current is not None:
        raise ValueError()
    return out


def scn_read_strict(IN: stream):
    return list(read_ascii_armored(io.TextIOWrapper(IN, "utf-8")))


def ref_read_strict(IN: stream):
    return sections(io.TextIOWrapper(IN, "utf-8"), True)


def scn_read_loose(IN: stream):
    return list(read_ascii_armored(io.TextIOWrapper(IN, "utf-8"), strict_line_length=False))


def ref_read_loose(IN: stream):
    return sections(io.TextIOWrapper(IN, "utf-8"), False)


def armored(label, data):
    text = base64.b64encode(data).decode("ascii")
    out = "-----BEGIN " + label + "-----\n"
    for i in range(0, len(text), 64):
        out += text[i : i + 64] + "\n"
    return out + "-----END " + label + "-----\n"


def scn_write(LABEL: str, DATA: bytes, OUT: tout):
    write_ascii_armored(OUT, LABEL, DATA)


def ref_write(LABEL: str, DATA: bytes, OUT: tout):
    if bad(LABEL):
        raise ValueError()
    OUT.write(armored(LABEL, DATA))


def scn_output(A: bytes, B: bytes, OUT: out):
    w = AsciiArmoredOutput("AGE ENCRYPTED FILE", OUT)
    w.write(A)
    w.write(B)
    w.close()


def ref_output(A: bytes, B: bytes, OUT: out):
    OUT.write(armored("AGE ENCRYPTED FILE", A + B).encode("utf-8"))


def scn_input(LABEL: str, IN: stream):
    return AsciiArmoredInput(LABEL, IN).read()


def ref_input(LABEL: str, IN: stream):
    found = []
    for label, data in read_ascii_armored(io.TextIOWrapper(IN, "utf-8")):
        if label == LABEL:
            found.append(data)
    if len(found) != 1:
        raise ValueError()
    return found[0]


def ref_input_2(LABEL: str, IN: stream):
    data = b""
    n = 0
    for label, decoded in read_ascii_armored(io.TextIOWrapper(IN, "utf-8")):
        if label == LABEL:
            data = decoded
            n += 1
    if n != 1:
        raise ValueError()
    return data
