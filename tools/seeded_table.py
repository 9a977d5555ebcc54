"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeded -->"


def main():
    rows = []
    for n in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))
        rows.append("| %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/")))
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read().split(MARK)[0].rstrip()
    open(p, "w").write(s + "\n\n" + MARK + "\n| bug | caught by the check of | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n")


main()
