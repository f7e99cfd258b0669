"""Writes the table of planted bugs into DESIGN.md (between the markers) from seeded/*/meta.json and the notes below."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# planted bugs that a check missed at first, and what was made stronger; all are caught by the check of their property now
MISSED = {
    "B05": "C05: reads of one result between the changes", "B15": "C17: points exactly on the rim", "B16": "C18: complex exponents with zero imaginary part",
    "B18": "C20: constants used in expressions before the change", "B21": "C23: second use of the same kind after a refusal",
    "B28": "C30: every array handed out is overwritten", "B30": "C08: beams of wide dynamic range", "B34": "C19: factors 2^-20..2^20",
    "B43": "C06: several propagations and blocks in a row", "B44": "C30: arrays handed in are overwritten and reused",
    "B48": "C23: rotated profiles and expressions compared to double precision", "B60": "C31: the same request again, and in the opposite order in a second process",
    "B61": "C31: as B60", "B62": "C31: as B60", "B63": "C31: as B60, and a narrower rule for excused mirrors", "B79": "C10: long series of draws",
    "B86": "C17: points far outside the aperture", "B87": "C18: a profile combined with itself", "B96": "C27: the minimum picture time differs between loads",
    "B100": "C31: omitted arguments after given ones", "B113": "C35: coordinates over many orders of magnitude, common centres",
    "B114": "C35: arrays whose first and last rows and columns agree", "B116": "C35: thousands of points in either memory order",
    "B103": "C07: complex windows", "B118": "C36: twins that differ in one parameter", "B139": "C05: powers read after every operation",
    "B171": "C13: switching all mirrors after a state that is not binary", "B175": "C33: refused patches beside the chip",
    "B127": "C10: sub-check `rare`, chips of up to 900 x 900 with tiny probabilities"}


def main():
    rows = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")), key=lambda f: int(f.split(os.sep)[-2][1:])):
        m, i = json.load(open(f)), f.split(os.sep)[-2]
        rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"),
                                              "missed at first; " + MISSED[i] if i in MISSED else ""))
    text = ("## Planted bugs\n\n%d changes under `seeded/`, each confirmed to build, to pass the existing tests and to fail its own demonstration. Each is\n"
            "caught by the quick check of its property (seed 1). Where the check missed it at first, the last column says what was\n"
            "strengthened (a generator or an oracle for the class of inputs, never a special case for the bug).\n\n"
            "| id | caught by | breaks | needs | |\n|---|---|---|---|---|\n%s\n" % (len(rows), "\n".join(rows)))
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
    if a in s:
        s = s[:s.index(a)] + s[s.index(b) + len(b):]
    s = s.rstrip() + "\n\n" + a + text + b
    open(p, "w").write(s)


main()
