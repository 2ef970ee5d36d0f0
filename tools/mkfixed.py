#!/usr/bin/env python3
"""Writes the record of repaired defects into KNOWN_FINDINGS.json ("fixed")."""
import json, subprocess
P = {}
for part in """65960af C04; 7cc9bca C04; cb39502 C03; dbdf785 C08; 6be3cf9 C08/C10; 75e8482 C08; 7a51534 C20; a2d30a2 C17; 6423e04 C16; 96728a8 C13; 8d0a764 C14; 1128afe C15/C13; cfc37fa C15; b305256 C15; 5a54b4a C18; dfc6c57 C19; 691719f C18; 5d8d337 C10; ae388ca C10; 8cc5f6e C10/C12/C29; b855163 C11/C10/C12; 697d72a C10/C08; 78c00d3 C08; c7a59c6 C06/C10; 7e3c644 C01; 920f908 C07; 47e5203 C30; f34b508 C24; 79714f7 C28/C13; 59ba535 C10/C12; 5dc59a4 C08; bfb4819 C08; 080cacf C26; 07eebaa C26; 20b7712 C26; bd45d06 C25; 3c41ca2 C24/C26; e607ae2 C27; bd9df1d C24; 3c4fa8e C30; 75cea56 C24; 10599d4 C27; 2fd4bdb C31; c63728d C11; 1442908 C32; 5fb5035 C01/C02; 5736042 C16; d01c0bc C30; 195b8e4 C30; dd7da9b C13/C14; 42c7099 C13; ee74cf2 C34; d7b5ccc C19/C28; a604782 C35; 3b0aef9 C35; 379f7e9 C35; a94b16e C37""".split(";"):
    c, p = part.split()
    P[c] = p.split("/")
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        if h not in P:
            raise SystemExit("no property for " + l)
        for p in P[h]:
            out.append("fixed: property=%s %s %s" % (p, h, s[5:]))
f = "/verif/KNOWN_FINDINGS.json"
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
print(len(out), "fixed entries,", len(d["findings"]), "findings")
