#!/usr/bin/env python3
"""Rewrites known-findings.txt: the recorded findings (findings.txt lines kept as they are at the top) and one
'fixed:' line per fix commit of /repo; properties by commit in PROPS.  Developer tool, no check runs it."""
import subprocess, os
V = os.path.dirname(os.path.abspath(__file__))
PROPS = {}
for line in """4f45685 C01,33c2c50 C02,ea643ea C02,7e92440 C03,e9549f5 C03,49da8f6 C04,627bf00 C04,e717465 C04,4095420 C04,752a59d C04,edb34c6 C04,925241b C06,4b01221 C06,542b536 C06,3349dc6 C06,812c4b9 C06,5aa0372 C06,37500d9 C05,9f35749 C05,d592244 C05,12ffea6 C05,e478e0b C07,5664ccf C23,2895a3e C06,d8cd572 C05,ff1e309 C06,2447b2c C06,add8fac C06,9ec4a9b C09,eb511a1 C09,ef957d1 C12,8a0167f C12,3362c46 C12,f65ab16 C12,35d5854 C12,d1ed688 C08,4456df4 C11,09f6946 C07,4a805c5 C09,ded0255 C14,08c74a3 C10,f116e54 C09,c6c823d C10,9b0b1ee C25,4ba2d56 C25,8e7f986 C12,6c38618 C08,b7c45e1 C08,6949ba1 C08,c6420d9 C12,25eea06 C04,7ba03b9 C15,c1f1ff0 C03,f41a38f C02""".split(","):
    h, p = line.split(); PROPS[h] = p
EXTRA = os.path.join(V, "fixprops.txt")
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if l.strip(): h, p = l.split()[:2]; PROPS[h[:7]] = p
keep = []
f = os.path.join(V, "known-findings.txt")
if os.path.exists(f): keep = [l.rstrip("\n") for l in open(f) if not l.startswith("fixed:")]
while keep and not keep[-1].strip(): keep.pop()
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
out = keep + [""] if keep else []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        if h[:7] not in PROPS: print("no property for", l); continue
        out.append(f"fixed: property={PROPS[h[:7]]} {h} {s[5:]}")
open(f, "w").write("\n".join(out) + "\n")
