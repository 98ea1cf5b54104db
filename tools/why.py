#!/usr/bin/env python3
"""why <replay file> : for a refused brush-engine history, says which states, at the refused line,
differ from what the specification computes (debugging aid; not part of any check)."""
import os, re, sys, shutil, tempfile, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import common, build as B
head = [l for l in open(sys.argv[1]) if l.startswith("# ")]
script = "".join(l for l in open(sys.argv[1]) if not l.startswith("# "))
driver, variant, args, spec = re.match(r"# driver (\S+) \(variant (\S+)\) args (.*), specification (\S+)", head[2]).groups()
consts = head[3][2:].strip().replace(" ; ", "\n")
d = tempfile.mkdtemp()
for f in os.listdir(common.SPEC): shutil.copy(os.path.join(common.SPEC, f), d)
p = os.path.join(d, "TraceBrush.tla"); s = open(p).read()
s = s.replace('StatesOK(u) == \\A n \\in Judged : StateNear(u, e.st, n)',
  'StatesOK(u) == \\A n \\in Judged : StateNear(u, e.st, n) \\/ (PrintT(<<"STATE", i, n, u.s[n], u.t[n], FBits(e.st[n])>>) /\\ FALSE)')
s = s.replace('Holds(x) == x = TRUE', 'Holds(x) == (x = TRUE) \\/ (PrintT(<<"REFUSED", i>>) /\\ FALSE)')
s = s.replace('/\\ \\A n \\in DOMAIN f.st : IF', '/\\ \\A n \\in DOMAIN f.st : IF')
open(p, "w").write(s)
p = os.path.join(d, "TraceBrush.tla")
for q in sys.argv[2:]:
    a, b = q.split("==>>"); s = open(p).read(); assert a in s; open(p, "w").write(s.replace(a, b))
common.SPEC = d
c = common.Ctx("B00", "model_checking")
tr, rc, err = c.drive(B.build(driver, variant), script, args=args.split())
ok, line, out = c.check_trace(tr, spec, consts + "\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Accepts\n")
print("accepted" if ok else "refused at %d" % line)
for m in re.finditer(r'<<\s*"(?:STATE|REFUSED)",\s*(\d+).*?>>', out, re.S):
    if int(m.group(1)) >= line: print(" ".join(m.group(0).split()))
L = open(tr).read().split("\n")
for x in L[max(0, line - 4):line]: print(x[:300])
shutil.copy(tr, "/tmp/why.nd")
