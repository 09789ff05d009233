#!/usr/bin/env python3
"""Cross-check spec/Num.tla against Python's arithmetic: tools/numcheck.py [n]"""
import json, os, random, struct, subprocess, sys, math
n = int(sys.argv[1]) if len(sys.argv) > 1 else 2000
R = random.Random(7)
db = lambda x: list(struct.pack(">d", x))
fb = lambda x: list(struct.pack(">f", x))
ib = lambda x: list(struct.pack(">q", x))
def rd():
    k = R.randrange(6)
    if k == 0: return float(R.randint(-100, 100))
    if k == 1: return R.uniform(-1000, 1000)
    if k == 2: return R.choice([0.0, -0.0, 0.1, 1e6, 999999.5, 1e-5, 0.0001, 123456.5, 2.5, 0.5, -1.0])
    if k == 3: return R.randint(-2**62, 2**62) / 2**R.randint(0, 70)
    if k == 4: return math.ldexp(R.random(), R.randint(-40, 40))
    return R.randint(-2000000, 2000000) / 8
def ri(): return R.choice([R.randint(-100, 100), R.randint(-2**63, 2**63-1), R.randint(-2**31, 2**31), 1 << R.randrange(62), -(1 << R.randrange(63))])
def f32(x):
    try: return struct.unpack(">f", struct.pack(">f", x))[0]
    except OverflowError: return math.copysign(math.inf, x)
out = []
for _ in range(n):
    o = R.choice("add mul div f fd cmp g i64 dec parse mod quot imul".split())
    x, y, i, j = rd(), rd(), ri(), ri()
    if j == 0: j = 3
    c = dict(o=o, x=db(x), y=db(y))
    if o == "add": c["r"] = db(x + y)
    elif o == "mul": c["r"] = db(x * y)
    elif o == "div":
        if y == 0: continue
        c["r"] = db(x / y)
    elif o == "f": c["r"] = fb(f32(x))
    elif o == "fd":
        v = f32(x); c["x"] = fb(v); c["r"] = db(v)
    elif o == "cmp": c["r"] = (x > y) - (x < y)
    elif o == "g": c["r"] = list(("%g" % x).encode())
    elif o == "i64": c["x"] = ib(i); c["r"] = db(float(i))
    elif o == "dec": c["x"] = ib(i); c["r"] = list(str(i).encode())
    elif o == "parse":
        s = R.choice(["%.3f" % x, "%.1f" % x, str(i), "%.12f" % x]); c["x"] = list(s.encode()); c["r"] = db(float(s))
    elif o == "mod": c["x"] = ib(i); c["y"] = ib(j); c["r"] = list(str(i % j).encode())
    elif o == "quot": c["x"] = ib(i); c["y"] = ib(j); c["r"] = list(str(abs(i) // abs(j) * (1 if (i < 0) == (j < 0) else -1)).encode())
    elif o == "imul": c["x"] = ib(i); c["y"] = ib(j); c["r"] = ib((i * j + 2**63) % 2**64 - 2**63)
    out.append(c)
p = "/tmp/numcheck.json"
open(p, "w").write("\n".join(map(json.dumps, out)) + "\n")
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
sys.exit(subprocess.run(["tlc", "-metadir", "/tmp/numcheck.d", "-noGenerateSpecTE", "-config", "NumCheck.cfg", "NumCheck.tla"], cwd=here, env=dict(os.environ, TRACE=p)).returncode)
