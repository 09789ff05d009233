"""Texts of expressions and the bundles they run on."""
import gen
from gen import A, be, enc, f32, f64, i32
TAG = [0] * 7 + [1]
NUMT = "TFcCuUiIhHfd"
def val(rng, t):
    """One argument of type t, near the places where types and arithmetic change."""
    if t in gen.INTS:
        bits, signed = gen.INTS[t]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        r = rng.random()
        x = rng.randint(-6, 12) if r < .5 else gen.num(rng, t) if r < .85 else rng.choice([2**24 + 1, 2**53 + 1, 2**31, 2**32 - 1, -2**53 - 1])
        if not lo <= x <= hi: x = x % 100
        return A(t, be(x, max(4, bits // 8)))
    if t in "fd":
        r = rng.random()
        x = rng.randint(-40, 40) / 4 if r < .6 else rng.uniform(-100, 100) if r < .75 else float(rng.randint(-2**40, 2**40)) if r < .85 else rng.choice([0.0, -0.0, 1e-30, 1e30, 0.1, 2.0**53, 3.0, -7.0, 0.5])
        return A(t, f32(x) if t == "f" else f64(x))
    if t == "s": return A(t, enc(rng.choice(["", "a", "b", "ab", "abc", "B", "10", "x y", "/a", "\xe9"])))
    if t == "t": return A(t, be(rng.choice([0, 1, 5, 2**31, 100]), 4) + be(rng.choice([0, 1 << 31, 1 << 30, 1, 2**32 - 1]), 4))
    if t == "b": return A(t, [rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 4]))])
    if t == ".": return A(t, gen.ser([{"a": enc("/x"), "d": [val(rng, "i")]} for _ in range(rng.randrange(3))]))
    return A(t)
def small(rng, t):
    """A number small enough for sums and products to be exact."""
    if t in gen.INTS:
        x = rng.randint(-9, 20)
        if not gen.INTS[t][1]: x = abs(x)
        return A(t, be(x, max(4, gen.INTS[t][0] // 8)))
    if t in "fd":
        x = rng.randint(-40, 40) / 4
        return A(t, f32(x) if t == "f" else f64(x))
    return val(rng, t)
def vals(rng, types, n, one=val): return [one(rng, rng.choice(types)) for _ in range(n)]
def msg(a, d): return {"a": enc(a), "d": d}
def ev(b, text, t=TAG): return {"op": "ev", "b": b, "t": t, "text": enc(text)}
def pack(events, n=20): return [events[i:i + n] for i in range(0, len(events), n)]
def lit(rng):
    """A literal number or truth value as text."""
    r = rng.random()
    if r < .45: return str(rng.randrange(20))
    if r < .6: return "%d.%s" % (rng.randrange(20), rng.choice(["", "5", "25", "75", "0"]))
    if r < .7: return rng.choice(["true", "false", "True", "FALSE"])
    return rng.choice(["0x10", "0xff", "1e2", "2.5e-1", "2147483647", "'a'", "0.1", "3.f", ".5", "100000", "65536", "0", "1", "2", "3", "nil"])
def table(name):
    """A table of spec/ExprTab.tla: function -> rows of arguments (the value itself stays with the specification)."""
    import os, re, struct
    s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "ExprTab.tla")).read()
    s = s[s.index("\n%s ==" % name) + 1:]
    s = s[:re.search(r"\n(\w+ ==|====)", s).start()]
    out = {}
    for f, body in re.findall(r"(\w+) \|-> ((?:<<|[^|a-z_])*)", s):
        b = [struct.unpack(">d", bytes(int(x) for x in v.split(",")))[0] for v in re.findall(r"<<([0-9, ]+)>>", body)]
        k = {"Tab1": 2, "Tab2": 3, "Constants": 1}[name]
        out[f] = [tuple(b[i:i + k - 1]) for i in range(0, len(b), k)]
    return out
def number(rng, x):
    """The number x in one of the types that hold it."""
    import struct
    r = [A("d", f64(x))]
    if struct.unpack(">f", struct.pack(">f", x))[0] == x: r.append(A("f", f32(x)))
    if x == int(x):
        r += [A("i", be(int(x), 4)), A("h", be(int(x), 8))]
        if x >= 0: r += [A("I", be(int(x), 4))]
        if 0 <= x < 256: r += [A("C", be(int(x), 4))]
    return rng.choice(r)
def merged(scripts, n=20): return pack([e for s in scripts for e in s], n)
