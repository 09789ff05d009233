"""P11: argument accessors against spec/Access.tla."""
import gen
from gen import A, enc, be, f32, f64, ser
ALL = gen.ALLT
def texts(rng):
    r = rng.random()
    if r < .3: return enc(str(rng.choice([0, 1, -1, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, -2**63, 2**64 - 1])))
    if r < .5: return enc(str(rng.randint(-2**40, 2**40)))
    if r < .8: return enc("%.*f" % (rng.randrange(1, 7), rng.uniform(-1000, 1000)))
    return rng.choice([enc("abc"), enc(""), enc("12abc"), enc("1."), enc("007"), enc("-0"), enc("0.1"), enc("-0.5"), enc("3.000"), enc(" 5")])
def value(rng, types=ALL):
    t = rng.choice(types)
    if t in "fd" and rng.random() < .7:
        x = rng.choice([rng.uniform(-300, 300), rng.uniform(-2**31, 2**31), rng.uniform(-2**63, 2**63), float(rng.randint(-2**40, 2**40)),
                        rng.randint(-1000, 1000) / 8, float("inf"), float("-inf"), 0.0, -0.0, rng.uniform(-1e-5, 1e-5), 255.9, -0.9, 65535.99])
        return A(t, f32(x) if t == "f" else f64(x))
    if t == "s" and rng.random() < .8: return A(t, texts(rng))
    if t in "hHiI" and rng.random() < .3:   # next to the middle between two floats, or two doubles
        n = {"h": 62, "H": 63, "i": 30, "I": 31}[t]
        k = rng.randint(25, n); p = rng.choice([24, 24, 53])
        half = 1 << max(k - p, 0)
        x = ((1 << k) | rng.getrandbits(k)) // (2 * half) * (2 * half) + half + rng.choice([-1, 0, 1, 0, half // 2, -(half // 2)])
        if t in "hi" and rng.random() < .5: x = -x
        return A(t, be(x % (1 << (64 if t in "hH" else 32)), 8 if t in "hH" else 4))
    return gen.atom(rng, t, 1)
def run(c):
    rng = c.rng
    b = c.behaviours("model", "GenAcc", env={"DEPTH": c.pick(3, 4)})
    big = []
    for x in b:         # values: many per script
        if x[0]["op"] == "acc":
            if not big or len(big[-1]) > 60: big.append([])
            big[-1] += x
    c.trace_check("boundaries", "TraceAcc", big)
    t = [x for x in b if x[0]["op"] != "acc"]
    c.trace_check("transitions", "TraceAcc", t)
    c.trace_check("values", "TraceAcc", [[{"op": "acc", "x": value(rng)} for _ in range(20)] for _ in range(c.pick(600, 6000))])
    tt = "cCuUiIhHfdTFNsb"
    def tvalue():
        if rng.random() < .03: return A(".", ser([{"a": enc("/a"), "d": [value(rng, tt)]}] * rng.randrange(3), [0] * 7 + [1]))
        v = value(rng, tt)
        # text of numbers with huge exponents takes the specification long: few of them
        while v["t"] in "fd" and rng.random() < .95:
            e = (v["v"][0] % 128 * 256 + v["v"][1]) // (128 if v["t"] == "f" else 16)
            if e == 0 or abs(e - (127 if v["t"] == "f" else 1023)) < 70 or e in (255, 2047): break
            v = value(rng, tt)
        return v
    c.trace_check("text", "TraceAcc", [[{"op": "text", "x": tvalue(), "n": rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 25, 40])} for _ in range(20)]
                                       for _ in range(c.pick(250, 2500))])
    c.trace_check("blobs", "TraceAcc", [[{"op": "blob", "x": value(rng, "biIhHfdts"), "room": rng.choice([48, 64, 100])} for _ in range(10)]
                                        for _ in range(c.pick(150, 1500))])
    num = "cCuUiIhHfdTFNt"
    def sset():
        fresh = rng.random() < .4
        y = value(rng, num.replace("T", "").replace("F", "").replace("N", "") + "s" if fresh else num)
        if fresh: x = A("i", be(0, 4))
        elif y["t"] == "s": x = A("s", y["v"] + [35] * rng.randrange(4))
        else: x = value(rng, "hdHt")
        return {"op": "sset", "x": x, "y": y, "neg": rng.randrange(2), "fresh": int(fresh)}
    c.trace_check("in place", "TraceAcc", [[sset() for _ in range(15)] for _ in range(c.pick(150, 1500))])
    def tab():
        k = rng.choice(["aset", "aset", "acopy", "acopy", "aneg", "aser", "afree"])
        if k == "aset": return {"op": k, "k": rng.randrange(4), "x": value(rng), "alt": rng.randrange(2)}
        if k in ("acopy", "aser"):
            a, b = rng.sample(range(4), 2)
            return {"op": k, "k": a, "j": b}
        return {"op": k, "k": rng.randrange(4)}
    c.trace_check("table", "TraceAcc", [[tab() for _ in range(25)] for _ in range(c.pick(250, 2500))])
