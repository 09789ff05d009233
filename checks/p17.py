"""P17: time tags against spec/Time.tla."""
import struct
from gen import be, enc, f64
def run(c):
    rng = c.rng
    # every first, last and leap day of the era, and a stride of the others (all of them in the thorough tier)
    beh = c.behaviours("calendar", "GenTime", env={"STRIDE": c.pick(37, 1), "OFF": rng.randrange(37)})
    merged = []
    for b in beh:
        if not merged or len(merged[-1]) > 60: merged.append([])
        merged[-1] += b
    c.trace_check("calendar", "TraceTime", merged)
    def word():
        r = rng.random()
        if r < .35: return rng.choice([0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff])
        if r < .5: return 1 << rng.randrange(32)
        return rng.randrange(2**32)
    def tag(near=None):
        if near and rng.random() < .5:
            v = (int.from_bytes(bytes(near), "big") + rng.choice([-1, 0, 1, 2**32, -2**32, 2**32 - 1, 1 - 2**32, rng.randrange(-2**33, 2**33)])) % 2**64
            return be(v, 8)
        return be(word(), 4) + be(word(), 4)
    def arith():
        a = tag()
        return {"op": "tt_arith", "a": a, "b": tag(a)}
    c.trace_check("arithmetic", "TraceTime", [[arith() for _ in range(30)] for _ in range(c.pick(120, 1500))])
    c.trace_check("parts", "TraceTime", [[{"op": "tt_parts", "a": tag()} for _ in range(20)] for _ in range(c.pick(20, 200))])
    def sec():
        r = rng.random()
        if r < .3: return rng.randrange(136 * 366) * 86400 % 2**32
        if r < .6: return (rng.randrange(1, 49711) * 86400 - rng.randrange(1, 3)) % 2**32
        return word()
    def frac():
        r = rng.random()
        if r < .3: return rng.choice([0, 1, 2147483648, 2**32 - 1, 2**32 - 2, 2**32 - 4295, 2**32 - 2148, 4294, 4295])
        if r < .6: return min(2**32 - 1, max(0, rng.randrange(1000001) * 2**32 // 1000000 + rng.randrange(-2, 3)))
        return rng.randrange(2**32)
    c.trace_check("text", "TraceTime", [[{"op": "tt_text", "a": be(sec(), 4) + be(frac(), 4), "n": rng.choice([0, 1, 2, 5, 19, 20, 21, 26, 27, 28, 40])} for _ in range(20)]
                                        for _ in range(c.pick(120, 1500))])
    def text():
        y, m = rng.randrange(1900, 2036), rng.randrange(1, 13)
        if rng.random() < .3: y, m = rng.choice([1900, 1904, 1999, 2000, 2001, 2004, 2035]), rng.choice([1, 2, 3, 12])
        last = [31, 29 if (y % 4 == 0 and y % 100) or y % 400 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
        d = rng.choice([1, 2, last - 1, last, rng.randrange(1, last + 1)])
        h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
        f = "" if rng.random() < .2 else "." + "".join(rng.choice("0123456789" if rng.random() < .7 else "09") for _ in range(rng.choice([1, 2, 3, 6, 6, 9, 12])))
        z = rng.choice(["Z", "Z", "Z", ""])
        if rng.random() < .35:
            z = "%s%02d:%02d" % (rng.choice("+-"), rng.randrange(24), rng.choice([0, 0, 30, 59]))
            y = max(y, 1901)
            if m == 2 and d == 29 and not ((y % 4 == 0 and y % 100) or y % 400 == 0): d = 28
        return enc("%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (y, m, d, h, mi, s, f, z))
    c.trace_check("parsing", "TraceTime", [[{"op": "tt_parse", "s": text()} for _ in range(20)] for _ in range(c.pick(120, 1500))])
    def secs():
        r = rng.random()
        x = rng.choice([0.0, 0.5, 1.0, 1e-9, 0.9999999999, 4294967295.0, 4294967295.5, 4294967294.999999, 2147483648.25]) if r < .2 else \
            rng.uniform(0, 4294967295.0) if r < .6 else rng.uniform(0, 10) if r < .8 else float(rng.randrange(2**32)) + rng.randrange(2**20) / 2.0**20
        return f64(x)
    c.trace_check("from seconds", "TraceTime", [[{"op": "tt_float", "d": secs()} for _ in range(20)] for _ in range(c.pick(60, 800))])
    c.trace_check("to seconds", "TraceTime", [[{"op": "tt_secs", "a": be(word() if rng.random() < .6 else rng.randrange(100), 4) + be(word(), 4)} for _ in range(20)] for _ in range(c.pick(60, 800))])
    c.trace_check("now", "TraceTime", [[{"op": "tt_now", "sec": rng.choice([0, 1, 2**31 - 1 if rng.random() < .2 else 1700000000, rng.randrange(2085978495)]) % 2085978495,
                                         "usec": rng.choice([0, 1, 499999, 500000, 999992, 999993, 999994, 999999, rng.randrange(1000000)])} for _ in range(20)] for _ in range(c.pick(20, 200))])
