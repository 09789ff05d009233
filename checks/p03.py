"""P03: the sanity checks of raw packets, against the framing defined in spec/OscS.tla."""
import gen
from gen import *
def run(c):
    rng = c.rng
    s = []
    def chk(b): s.append({"op": "s_check", "bytes": b})
    base = [ser([]), ser([{"a": enc("/a"), "d": []}]), ser([{"a": enc("/ab"), "d": [A("i", i32(1))]}, {"a": enc("/abc"), "d": [A("s", enc("hey")), A(".", ser([{"a": enc("/q"), "d": [A("T")]}]))]}], be(7, 8))]
    base += [ser(bundle(rng, 1, n), be(rng.getrandbits(64), 8)) for n in (1, 2, 3)]
    base += [ser([]) + i32(4) + enc("/ab") + [0], ser([]) + i32(4) + enc("/abc"), ser([]) + i32(5) + enc("/abcd"), ser([]) + i32(4) + enc("/ab") + [0] + i32(8) + enc("/abc") + [0] * 4]
    for b in base:
        for n in range(len(b) + 1): chk(b[:n])
        for x in ([0], [0] * 3, [0] * 4, i32(4), i32(4) + [47], i32(0), i32(1) + [47], i32(3) + enc("/ab"), i32(4) + enc("/abc"), i32(4) + enc("xabc"), [255] * 4, [255, 255, 255, 252], [127, 255, 255, 255], [128, 0, 0, 0]): chk(b + x)
    vals = (0, 1, 3, 4, 47, 127, 128, 255)
    for b in base[:6] + base[6:]:
        for i in range(len(b)):
            for v in vals + ((b[i] + 1) % 256, (b[i] - 1) % 256):
                if v != b[i]: chk(b[:i] + [v] + b[i + 1:])
    # all size fields around the limits
    for room in (0, 3, 4, 5, 8, 12):
        body = (enc("/abcdefghijklm") + [0] * 20)[:room]
        for sz in list(range(-5, 18)) + [0x7fffffff, 0x7ffffffb, 0x7fffffec, 0x7fffffeb, -0x80000000, -17, -20, -16, 0x01000000, 0x00010000]:
            chk(ser([]) + i32(sz) + body)
            chk(ser([{"a": enc("/z"), "d": []}]) + i32(sz) + body)
    for n in range(0, 24): chk([0] * n); chk([rng.randrange(256) for _ in range(n)])
    for _ in range(c.pick(20000, 200000)):
        b = list(rng.choice(base)) if rng.random() < .3 else ser(bundle(rng, 1, rng.choice([0, 1, 2])), be(rng.getrandbits(64), 8))
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = rng.random()
            if not b: break
            i = rng.randrange(len(b))
            if r < .5: b[i] = rng.choice([0, 1, 4, 8, 47, 255, rng.randrange(256)])
            elif r < .7: del b[i:i + rng.choice([1, 4, 8])]
            elif r < .85: b[i:i] = [rng.choice([0, 47, rng.randrange(256)]) for _ in range(rng.choice([1, 4]))]
            else: b = b[:i]
        chk(b)
    seen, t = set(), []
    for x in s:
        k = bytes(x["bytes"])
        if k not in seen: seen.add(k); t.append(x)
    c.trace_check("packets", "TraceCheck", [t[i:i + 40] for i in range(0, len(t), 40)])
    m = [{"op": "s_checkmsg", "bytes": i32(sz) + [ch] + enc("abc")} for sz in list(range(-4, 12)) + [0x7fffffff, -0x80000000, 0x01000000] for ch in (47, 46, 0, 255, 97)]
    a = [{"op": "s_checkaddr", "a": x} for x in [gen.Z, [], enc("/"), enc("a"), enc("ab"), enc("/a")]]
    for ch in range(1, 256):
        for f in ([ch], [47, ch], [47, 97, ch], [47, ch, 97], [ch, 97]): a.append({"op": "s_checkaddr", "a": f})
    a += [{"op": "s_checkaddr", "a": [rng.choice([47, 35, 32, 97, 98, 42, 91, 93]) for _ in range(rng.randrange(12))]} for _ in range(2000)]
    c.trace_check("messages and addresses", "TraceCheck", [(m + a)[i:i + 60] for i in range(0, len(m + a), 60)])
    c.model_check("model", "GenS", env={"DEPTH": c.pick(3, 4)})
