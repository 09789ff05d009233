"""P07: union, intersection, difference and concatenation, against spec/OscU.tla and spec/OscS.tla."""
import itertools
import gen
from gen import *
def run(c):
    rng = c.rng
    pool = ["/a", "/ab", "/a/b"]
    # every pair of bundles over three addresses, up to two (thorough three) messages each
    lists = [l for n in range(c.pick(3, 4)) for l in itertools.product(pool, repeat=n)]
    k = 0
    s, u = [], []
    def bndl(l, base): return [{"a": enc(a), "d": [A("i", i32(base + i))] if (base + i) % 3 else []} for i, a in enumerate(l)]
    for x in lists:
        for y in lists:
            bx, by = ser(bndl(x, 1), be(rng.getrandbits(64), 8)), ser(bndl(y, 100), be(rng.getrandbits(64), 8))
            s.append([{"op": "s_load", "b": 0, "bytes": bx}, {"op": "s_load", "b": 1, "bytes": by}]
                     + [{"op": "s_set", "what": w, "x": 0, "y": 1, "to": 2 + i % 2, "pre": p} for i, w in enumerate(("union", "inter", "diff")) for p in (0, 1)]
                     + [{"op": "s_concat", "x": 0, "y": 1, "to": 2}])
            u.append([{"op": "b_des", "b": 0, "bytes": bx}, {"op": "b_des", "b": 1, "bytes": by},
                      {"op": "b_union", "x": 0, "y": 1, "to": 2}, {"op": "b_inter", "x": 0, "y": 1, "to": 3}])
    # empty slots and a bundle with itself
    for x, y in ((0, 0), (0, 1), (1, 0), (1, 1), (0, 3), (3, 0), (3, 3)):
        s.append([{"op": "s_load", "b": 0, "bytes": ser(bndl(pool, 1), be(5, 8))}, {"op": "s_empty", "b": 1}]
                 + [{"op": "s_set", "what": w, "x": x, "y": y, "to": 2, "pre": p} for w in ("union", "inter", "diff") for p in (0, 1)] + [{"op": "s_concat", "x": x, "y": y, "to": 2}])
        u.append([{"op": "b_des", "b": 0, "bytes": ser(bndl(pool, 1), be(5, 8))}, {"op": "b_new", "b": 1}, {"op": "b_union", "x": x, "y": y, "to": 2}, {"op": "b_inter", "x": x, "y": y, "to": 2}])
    c.trace_check("pairs, serialised", "TraceS", s)
    c.trace_check("pairs, unserialised", "TraceU", u)
    # random contents: all types, nesting, many messages, results used again as inputs
    s, u = [], []
    for _ in range(c.pick(700, 6000)):
        b = [ser(bundle(rng, 2, rng.choice([0, 1, 2, 4, 8, 20]) if i < 2 else 2), be(rng.getrandbits(64), 8)) for i in range(4)]
        l = [{"op": "s_load", "b": i, "bytes": b[i]} for i in range(rng.choice([2, 4]))]
        for _ in range(6):
            x, y, to = (rng.randrange(4) for _ in range(3))
            l.append(rng.choice([{"op": "s_concat", "x": x, "y": y, "to": to}] + [{"op": "s_set", "what": w, "x": x, "y": y, "to": to, "pre": rng.randrange(2)} for w in ("union", "inter", "diff")]))
            if len(l) > 5 and l[-1]["op"] == "s_concat": l.append({"op": "s_load", "b": to, "bytes": rng.choice(b)})
        s.append(l)
        l = [{"op": "b_des", "b": i, "bytes": b[i]} for i in range(2)] + [{"op": "b_des", "b": i, "bytes": b[i]} for i in (2, 3)]
        for _ in range(4):
            l.append({"op": rng.choice(["b_union", "b_inter"]), "x": rng.randrange(4), "y": rng.randrange(4), "to": rng.randrange(4)})
        u.append(l)
    c.trace_check("random, serialised", "TraceS", s)
    c.trace_check("random, unserialised", "TraceU", u)
    c.model_check("model, serialised", "GenS", env={"DEPTH": c.pick(3, 4)})
    c.model_check("model, unserialised", "GenU", env={"FAMILY": "b", "DEPTH": c.pick(5, 6)})
