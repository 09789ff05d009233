"""P08: flatten and explode, against spec/OscU.tla."""
from gen import *
def paths(rng, sep):
    k = rng.choice([1, 1, 2, 2, 3, 4, 5])
    if sep in ("", "/"):
        return enc("".join("/" + rng.choice(["a", "b", "c", "ab", "a1", "abc"]) for _ in range(k)))
    return enc(("/" + sep.join(rng.choice(["a", "b", "ab", "/a", "/b"]) for _ in range(k))).replace("//", "/"))
def script(rng):
    sep = rng.choice(["/", "/", "/", "", ".", ":"])
    pool = [paths(rng, sep) for _ in range(rng.choice([2, 4, 6]))]
    b = [{"a": rng.choice(pool), "d": [atom(rng, ALLT, 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]} for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
    if rng.random() < .4 and b:
        k = rng.randrange(len(b))
        for _ in range(rng.choice([1, 1, 2])):
            inner = [{"a": rng.choice(pool), "d": [atom(rng, "isd.", 1)]} for _ in range(rng.choice([0, 1, 2]))]
            b[k]["d"].insert(rng.randint(0, len(b[k]["d"])), A(".", ser(inner)))
    sp, mx = enc(sep), rng.choice([-1, -1, 0, 1, 2, 3])
    fs = rng.choice([[], sp, enc("/")])
    fm = lambda: rng.choice([0, 0, -1, 1, 2, 3])
    rm = lambda: rng.choice([1, 1, 0])
    return [{"op": "b_des", "b": 0, "bytes": ser(b)}, {"op": "b_explode", "b": 0, "to": 1, "max": mx, "sep": sp},
            {"op": "b_flatten", "b": 1, "to": 2, "max": fm(), "sep": fs, "rm": rm()},
            {"op": "b_flatten", "b": 0, "to": 3, "max": fm(), "sep": fs, "rm": rm()},
            {"op": "b_fx_s", "what": "explode", "b": 0, "to": 3, "max": mx, "sep": sp},
            {"op": "b_fx_s", "what": "flatten", "b": 1, "to": 3, "max": fm(), "sep": fs, "rm": rm()},
            {"op": "b_ser", "b": 1}, {"op": "b_ser", "b": 2}]
def run(c):
    # every ordered choice of a few addresses (prefixes of each other, siblings, repeats), to every level
    import itertools
    names = ["/a", "/a/b", "/a/c", "/b", "/a/b/c", "/ab"]
    s = []
    for n in range(1, c.pick(4, 5)):
        for w in itertools.product(names, repeat=n):
            b = [{"a": enc(x), "d": [A("i", i32(i + 1))]} for i, x in enumerate(w)]
            for mx in ((-1, 1) if n == 3 else (-1, 0, 1, 2)) if n < 4 else (-1,):
                s.append([{"op": "b_des", "b": 0, "bytes": ser(b)}, {"op": "b_explode", "b": 0, "to": 1, "max": mx, "sep": []},
                          {"op": "b_flatten", "b": 1, "to": 2, "max": 0, "sep": [], "rm": 1}])
    c.trace_check("exhaustive", "TraceU", s)
    c.trace_check("random", "TraceU", [script(c.rng) for _ in range(c.pick(1500, 12000))])
    c.model_check("algebra", "GenU", env={"FAMILY": "b", "DEPTH": c.pick(5, 7)})
