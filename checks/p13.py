"""P13: the dispatch table against spec/Dispatch.tla."""
from gen import enc
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceDispatch", c.behaviours("model", "GenVt", env={"DEPTH": c.pick(3, 4)}))
    def name():
        r = rng.random()
        return rng.choice(["/a", "/b", "/ab", "/bR", "/abab", "/bRbR", "/a/b", "/", "/long/selector/with/segments", "/\xff\xfe"]) if r < .6 else \
            "/" + "".join(rng.choice("abRq/") for _ in range(rng.choice([1, 2, 3, 5, 9, 30])))
    def script(n, nk):
        pool = list(dict.fromkeys(name() for _ in range(nk * 3)))[:nk]
        out, have = [{"op": "vt_new", "n": rng.choice([0, 0, 1, 2, 5, 40])}], []
        for _ in range(n):
            r = rng.random()
            k = rng.choice(pool)
            if r < .35:
                out.append({"op": "vt_add", "s": enc(k), "m": rng.randint(1, 3), "c": rng.randrange(100)})
                if k not in have: have.append(k)
            elif r < .5: out.append({"op": "vt_rebind", "s": enc(k), "m": rng.randint(1, 3), "c": rng.randrange(100), "ctx": int(rng.random() < .5)})
            elif r < .65:
                m = rng.choice(pool)
                if m in have and m != k: continue
                out.append({"op": "vt_rename", "s": enc(k), "n": enc(m), "own": int(rng.random() < .4)})
                if k in have: have[have.index(k)] = m
            elif r < .85: out.append({"op": "vt_look", "s": enc(k)})
            elif r < .95: out.append({"op": "vt_call", "s": enc(k)})
            else: out.append({"op": "vt_all"})
        return out + [{"op": "vt_all"}] + [{"op": rng.choice(["vt_look", "vt_call"]), "s": enc(k)} for k in pool]
    c.trace_check("histories", "TraceDispatch", [script(rng.randrange(5, 60), rng.choice([2, 4, 8, 20])) for _ in range(c.pick(500, 5000))])
    c.trace_check("many", "TraceDispatch", [script(400, 150) for _ in range(c.pick(10, 40))])
