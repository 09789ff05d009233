"""P12: dispatch and query against spec/Dispatch.tla."""
from gen import enc, ser, atom, Z
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceDispatch", c.behaviours("model", "GenDisp", env={"MSGS": c.pick(2, 3)}))
    SEG = ["a", "b", "ab", "foo", "x1"]
    def address():
        if rng.random() < .06: return rng.choice(["//a", "/a//b"])
        return "/" + "/".join(rng.choice(SEG) for _ in range(rng.choice([1, 1, 2, 2, 3])))
    def general(a):
        """A pattern made from an address, perhaps with more segments."""
        out = []
        for s in a[1:].split("/"):
            r = rng.random() if s else 0
            out.append(s if r < .5 else "*" if r < .6 else s[0] + "*" if r < .68 else "?" * len(s) if r < .76 else "{%s,zz}" % s if r < .84 else "{zz,%s}" % s if r < .9 else "[%s-%s]%s" % (s[0], s[0], s[1:]))
        if rng.random() < .4: out += [rng.choice(SEG + ["*", "{a,b}"]) for _ in range(rng.randint(1, 2))]
        if rng.random() < .04: out.insert(rng.randint(0, len(out)), "")
        if rng.random() < .15: out.pop()
        if rng.random() < .03 and out: out[-1] += rng.choice(["#", " ", "/", "/b#", "/b c"])
        return "/" + "/".join(out) if out else "/zz"
    def bundle(pool):
        ms = [{"a": enc(general(rng.choice(pool)) if rng.random() < .8 else address()), "d": [atom(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]} for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
        return ser(ms, rng.choice([[0] * 8, [0] * 7 + [1], [rng.randrange(256) for _ in range(8)]]))
    def script():
        pool = list(dict.fromkeys(address() for _ in range(rng.randint(1, 6))))
        out = [{"op": "vt_new", "n": rng.choice([0, 1, 4])}]
        if rng.random() < .85: out.append({"op": "vt_deleg", "on": 1, "c": rng.randrange(50)})
        have = []
        def add(k):
            out.append({"op": "vt_add", "s": enc(k), "m": rng.randint(1, 3), "c": rng.randrange(100)})
            if k not in have: have.append(k)
        for k in rng.sample(pool, rng.randint(0, len(pool))): add(k)
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            if r < .45: out.append({"op": "vt_dispatch", "b": bundle(pool), "strip": int(rng.random() < .5), "sel": 0, "ss": 0, "null": int(rng.random() < .02)})
            elif r < .6: out.append({"op": "vt_dispatch", "b": bundle(pool), "strip": int(rng.random() < .5), "sel": 1, "ss": [enc(rng.choice(pool + ["/none"])) for _ in range(rng.randint(0, 4))], "null": int(rng.random() < .02)})
            elif r < .85:
                ss = rng.sample(pool, rng.randint(0, len(pool)))
                out.append({"op": "query", "b": bundle(pool), "strip": int(rng.random() < .5), "ss": [enc(s) if rng.random() < .95 else Z for s in ss], "null": int(rng.random() < .02), "own": int(rng.random() < .5)})
            elif r < .9: add(rng.choice(pool))
            elif r < .94: out.append({"op": "vt_deleg", "on": int(rng.random() < .6), "c": rng.randrange(50)})
            elif r < .97 and have: out.append({"op": "vt_rebind", "s": enc(rng.choice(have)), "m": rng.randint(1, 3), "c": rng.randrange(100), "ctx": int(rng.random() < .5)})
            else:
                k, m = rng.choice(pool), address()
                if m in have or k not in have: continue
                out.append({"op": "vt_rename", "s": enc(k), "n": enc(m), "own": 0})
                have[have.index(k)] = m
                pool.append(m)
        return out
    c.trace_check("random", "TraceDispatch", [script() for _ in range(c.pick(900, 9000))])
