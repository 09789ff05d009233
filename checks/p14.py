"""P14: the hash table against spec/Table.tla."""
from gen import enc
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceTable", c.behaviours("model", "GenTable", env={"DEPTH": c.pick(3, 4)}))
    # pairs with equal ELF hashes ((x, y) and (x+1, y-16)), keys of one slot, prefixes, the empty key, high bytes
    base = [enc(x) for x in ["", "a", "ab", "bR", "abab", "bRab", "abbR", "bRbR", "/a", "/a/b", "foo", "fooo", "a" * 40, "b" * 41, "q", "\x80", "\xff\xfe", "\xff" * 9]]
    def keys(n):
        ks = list(base)
        while len(ks) < n:
            r = rng.random()
            if r < .5: k = [rng.randrange(1, 256) for _ in range(rng.randrange(1, 12))]
            elif r < .7: k = enc("k%d" % rng.randrange(100000))
            else: k = rng.choice(ks)[:rng.randrange(0, 9)] + [rng.randrange(33, 127)]
            if k not in ks: ks.append(k)
        return ks
    def script(n, nk, slots):
        ks = keys(max(nk, len(base)))
        rng.shuffle(ks)
        ks = ks[:nk]
        out = [{"op": "h_new", "t": 0, "slots": slots}]
        if rng.random() < .5: out.append({"op": "h_new", "t": 1, "slots": rng.choice([0, 1, 17, 40])})
        p = rng.choice([.3, .5, .8])
        for _ in range(n):
            t = int(rng.random() < .25)
            r = rng.random()
            k = rng.choice(ks)
            if r < p * .8: o = {"op": "h_store", "t": t, "k": k, "v": rng.randrange(1, 10**6), "safe": int(rng.random() < .25)}
            elif r < .75: o = {"op": "h_look", "t": t, "k": k}
            elif r < .92: o = {"op": "h_remove", "t": t, "k": k, "d": int(rng.random() < .8)}
            elif r < .97: o = {"op": "h_each", "t": t}
            elif r < .985: o = {"op": "h_clear", "t": t}
            elif r < .99: o = {"op": "h_destroy", "t": t}
            else: o = {"op": "h_new", "t": t, "slots": rng.choice([-5, 0, 1, 30])}
            out.append(o)
        return out + [{"op": "h_look", "t": 0, "k": k} for k in ks] + [{"op": "h_each", "t": 0}, {"op": "h_each", "t": 1}]
    c.trace_check("histories", "TraceTable", [script(rng.randrange(10, 80), rng.choice([2, 4, 8, 20, 40]), rng.choice([1, 1, 16, 0, -1, 17, 36, 500]))
                                              for _ in range(c.pick(300, 4000))])
    # many keys in few slots, and tables of every size it can have
    c.trace_check("crowded", "TraceTable", [script(c.pick(500, 1500), c.pick(250, 700), rng.choice([1, 17, 40])) for _ in range(c.pick(12, 60))])
    c.trace_check("sizes", "TraceTable", [script(12, 6, s) for s in [16, 17, 36, 37, 66, 67, 136, 137, 270, 271, 540, 541, 1180, 2371, 4758, 9521, 19036, 38083,
                                                                     76156, 76157, 152286, 152287, 152288, 200000, 2**31 - 1, -2**31]])
