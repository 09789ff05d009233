"""P02: the wire format, against spec/Osc.tla."""
import gen
from gen import *
OPS = ["m_new", "m_with", "m_add", "m_add", "m_add", "m_add", "m_set", "m_setaddr", "b_new", "b_add", "b_add", "b_add", "b_des", "b_copy", "m_dup", "m_rm", "m_atoms", "m_look"]
def script(rng, n):
    s = [{"op": "b_new", "b": 0}, {"op": "b_des", "b": 1, "bytes": ser(bundle(rng, 2))}, {"op": "b_ser", "b": 1}]
    for _ in range(n):
        s.append(op(rng, OPS))
        if rng.random() < .3: s.append({"op": "b_ser", "b": rng.randrange(2)})
    return s + [{"op": "b_ser", "b": 0}, {"op": "b_ser", "b": 1}, {"op": "m_look", "r": [0]}]
def run(c):
    # every type alone and in pairs, strings and blobs of every length modulo four, nested bundles
    one = {}
    for t in ALLT:
        one[t] = [A(t)] if t in "TFN" else [atom(c.rng, t, 2) for _ in range(4)]
    one["s"] = [A("s", [97 + i for i in range(n)]) for n in range(6)]
    one["b"] = [A("b", list(range(1, n + 1))) for n in range(6)]
    one["."] = [A(".", ser(x)) for x in ([], [{"a": enc("/x"), "d": []}], bundle(c.rng, 1, 2), [{"a": enc("/y"), "d": [A(".", ser(bundle(c.rng, 1, 1)))]}])]
    s = []
    for a in range(1, 10):
        for t in ALLT:
            for v in one[t]:
                m = [{"a": enc("/" + "abcdefghi"[:a - 1]), "d": [v]}]
                s.append([{"op": "b_des", "b": 0, "bytes": ser(m)}, {"op": "b_ser", "b": 0}, {"op": "m_with" if t in "fdistb" else "m_new", "m": 0, "a": m[0]["a"], "v": v},
                          {"op": "m_add", "r": [0], "v": v, "w": "a", "pos": 0, "alt": 0}, {"op": "m_atoms", "r": [0]}, {"op": "m_look", "r": [0]},
                          {"op": "b_new", "b": 1}, {"op": "b_add", "b": 1, "m": 0, "how": "add"}, {"op": "b_ser", "b": 1}])
    for t in ALLT:
        for u in ALLT:
            m = [{"a": enc("/p"), "d": [c.rng.choice(one[t]), c.rng.choice(one[u]), c.rng.choice(one[t])]}, {"a": enc("/q"), "d": [c.rng.choice(one[u])]}]
            s.append([{"op": "b_des", "b": 0, "bytes": ser(m, [c.rng.randrange(256) for _ in range(8)])}, {"op": "b_ser", "b": 0}])
    c.trace_check("types", "TraceU", s)
    # typetag strings and addresses of every length
    s = []
    for n in range(0, 24):
        for k in range(1, 9):
            m = [{"a": enc("/" + "x" * k), "d": [A("i", i32(i)) for i in range(n)]}]
            s.append([{"op": "b_des", "b": 0, "bytes": ser(m)}, {"op": "b_ser", "b": 0}])
    c.trace_check("lengths", "TraceU", s)
    c.trace_check("random", "TraceU", [script(c.rng, c.rng.choice([5, 15, 25])) for _ in range(c.pick(1200, 10000))])
    c.model_check("round trip", "GenU", env={"FAMILY": "m", "DEPTH": c.pick(5, 6)})
