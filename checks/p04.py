"""P04: every way of reading a serialised bundle, against spec/OscS.tla."""
import gen
from gen import *
def run(c):
    tm = lambda: [c.rng.randrange(256) for _ in range(8)]
    look = lambda n: {"op": "s_look", "b": 0, "q": [enc(q) for q in c.rng.sample(QUERIES, n)]}
    s = []
    # one message of each type combination, every address and typetag length
    for n in range(0, 20):
        for k in range(1, 10):
            s.append([{"op": "s_load", "b": 0, "bytes": ser([{"a": enc("/" + "x" * k), "d": [atom(c.rng, ALLT, 1) for _ in range(n)]}, message(c.rng, 1)], tm())}, look(2)])
    for t in ALLT:
        for u in ALLT:
            s.append([{"op": "s_load", "b": 0, "bytes": ser([{"a": enc("/a"), "d": [atom(c.rng, t, 1), atom(c.rng, u, 1), atom(c.rng, t, 1)]}], tm())}, look(2)])
    c.trace_check("shapes", "TraceS", s)
    # more messages and matches than any internal capacity
    s = []
    for n in (1, 2, 15, 16, 17, 31, 32, 33, 48, 49, 70):
        for pool in (["/a"], ["/a", "/b"], ["/a", "/a/b", "/b", "/ab"]):
            s.append([{"op": "s_load", "b": 0, "bytes": ser([message(c.rng, 0, 1, "is", pool) for _ in range(n)])}, {"op": "s_look", "b": 0, "q": [enc(q) for q in ("/a", "/*", "/?", "/a/b")]}])
    c.trace_check("many", "TraceS", s)
    # messages without a typetag string, which the reading calls let go
    s = []
    for k in range(1, 9):
        m = i32(4 * ((k + 5) // 4)) + pad(enc("/" + "y" * k))
        s.append([{"op": "s_load", "b": 0, "bytes": ser([message(c.rng)]) + m + ser_msg(message(c.rng))}, look(3), {"op": "s_look", "b": 0, "q": [enc("/" + "y" * k), enc("/y*")]}])
    c.trace_check("no typetags", "TraceS", s)
    # every query of the pool on random bundles
    s = []
    for _ in range(c.pick(1500, 12000)):
        s.append([{"op": "s_load", "b": 0, "bytes": ser(bundle(c.rng, 2, c.rng.choice([1, 2, 3, 5, 8])), tm())}, look(6), {"op": "s_copy", "b": 0, "to": 1}, look(4)])
    c.trace_check("random", "TraceS", s)
    c.trace_check("after edits", "TraceS", [gen.s_script(c.rng, 8) for _ in range(c.pick(300, 3000))])
    c.model_check("model", "GenS", env={"DEPTH": c.pick(3, 4)})
