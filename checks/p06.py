"""P06: unserialised bundles as ordered message lists, against spec/OscU.tla."""
import gen
LOOK = [{"op": "b_look", "b": i, "q": [gen.enc(q) for q in ("/a", "/b", "/a/c", "/*", "/a/*")]} for i in (0, 1)]
def run(c):
    b = c.behaviours("model", "GenU", env={"FAMILY": "b", "DEPTH": c.pick(6, 7)})
    c.trace_check("transitions", "TraceU", [x + LOOK for x in b])
    c.trace_check("random", "TraceU", [gen.b_script(c.rng, c.rng.choice([8, 20, 30])) for _ in range(c.pick(1500, 12000))])
    # many messages: more matches than any internal capacity
    s = []
    for n in (1, 2, 8, 15, 16, 17, 31, 32, 33, 64, 65):
        b = [gen.message(c.rng, 0, 1, "is", ["/a", "/a", "/b", "/a/b"]) for _ in range(n)]
        same = [gen.message(c.rng, 0, 1, "is", ["/a"]) for _ in range(n)]
        for y in (b, same):
            s.append([{"op": "b_des", "b": 0, "bytes": gen.ser(y)}, {"op": "b_look", "b": 0, "q": [gen.enc(q) for q in ("/a", "/*", "/a/b", "/b", "/?")]},
                      {"op": "b_copy", "b": 0, "to": 1}, {"op": "b_rmaddr", "b": 0, "a": gen.enc("/a")}, {"op": "b_look", "b": 0, "q": [gen.enc("/b")]},
                      {"op": "b_look", "b": 1, "q": [gen.enc("/b"), gen.enc("/*")]}])
    c.trace_check("many", "TraceU", s)
