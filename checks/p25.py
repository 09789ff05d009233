"""P25: the calls every operation makes to the library's allocator, against spec/Alloc.tla.

The operations are the scripts of all the other checks (a seeded sample of each), every script closed by freeing all it made,
and texts that do not parse."""
import importlib, os, random
from gen import enc
import exprgen as X
OTHERS = ["p01", "p02", "p03", "p04", "p05", "p06", "p07", "p08", "p09", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17",
          "p18", "p19", "p20", "p21", "p22", "p23", "p24", "p26"]
class Gather:
    """Stands in for a check: keeps the scripts instead of running them."""
    def __init__(self, rng): self.rng, self.scripts, self.thorough, self.cov = rng, [], False, {}
    def pick(self, q, t): return q
    def trace_check(self, part, module, scripts, **kw): self.scripts += scripts
    def behaviours(self, *a, **kw): return []
    def model_check(self, *a, **kw): pass
    def add(self, *a, **kw): pass
def run(c):
    c.model_check("ownership", "AllocOwner")
    os.environ["VP_WATCH"] = "1"
    strip = lambda e: {"op": e["op"], "al": e["al"]}
    texts = []
    for m in OTHERS:
        g = Gather(random.Random("%s/%s/%d" % (m, c.tier, c.seed)))
        importlib.import_module(m).run(g)
        texts += [o for s in g.scripts for o in s if o["op"] == "ev"]
        n = c.pick(150, 4000)
        if len(g.scripts) > n: g.scripts = c.rng.sample(g.scripts, n)
        c.trace_check(m, "TraceAlloc", close(g.scripts), strip=strip)
    c.trace_check("broken texts", "TraceAlloc", close(X.pack([broken(c.rng, c.rng.choice(texts)) for _ in range(c.pick(1500, 30000))])), strip=strip)
def close(scripts): return [s + [{"op": "reset"}] for s in scripts]
def broken(rng, o):
    t = list(o["text"])
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(t) + 1)
        r = rng.random()
        if r < .3: del t[i:i + rng.choice([1, 1, 2, 5])]
        elif r < .6: t[i:i] = enc(rng.choice(["(", ")", "[", "]", "{", "}", ",", "+", "-", "*", "/", "=", "==", "<", ".", ":", "$", "/a", "/a.b", "1", "2.5", "\"s\"", "lambda(", "if(", "[[", "]]", "!", "&&", "??", "=>", " ", "\\", ";", "\"", "'", "@", "#", "e", "%", "^"]))
        elif r < .8: t[i:i + 1] = [rng.choice(enc("()[]{},+-*/=<>.:!&|?\"a1 \n\t'"))]
        else:
            j = rng.randrange(len(t) + 1)
            t[i:i] = t[min(i, j):max(i, j)][:12]
    return dict(o, text=[x for x in t if x] if t else [32])
