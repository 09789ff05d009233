"""P05: edits of serialised bundles, against spec/OscS.tla."""
import gen
LOOK = [{"op": "s_look", "b": i, "q": [gen.enc("/*")]} for i in range(3)]
def run(c):
    b = c.behaviours("model", "GenS", env={"DEPTH": c.pick(4, 5)})
    c.trace_check("transitions", "TraceS", [x + LOOK for x in b])
    c.trace_check("random", "TraceS", [gen.s_script(c.rng, c.rng.choice([6, 14, 25]), gen.S_EDIT) for _ in range(c.pick(1500, 12000))])
