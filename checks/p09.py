"""P09: unserialised messages against spec/OscU.tla."""
import gen
LOOK = [{"op": "m_look", "r": [0]}, {"op": "m_look", "r": [1]}]
def run(c):
    b = c.behaviours("model", "GenU", env={"FAMILY": "m", "DEPTH": c.pick(5, 6)})
    c.trace_check("transitions", "TraceU", [x + LOOK for x in b])
    c.trace_check("random", "TraceU", [gen.m_script(c.rng, c.rng.choice([6, 15, 30])) for _ in range(c.pick(1500, 12000))])
    # long argument lists: positions, sizes and typetag padding around every boundary
    s = []
    for n in range(0, c.pick(40, 140)):
        t = c.rng.choice(["i", "s", "T", gen.ALLT])
        x = [{"op": "m_new", "m": 0, "a": gen.addr(c.rng)}]
        x += [{"op": "m_add", "r": [0], "v": gen.atom(c.rng, t, 1), "w": "a", "pos": 0, "alt": 0} for _ in range(n)]
        x += [{"op": "m_look", "r": [0]}, {"op": "m_rm", "r": [0], "k": n // 2}, {"op": "m_add", "r": [0], "v": gen.atom(c.rng), "w": "i", "pos": n // 3, "alt": 0},
              {"op": "m_look", "r": [0]}, {"op": "m_dup", "r": [0], "to": 1}, {"op": "m_clear", "r": [0]}, {"op": "m_look", "r": [1]}]
        s.append(x)
    c.trace_check("long", "TraceU", s)
