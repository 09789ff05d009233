"""P16: arrays against spec/Arr.tla."""
import gen
from p11 import value
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceArr", c.behaviours("model", "GenArr", env={"DEPTH": c.pick(3, 4)}))
    def raw(n):
        out, size = [], [0, 0, 0]
        for k in range(3):
            if rng.random() < .7:
                size[k] = rng.choice([0, 1, 2, 3, 5, 9])
                out.append({"op": "r_new", "k": k, "n": size[k], "w": rng.choice([1, 2, 3, 4, 8, 8])})
        for _ in range(n):
            k, to = rng.sample(range(3), 2)
            r, s = rng.random(), size[k]
            if r < .45:
                w = rng.choice([1, 2, 3, 4, 8, 8])
                o = {"op": "r_put", "k": k, "i": rng.choice([-2, -1, 0, 0, 1, s - 1, s - 1, s, s + 1, rng.randrange(0, s + 2), 2**31 - 1, -2**31]), "v": [rng.randrange(256) for _ in range(w)]}
            elif r < .55:
                o = {"op": "r_resize", "k": k, "n": rng.choice([-1, 0, 1, s - 1, s, s + 1, s + 7, rng.randrange(0, 30)])}
                if o["n"] >= 0: size[k] = o["n"]
            elif r < .65: o, size[to] = {"op": "r_copy", "k": k, "to": to}, s
            elif r < .85:
                t = size[to]
                o = {"op": "r_into", "k": k, "to": to, "off": rng.choice([-1, 0, 0, 1, 2, t - s, t - s - 1, t - s + 1, t, t + 1, t + 5, -s])}
                if o["off"] >= 0: size[to] = max(t, o["off"] + s)
            elif r < .9: o = {"op": "r_clear", "k": k}
            elif r < .93: o, size[k] = {"op": "r_free", "k": k}, 0
            else:
                size[k] = rng.randrange(0, 9)
                o = {"op": "r_new", "k": k, "n": size[k], "w": rng.choice([1, 3, 8])}
            out.append(o)
            if max(size) > 60: break
        return out
    c.trace_check("elements", "TraceArr", [raw(rng.randrange(5, 40)) for _ in range(c.pick(600, 6000))])
    def vec(n):
        out, size = [], [0, 0, 0]
        for k in range(3):
            if rng.random() < .7:
                size[k] = rng.choice([0, 1, 2, 3, 5, 9])
                out.append({"op": "v_new", "k": k, "n": size[k]})
        for _ in range(n):
            k, to = rng.sample(range(3), 2)
            r, s = rng.random(), size[k]
            if r < .5: o = {"op": "v_put", "k": k, "i": rng.choice([-1, 0, 0, 1, s - 1, s - 1, s, rng.randrange(0, s + 2)]), "x": value(rng)}
            elif r < .6:
                o = {"op": "v_grow", "k": k, "n": rng.choice([0, s, s + 1, s + 4, rng.randrange(0, 30)])}
                size[k] = max(s, o["n"])
            elif r < .7: o, size[to] = {"op": "v_copy", "k": k, "to": to}, s
            elif r < .9:
                t = size[to]
                o = {"op": "v_into", "k": k, "to": to, "off": rng.choice([-1, 0, 0, 1, 2, t - s, t - s - 1, t - s + 1, t, t + 3])}
                if o["off"] >= 0: size[to] = max(t, o["off"] + s)
            elif r < .95: o, size[k] = {"op": "v_free", "k": k}, 0
            else:
                size[k] = rng.randrange(0, 9)
                o = {"op": "v_new", "k": k, "n": size[k]}
            out.append(o)
            if max(size) > 40: break
        return out
    c.trace_check("atoms", "TraceArr", [vec(rng.randrange(5, 30)) for _ in range(c.pick(500, 5000))])
    tt = "cCuUiIhHTFNs"
    def typed():
        xs = []
        for _ in range(rng.choice([0, 1, 2, 3, 8, 30, 70])):
            v = value(rng, tt + "fd")
            if v["t"] in "fd":
                e = (v["v"][0] % 128 * 256 + v["v"][1]) // (128 if v["t"] == "f" else 16)
                if not (e == 0 or abs(e - (127 if v["t"] == "f" else 1023)) < 70): v = gen.A("i", gen.be(7, 4))
            if v["t"] == "s" and rng.random() < .1: v = gen.A("s", gen.enc("w" * rng.choice([100, 250, 255, 256, 257, 300])))
            xs.append(v)
        return {"op": "v_typed", "xs": xs, "sep": gen.enc(rng.choice([" ", "", ", ", ";;;;"])), "room": rng.choice([0, 0, 1, 16, 255, 256, 300])}
    c.trace_check("typed", "TraceArr", [[typed() for _ in range(3)] for _ in range(c.pick(150, 1200))])
