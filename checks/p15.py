"""P15: the linked list against spec/List.tla."""
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceList", c.behaviours("model", "GenList", env={"DEPTH": c.pick(4, 5)}))
    def script(n, grow):
        out = [{"op": "l_new", "t": 0}]
        if rng.random() < .6: out.append({"op": "l_new", "t": 1})
        size = 0
        for _ in range(n):
            t = int(rng.random() < .3)
            r = rng.random()
            k = rng.choice([-3, -2, -1, 0, 1, 2, 3, size // 2 - 1, size // 2, size // 2 + 1, size - 2, size - 1, size, size + 1, rng.randrange(0, size + 2)])
            if r < grow: o, size = {"op": "l_add", "t": t, "v": rng.randrange(0, 30), "w": rng.choice("ap")}, size + 1
            elif r < .6: o = {"op": "l_peek", "t": t, "k": k}
            elif r < .9: o, size = {"op": "l_pop", "t": t, "w": rng.choice("htnn"), "k": k}, max(0, size - 1)
            elif r < .94: o = {"op": "l_each", "t": t}
            elif r < .97: o = {"op": "l_sweep", "t": t, "every": rng.choice([1, 2, 3, 7])}
            elif r < .985: o = {"op": "l_clone", "t": t, "to": 1 - t}
            elif r < .99: o = {"op": "l_clear", "t": t}
            elif r < .995: o = {"op": "l_destroy", "t": t}
            else: o = {"op": "l_new", "t": t}
            out.append(o)
        return out + [{"op": "l_each", "t": 0}, {"op": "l_each", "t": 1}] + [{"op": "l_pop", "t": 0, "w": rng.choice("htn"), "k": rng.randrange(-1, 4)} for _ in range(6)]
    c.trace_check("histories", "TraceList", [script(rng.randrange(5, 60), rng.choice([.3, .45, .58])) for _ in range(c.pick(900, 9000))])
    c.trace_check("long", "TraceList", [script(c.pick(250, 600), .5) for _ in range(c.pick(40, 300))])
    def sweep():
        vs = [rng.randrange(1, 12) for _ in range(rng.randrange(0, 20))]
        return [{"op": "l_new", "t": 0}] + [{"op": "l_add", "t": 0, "v": v, "w": rng.choice("aap")} for v in vs] + \
            [{"op": "l_sweep", "t": 0, "every": rng.randrange(1, 8)}, {"op": "l_each", "t": 0}, {"op": "l_add", "t": 0, "v": 9, "w": "a"}, {"op": "l_add", "t": 0, "v": 8, "w": "p"},
             {"op": "l_sweep", "t": 0, "every": 3}, {"op": "l_each", "t": 0}]
    c.trace_check("removal while walking", "TraceList", [sweep() for _ in range(c.pick(300, 3000))])
    def every():      # each position of a list of each length, by each way
        out = []
        n = rng.randrange(1, 12)
        out.append({"op": "l_new", "t": 0})
        out += [{"op": "l_add", "t": 0, "v": i + 1, "w": "a"} for i in range(n)]
        out += [{"op": "l_peek", "t": 0, "k": i} for i in range(-2, n + 2)]
        order = list(range(-1, n))
        rng.shuffle(order)
        for k in order:
            out += [{"op": "l_clone", "t": 0, "to": 1}, {"op": "l_pop", "t": 1, "w": "n", "k": k}, {"op": "l_each", "t": 1},
                    {"op": "l_pop", "t": 1, "w": rng.choice("htn"), "k": k}, {"op": "l_add", "t": 1, "v": 50, "w": rng.choice("ap")}, {"op": "l_pop", "t": 1, "w": "n", "k": -1}]
        return out
    c.trace_check("positions", "TraceList", [every() for _ in range(c.pick(120, 600))])
