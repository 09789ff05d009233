"""P21: functions applied, mapped and folded, against spec/Expr.tla."""
from exprgen import *
NAMES = "xyzab"
def ints(rng, n): return [A("i", i32(rng.randint(-9, 20))) for _ in range(n)]
class G:
    """Random terms: fs are parameters bound to functions (with their arity), vs to values."""
    def __init__(s, rng, store): s.rng, s.store, s.n = rng, store, 0
    def lam(s, k, d, vs, fs):
        rng = s.rng
        ps = rng.sample(NAMES, k) if rng.random() < .95 else [rng.choice(NAMES) for _ in range(k)]
        v2 = vs | set(ps)
        f2 = {p: a for p, a in fs.items() if p not in ps}
        return "lambda(%s, %s)" % (ps[0] if k == 1 and rng.random() < .4 else "[%s]" % ", ".join(ps), s.bodies(d, v2, f2))
    def bodies(s, d, vs, fs):
        rng = s.rng
        bs = []
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            r = rng.random()
            bs.append("/t = %s" % s.term(d - 1, vs, fs) if r < .6 else "/t += 1" if r < .7 else s.call(d - 1, vs, fs))
        if rng.random() < .2: bs.append(s.term(0, vs, fs))
        bs.append(s.call(d, vs, fs) if rng.random() < .8 else s.term(d, vs, fs))
        return ", ".join(bs)
    def call(s, d, vs, fs):
        """something that is an expression rather than a bare value"""
        for _ in range(20):
            t = s.term(d, vs, fs)
            if "(" in t or "[" in t or "+" in t or "*" in t: return t
        return "identity(%s)" % t
    def fun(s, k, d, vs, fs):
        """a function of k arguments: text of its form, and how it is named"""
        rng = s.rng
        r = rng.random()
        mine = [p for p, a in fs.items() if a == k]
        if mine and r < .35: return rng.choice(mine)
        if r < .15: return {1: '"plus1"', 2: '"%s"' % rng.choice(["add", "sub", "mul", "list", "prog1", "prog2", "lt"]), 3: '"list"', 0: '"list"'}[k]
        if r < .3:
            a = "/f%d" % len(s.store)
            s.store.append((a, s.lam(k, min(d, 1), set(), {})))
            return a
        return s.lam(k, d - 1, vs, fs)
    def args(s, k, d, vs, fs): return ", ".join(s.term(d - 1, vs, fs) for _ in range(k))
    def lst(s, d, vs, fs):
        rng = s.rng
        return rng.choice(["/l", "/m", "/l", "[1, 2, 3]", "[4, 5]", "list(%s)" % s.term(d - 1, vs, fs), "/e" if rng.random() < .2 else "/l", "aseq(1, %d)" % rng.randint(1, 5), rng.choice(sorted(vs)) if vs else "/m"])
    def term(s, d, vs, fs):
        rng = s.rng
        r = rng.random()
        s.n += 1
        if d <= 0 or s.n > 60 or r < .2:
            q = rng.random()
            if vs and q < .6: return rng.choice(sorted(vs))
            return str(rng.randint(0, 9)) if q < .8 else rng.choice(["/v", "/w", "/l", "/t", "/l"] + (["/nope"] if rng.random() < .1 else []))
        if r < .42: return "(%s %s %s)" % (s.term(d - 1, vs, fs), rng.choice("+-*"), s.term(d - 1, vs, fs))
        if r < .65:
            k = rng.choice([1, 1, 2, 2, 3, 0])
            f = s.fun(k, d, vs, fs)
            if f[0] == "l" and k and rng.random() < .5: return "(%s, %s)" % (f, s.args(k, d, vs, fs))
            if f[0] == "/" and rng.random() < .5: return "%s(%s)" % (f, s.args(k, d, vs, fs))
            if not k: return "apply(%s)" % f if rng.random() < .1 else "apply(%s, %s)" % (s.fun(1, d, vs, fs), s.term(d - 1, vs, fs))
            return "apply(%s, %s)" % (f, s.args(k if rng.random() < .97 else 3 - k % 3, d, vs, fs))
        if r < .7:   # functions handed to functions
            p = rng.choice(NAMES)
            k = rng.choice([1, 2])
            body = s.call(d - 1, vs - {p}, {**fs, p: k}) if rng.random() < .5 else "apply(%s, %s)" % (p, s.args(k, d - 1, vs - {p}, {**fs, p: k}))
            if rng.random() < .4: body = "list(%s, %s)" % (body, "apply(%s, %s)" % (p, s.args(k, d - 1, vs - {p}, {**fs, p: k})))
            return "apply(lambda([%s], %s), %s)" % (p, body, s.lam(k, d - 1, vs, fs))
        if r < .82:
            k = rng.choice([1, 1, 2, 3])
            return "map(%s, %s)" % (s.fun(k, d, vs, fs), ", ".join(s.lst(d, vs, fs) for _ in range(k)))
        if r < .94:
            f = s.fun(2, d, vs, fs)
            return "%sreduce(%s, %s%s)" % (rng.choice("lr"), f, s.lst(d, vs, fs), ", " + s.term(d - 1, vs, fs) if rng.random() < .4 else "")
        if r < .97: return "if(%s, %s, %s)" % ("%s > %s" % (s.term(0, vs, fs), rng.randint(0, 9)) if rng.random() < .7 else "true", s.term(d - 1, vs, fs), s.term(d - 1, vs, fs))
        return "list(%s)" % s.args(rng.randint(1, 3), d, vs, fs)
def S(w): return A("s", enc(w))
def bundle(rng, store):
    return [msg("/v", ints(rng, 1)), msg("/w", [A("d", f64(rng.randint(-8, 8) / 2))]), msg("/l", ints(rng, rng.randint(1, 5))), msg("/m", ints(rng, rng.randint(1, 3))),
            msg("/e", []), msg("/t", ints(rng, 1))] + [msg(a, [S(t)]) for a, t in store]
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceExpr", merged(c.behaviours("model", "GenExpr", env={"FAMILY": "fn", "DEPTH": c.pick(1, 2)})))
    out = []
    def one(text, store): out.append(ev(bundle(rng, store), text))
    for _ in range(c.pick(2500, 25000)):
        store = []
        g = G(rng, store)
        t = g.term(rng.choice([1, 2, 2, 3, 3, 4]), set(), {})
        one("/r = " + t, store)
    c.trace_check("programs", "TraceExpr", pack(out))
    out = []
    # folds in both directions, on operators that tell them apart
    for _ in range(c.pick(400, 4000)):
        f = rng.choice(['"sub"', '"add"', "lambda([a, b], list(a) - b)", "lambda([a, b], (a * 2) - b)", "lambda([a, b], (10 * a) + b)", "lambda([a, b], prog1(a, b))", "lambda([a, b], prog2(a, b))",
                        "lambda([a, b], a + \"/\" + b)", "lambda([a, b], \"(\" + a + b + \")\")", "/f", '"list"', "lambda([a, b], if(a > b, a, b))", "lambda([a, b], /t = a, a + b)", "lambda([a, b], /t = list(/t, b), a + b)"])
        l = rng.choice(["/l", "/l", "/s", "/e", "[3]", "[1, 2, 3, 4]", "/m"]) if '"(' in f or "/\"" in f else rng.choice(["/l", "/m", "/e", "[7]", "[5, 1, 2]", "/l"])
        i = rng.choice(["", "", ", 0", ", 100", ", /v", ", \"q\"" if "\"/" in f else ", 1", ", /e", ", /nope"])
        out.append(ev(bundle(rng, [("/f", "lambda([p, q], (p * 3) - q)")]) + [msg("/s", [S(w) for w in rng.sample("abcde", rng.randint(1, 4))])], "/r = %sreduce(%s, %s%s)" % (rng.choice("lr"), f, l, i)))
        k = rng.randint(1, 4)
        ls = [rng.choice(["/l", "/m", "/v", "/s", "[1, 2]", "/e" if rng.random() < .2 else "/l"]) for _ in range(k)]
        ps = ["p", "q", "u", "w"][:k]
        f = rng.choice(["lambda([%s], list(%s))" % (", ".join(ps), ", ".join(rng.sample(ps, k))), '"list"', "lambda([%s], /t = list(/t, %s), %s + 1)" % (", ".join(ps), ps[0], ps[-1]), "lambda([%s], length(list(%s)))" % (", ".join(ps), ", ".join(ps)),
                        "lambda([%s], if(true, %s, 0), identity(%s))" % (", ".join(ps), ps[0], ps[-1])])
        out.append(ev(bundle(rng, []) + [msg("/s", [S(w) for w in rng.sample("abcde", rng.randint(1, 4))])], "/r = map(%s, %s)" % (f, ", ".join(ls))))
    c.trace_check("maps and folds", "TraceExpr", pack(out))
    out = []
    # bindings: nesting, shadowing, arguments evaluated outside
    shapes = ["apply(lambda([{p}], apply(lambda([{p}], {p} + 1), {p} * 2) + {p}), {n})", "apply(lambda([{p}, {q}], apply(lambda([{q}], {p} - {q}), {q} * 2) - {q}), {n}, {m})",
              "apply(lambda([{p}], map(lambda([{q}], {q} + {p}), /l)), {n})", "map(lambda([{p}], lreduce(lambda([{q}, {s}], {q} + {s} + {p}), /m)), /l)", "apply(lambda([{p}], {p}), {p})",
              "(lambda([{p}, {q}], {q} - {p}), {n}, {m})", "apply(lambda([{p}], /t = {p}, {p} + /t), /v)", "apply(lambda([{p}], /t = {p}, /v = /t + 1, /t + /v), {n})", "{p} + {q}", "list({p}, apply(lambda([{p}], {p} + 0), {n}), {p})",
              "apply(lambda([{p}, {q}], list({p}, {q})), /l, /m)", "apply(lambda([{p}], list(apply({p}, {n}), apply({p}, {m}))), lambda([{q}], {q} * {q}))",
              "apply(lambda([{p}], list(apply({p}, lambda([{q}], {q} + 1)), apply({p}, lambda([{q}], {q} * 10)))), lambda([{s}], apply({s}, {n})))",
              "apply(lambda([{p}], apply(lambda([{q}], apply({q}, {p})), lambda([{s}], {s} - 1))), {n})", "/f({n}) + /f({m})", "apply(/f, apply(/f, {n}))", "map(/f, /l)", "lreduce(/g, /l)", "rreduce(/g, /l, {n})",
              "apply(lambda([{p}], /f({p})), {n})", "apply(lambda([{p}], {p} * /f({p} + 1)), {n})", "apply(lambda([], {n} + {m}))", "apply(lambda([{p}], exists(/v), {p} + 1), {n})", "apply(lambda([{p}], delete(/v), exists(/v)), {n})",
              "map(lambda([{p}], if({p} > {n}, {p}, 0)), /l)", "map(lambda([{p}], map(lambda([{q}], {p} * {q}), /m)), /l)", "apply(lambda([{p}], {p}[[0]] + {n}), /l)", "apply(lambda([{p}], length({p})), /l)", "apply(lambda([{p}], value({p})), \"/v\")",
              "apply(lambda([{p}], {p}++), {n})", "apply(lambda([{p}, {p}], {p} + 1), {n}, {m})", "apply(\"add\", {n}, {m})", "apply(\"apply\", \"add\", {n}, {m})", "apply({p}, {n})", "apply(\"nosuch\", {n})", "apply(/v, {n})", "apply(/nope, {n})", "apply(/l, {n})",
              "apply(lambda([{p}], nope({p})), {n})", "apply(lambda([{p}], /nope + {p}), {n})", "map(lambda([{p}], /nope + {p}), /l)", "map(lambda([{p}], {p} + 1), /nope)", "lreduce(\"add\", /nope)", "lreduce(\"add\", /l, /nope)", "apply(lambda([{p}], {p} + 1), /nope)",
              "apply(lambda([{p}], /t = 5, /nope + 1), {n})", "apply(lambda([{p}], /w = {p}, bound(/w)), /e)", "apply(lambda([{p}, {q}], {p} - {q}), {q}, {p})" , "lreduce(lambda([{p}, {q}], apply(lambda([{s}], {p} + {q} * {s}), 2)), /l)", "rreduce(lambda([{p}, {q}], list({p})), /l)"]
    for _ in range(c.pick(1500, 10000)):
        p, q, s = rng.sample(NAMES, 3)
        if rng.random() < .2: q = p
        t = rng.choice(shapes).format(p=p, q=q, s=s, n=rng.randint(0, 9), m=rng.choice([rng.randint(0, 9), "/v", "/l"]))
        out.append(ev(bundle(rng, [("/f", rng.choice(["lambda([x], x * 2 + 1)", "lambda([y], /t = y, y + /t)", "lambda([x], apply(lambda([x], x + 1), x * 3) - x)", "plus1", "lambda([x], map(lambda([y], y - x), /m))"])),
                                   ("/g", rng.choice(["lambda([x, y], x - y)", "sub", "add", "lambda([y, x], y * 2 + x)"]))]), ("/r = " if rng.random() < .9 else "/q = 1, /r = ") + t))
    c.trace_check("bindings", "TraceExpr", pack(out))
