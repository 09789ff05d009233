"""P18: operators of the expression language, against spec/ExprVal.tla through spec/Expr.tla."""
from exprgen import *
OPS = ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "&", "|"]
NAMES = ["add", "sub", "mul", "div", "mod", "lt", "le", "gt", "ge", "eq", "ne", "and", "or"]
def run(c):
    rng = c.rng
    out = []
    both = "TFNcCuUiIhHfdstb."
    for _ in range(c.pick(1, 10)):
        for x in both:                  # every pair of types
            for y in both:
                for o in OPS:
                    if o in "&|" and not (x in NUMT and y in NUMT): continue
                    k = 1 if x in NUMT and y in NUMT else rng.random() < .4
                    for _ in range(k):
                        d, e = [val(rng, x)], [val(rng, y)]
                        if rng.random() < .15 and x == y: e = d
                        out.append(ev([msg("/x", d), msg("/y", e)], "/r = /x %s /y" % o))
        for x in "stbNTF.":             # the same and not quite the same
            for _ in range(6):
                v = val(rng, x)
                d = [rng.choice([v, v, val(rng, x)]) for _ in range(rng.randint(1, 3))]
                out.append(ev([msg("/x", d), msg("/y", [v] if rng.random() < .5 else d)], "/r = /x %s /y" % rng.choice(["==", "!=", "<", ">=", "+", "-"])))
        for _ in range(20):             # time tags
            t, u = (val(rng, "t") if rng.random() < .6 else A("t", be(rng.getrandbits(32), 4) + be(rng.getrandbits(32), 4)) for _ in "xy")
            out.append(ev([msg("/x", [t]), msg("/y", [u, t])], "/r = %s" % rng.choice(["/x - /y", "/y - /x", "/x + /y", "/x < /y", "/x == /y", "/y >= /x", "/x + 1", "/x - 1", "1 + /x"])))
    c.trace_check("pairs of types", "TraceExpr", pack(out))
    out = []
    for _ in range(c.pick(1200, 12000)):  # lists, and literals
        nx, ny = rng.choice([(1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 1), (4, 4), (0, 1), (1, 0), (5, 2)])
        t = rng.choice([NUMT, NUMT, NUMT, "iIhHfd", "fd", "ih", NUMT + "s"])
        b = [msg("/x", vals(rng, t, nx)), msg("/y", vals(rng, t, ny))]
        s = lambda: rng.choice(["/x", "/y", "[%s]" % ", ".join(lit(rng) for _ in range(rng.randint(1, 4))), lit(rng)])
        r = rng.random()
        o = rng.randrange(len(OPS))
        x, y = s(), s()
        if r < .6: e = "%s %s %s" % (x, OPS[o], y)
        elif r < .8: e = "%s(%s, %s)" % (NAMES[o], x, y)
        else: e = "%s(%s)" % (rng.choice(["plus1", "minus1", "!", "not", "++", "--"]), x) if rng.random() < .5 else "%s%s" % (rng.choice(["-", "!"]), x)
        if "(" in e and e[:2] in ("!(", "++", "--"): e = e.replace("++", "plus1").replace("--", "minus1").replace("!(", "not(")
        out.append(ev(b, "/r = " + e))
    c.trace_check("lists", "TraceExpr", pack(out))
    out = []
    small = lambda n: [A("i", be(rng.randrange(-6, 7) % 2**32, 4)) if rng.random() < .6 else A("d", gen.f64(rng.choice([.5, 1.5, 2, -3, .25, 9, -1]))) for _ in range(n)]
    whole = lambda n: [A("i", be(rng.randrange(0, 6), 4)) for _ in range(n)]
    for _ in range(c.pick(200, 2000)):   # powers, where they are exact
        nx, ny = rng.choice([(1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 1), (0, 1), (1, 0), (4, 1)])
        b = [msg("/x", small(nx)), msg("/y", whole(ny))]
        out.append(ev(b, "/r = " + rng.choice(["/x ^ /y", "pow(/x, /y)", "/x ^ %d" % rng.randrange(5), "%d ^ /y" % rng.randrange(5), "[1, 2, 3] ^ /y", "/x ^ [2, 0, 3]", "/x ^ /y ^ 2"])))
    c.trace_check("powers", "TraceExpr", pack(out))
    out = []
    for t in NUMT + "Nsb.":              # one operand
        for _ in range(c.pick(12, 100)):
            b = [msg("/x", vals(rng, t, rng.randint(1, 3)))]
            out.append(ev(b, "/r = %s" % rng.choice(["!/x", "-/x", "plus1(/x)", "minus1(/x)", "/x++", "/x--", "++/x", "--/x", "not(/x)"])))
            out.append(ev(b, rng.choice(["/x++", "++/x", "/x--", "--/x", "/x += /x", "/x -= 1", "/x *= 2", "/x /= 2", "/x %= 3"])))
    for x in "cCuUiIhH":
        for y in "cCuUiIhHd":
            for _ in range(c.pick(2, 6)):
                for f in ("bitand", "bitor"):
                    out.append(ev([msg("/x", [gen.atom(rng, x)]), msg("/y", [gen.atom(rng, y)])], "/r = %s(/x, /y)" % f))
    c.trace_check("one operand", "TraceExpr", pack(out))
