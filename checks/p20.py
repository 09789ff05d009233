"""P20: list functions of the expression language, against spec/ExprVal.tla through spec/Expr.tla."""
from exprgen import *
import gen
from gen import ser
ONE = ["length", "sum", "product", "cumsum", "mean", "avg", "median", "min", "max", "extrema", "range", "reverse", "rev", "sort", "sortidx",
       "nonzero", "first", "last", "rest", "butlast", "l2norm", "sign", "identity", "prog1", "typetags"]
MATH = ["abs", "floor", "ceil", "round", "sqrt", "logb", "ilogb", "cos", "sin", "exp", "log", "log10", "cbrt", "asin", "acos", "atan", "tanh", "erf"]
TWO = ["dot", "cross", "pow", "fmod", "hypot", "remainder", "atan2"]
CASTS = ["float32", "float64", "int8", "char", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool"]
EXACT = {f: [0.0] for f in "sin tan asin atan sinh tanh asinh atanh erf expm1 j1 cos cosh exp erfc j0".split()}
EXACT.update(acos=[1.0], acosh=[1.0], log=[1.0], log10=[1, 10, 100, 1000], lgamma=[1, 2], cbrt=[0.0, 1], sqrt=[0, 1, 4, 9, 144, .25, 2.25, 65536, 1e6, 6.25])
MATH += sorted(set(EXACT) - set(MATH))
INTT, FL = "cCuUiIhH", "fd"
def arg(rng, types, n, one=val): return "[%s]" % ", ".join(lit(rng) for _ in range(n)) if n and rng.random() < .15 else None
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceExpr", merged(c.behaviours("model", "GenExpr", env={"FAMILY": "list", "DEPTH": c.pick(2, 3)})))
    kinds = [INTT, FL, "i", "d", "f", "h", "iIhHfd", INTT + FL, "TFcCuUiIhHfd", "cC", "uU"]
    out = []
    for f in ONE:
        for _ in range(c.pick(38, 300)):
            n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7])
            t = rng.choice(kinds + (["s", "s", "is", "sdh"] if f in ("sort", "sortidx", "reverse", "rev", "length", "first", "last", "rest", "butlast", "identity", "typetags", "nonzero") else ["is"]))
            if f in ("typetags", "first", "last", "rest", "butlast", "reverse", "length") and rng.random() < .4: t = "TFNcCuUiIhHfdstb."
            d = vals(rng, t, n, small if rng.random() < .6 and set(t) <= set(NUMT) else val)
            if n > 2 and rng.random() < .3: d[0] = d[-1]
            out.append(ev([msg("/x", d)], "/r = %s(/x)" % f))
    for _ in range(c.pick(120, 1000)):     # whole numbers near the edges of the types
        d = [(rng.choice("H" if v >= 1 << 63 else "hH" if v >= 1 << 32 else "IhH" if v >= 1 << 31 else "ihH" if v >= 0 else "h" if v < -(1 << 31) else "ih"), v) for v in
             [rng.choice([-1, 1, 1, 1]) * (rng.choice([1, 1, 3, 5]) << rng.choice([0, 1, 29, 30, 31, 32, 33, 40, 60, 61, 61, 62, 63])) for _ in range(rng.choice([1, 2, 2, 3]))] if -(1 << 63) <= v < 1 << 64]
        d = [A(t, be(v, 8 if t in "hH" else 4)) for t, v in d]
        if d: out.append(ev([msg("/x", d)], "/r = %s(/x)" % rng.choice(["sum", "sum", "product", "cumsum", "max", "min", "mean", "sort"])))
    c.trace_check("one list", "TraceExpr", pack(out))
    out = []
    for f in MATH + CASTS:
        for _ in range(c.pick(14, 120)):
            d = vals(rng, rng.choice(kinds), rng.randint(1, 3), rng.choice([small, small, val]))
            if f in EXACT and rng.random() < .7: d = [rng.choice([A("d", f64(v)), A("f", f32(v))] + ([A("i", be(int(v), 4))] if v == int(v) else [])) for v in rng.choices(EXACT[f], k=rng.randint(1, 3))]
            out.append(ev([msg("/x", d)], "/r = %s(/x)" % f))
    for _ in range(c.pick(60, 600)):       # exact powers, roots and lengths
        n, m = rng.randint(-9, 9), rng.randint(0, 5)
        out.append(ev([msg("/x", [A("i", be(n, 4)), A("d", f64(n / 2))]), msg("/y", [A("i", be(m, 4))])], "/r = %s" % rng.choice(["pow(/x, /y)", "/x ^ /y", "pow(/y, /y)"])))
        a, b, d = rng.choice([(3, 4, 0), (5, 12, 0), (6, 8, 0), (8, 15, 0), (2, 3, 6), (1, 4, 8), (4, 4, 7), (0, 9, 0), (-3, 4, 0), (7, 0, 0)])
        out.append(ev([msg("/x", [A("i", be(v, 4)) for v in (a, b, d)]), msg("/y", [A("d", f64(v / 4)) for v in (b, d, a)])], "/r = %s" % rng.choice(["l2norm(/x)", "l2norm(/y)", "hypot(nth(/x, 0), nth(/x, 1))", "hypot(first(/x), 0)"])))
    for _ in range(c.pick(20, 60)):
        y, x = rng.choice([(0, 1), (0, 2.5), (0, 100)])
        out.append(ev([msg("/x", [A("d", f64(y))]), msg("/y", [A("d", f64(x))])], "/r = atan2(/x, /y)"))
    for f in TWO:
        for _ in range(c.pick(40, 300)):
            t = rng.choice(kinds)
            n, m = (3, 3) if f == "cross" and rng.random() < .9 else (rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4]))
            out.append(ev([msg("/x", vals(rng, t, n, small)), msg("/y", vals(rng, rng.choice([t, rng.choice(kinds)]), m, small))], "/r = %s(/x, /y)" % f))
    for _ in range(c.pick(150, 1500)):     # ranges of values
        b = [msg("/x", vals(rng, rng.choice(kinds + ["is", "dT."]), rng.randint(0, 4), small))]
        n = lambda: rng.choice(["%d" % rng.randint(0, 20), "%d.%s" % (rng.randint(0, 20), rng.choice(["5", "25", "0"])), "-%d" % rng.randint(1, 9), "0", "16", "-8"])
        if rng.random() < .5: out.append(ev(b, "/r = clip(/x, %s, %s)" % (n(), n())))
        else:
            lo = rng.randint(-8, 8)
            hi = lo + rng.choice([1, 2, 4, 8, 16, -4, -1])
            out.append(ev(b, "/r = scale(/x, %s, %s, %s, %s)" % (lo, hi, n(), n())))
    for _ in range(c.pick(150, 1000)):     # determinants
        n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
        rows = [[rng.choice([0, 0, 1, 2, -1, 3, -4, 5]) for _ in range(n)] for _ in range(n)]
        if rng.random() < .3: rows[0] = rows[-1]
        if n > 3:
            p = list(range(n)); rng.shuffle(p)
            rows = [[rng.choice([1, 2, -1, 4]) if p[i] == j else 0 for j in range(n)] for i in range(n)] if rng.random() < .5 else [[rng.choice([0, 1, 2, -3]) if j >= i or n < 6 and rng.random() < .5 else 0 for j in range(n)] for i in range(n)]
        if rng.random() < .15:
            k = rng.randrange(n)
            rows[k] = rng.choice([rows[k][1:] or [1, 2], rows[k] + [1]])
        t = rng.choice("iidfh")
        out.append(ev([msg("/m%d" % i, [A(t, be(v, 8 if t == "h" else 4) if t in "ih" else f32(v) if t == "f" else f64(v)) for v in r]) for i, r in enumerate(rows)],
                      "/r = det(%s)" % ", ".join("/m%d" % i for i in range(n))))
    c.trace_check("values", "TraceExpr", pack(out))
    out = []
    ALL = "TFNcCuUiIhHfdstb."
    for _ in range(c.pick(900, 9000)):     # building and taking apart
        t = rng.choice([ALL, "i", "d", "s", "is", "TFid"])
        b = [msg("/" + a, vals(rng, rng.choice([t, ALL]), rng.choice([0, 1, 2, 3, 4, 4, 5, 6]))) for a in "xyz"]
        f = rng.choice(["nth", "nth", "nth", "[[", "[[", "list", "[", "nfill", "interleave", "aseq", "aseq", "reverse", "progn", "prog2", "typetags", "sort"])
        def ix(): return rng.choice(["0", "0", "1", "1", "2", "0.9", "1.5", "length(/x) - 1", "length(/x) - 1", "3", "-1", "true", "/i"])
        b.append(msg("/i", vals(rng, "iuIhd", rng.randint(1, 3), lambda r, t: A(t, be(r.randint(0, 3), 8 if t == "h" else 4) if t != "d" else f64(r.randint(0, 7) / 2)))))
        if f == "nth": e = "nth(/x, %s)" % ", ".join(ix() for _ in range(rng.randint(1, 3)))
        elif f == "[[": e = "/x[[%s]]" % ", ".join(ix() for _ in range(rng.randint(1, 3)))
        elif f == "list": e = "list(%s)" % ", ".join(rng.choice(["/x", "/y", "/z", lit(rng)]) for _ in range(rng.randint(0, 4)))
        elif f == "[": e = "[%s]" % ", ".join(rng.choice(["/x", "/y", "/z", lit(rng), "'q'"]) for _ in range(rng.randint(1, 5)))
        elif f == "nfill": e = "nfill(%s, %s)" % (rng.choice(["0", "1", "2", "3", "7", "2.5", "-1", "100", "/i"]), rng.choice(["/x", "/y", "4", "'a'", "[1, 2]"]))
        elif f == "interleave": e = "interleave(%s)" % ", ".join(["/x", "/y", "/z", "[7, 8, 9]"][:rng.randint(2, 4)])
        elif f in ("aseq", ".."):
            x, y = rng.randint(-20, 20), rng.randint(-20, 20)
            s = rng.choice([1, 2, 3, 5, -1, -2, 0.5, -0.25, 0, 7])
            if rng.random() < .3: x += .5
            if rng.random() < .2: y = x
            if y < x and rng.random() < .7: s = -abs(s)
            if f == "..": e = "[%s : %s]" % (x, y) if rng.random() < .5 else "[%s : %s : %s]" % (x, s, y)
            else: e = "aseq(%s, %s)" % (x, y) if rng.random() < .4 else "aseq(%s, %s, %s)" % (x, y, s)
        elif f == "reverse": e = "reverse(%s(/x))" % rng.choice(["rest", "butlast", "first", "last", "reverse", "sort"])
        elif f in ("progn", "prog2"): e = "%s(%s)" % (f, ", ".join(rng.choice(["/x", "/y", "/z", "1"]) for _ in range(rng.randint(2, 4))))
        elif f == "typetags": e = "typetags(%s)" % rng.choice(["/x", "list(/x, /y)"])
        else: e = "sort(%s)" % ", ".join(["/x", "/y", "/z"][:rng.randint(1, 3)])
        out.append(ev(b, "/r = " + e))
    for _ in range(c.pick(60, 600)):       # blobs by index
        out.append(ev([msg("/x", [val(rng, "b")])], "/r = nth(/x, %s)" % rng.choice(["0", "1", "3", "4", "[0, 1]"])))
    c.trace_check("building lists", "TraceExpr", pack(out))
    out = []
    for f, rows in sorted(table("Tab1").items()):          # points of the transcendental functions, and the constants
        for _ in range(c.pick(2, 8)):
            xs = [number(rng, x) for (x,) in rng.sample(rows, rng.randint(1, min(4, len(rows))))]
            out.append(ev([msg("/x", xs)], "/r = %s(/x)" % f))
    for f, rows in sorted(table("Tab2").items()):
        for _ in range(c.pick(8, 30)):
            x, y = rng.choice(rows)
            one = f in ("mtof", "ftom") or rng.random() < .5
            b = [msg("/x", [number(rng, x)] * rng.choice([1, 1, 2] if f in ("pow", "atan2", "hypot") else [1])), msg("/y", [number(rng, y)])]
            out.append(ev(b, "/r = %s" % ("/x ^ /y" if f == "pow" and rng.random() < .5 else "%s(/x, /y)" % f)))
    for f in table("Constants"):
        out += [ev([], "/r = %s()" % f), ev([msg("/x", [number(rng, 2.0)])], "/x = length(list(%s(), /x))" % f)]
    for _ in range(c.pick(60, 600)):
        t = rng.choice("cCuUiI") if rng.random() < .6 else rng.choice("CUIhH")
        out.append(ev([msg("/x", [gen.atom(rng, t) for _ in range(rng.randint(1, 3))])], "/r = %s(/x)" % rng.choice(["hton32", "ntoh32", "hton64", "ntoh64"])))
    for _ in range(c.pick(60, 500)):       # times
        y, mo, d = rng.randint(1901, 2035), rng.randint(1, 12), rng.randint(1, 28)
        s = "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, rng.randrange(24), rng.randrange(60), rng.randrange(60)) + rng.choice(["", ".5", ".25", ".125", ".000001", ".999"]) + rng.choice(["Z", "Z", ""])
        b = [msg("/x", [A("s", enc(s))]), msg("/y", [rng.choice([A("d", f64(rng.choice([0, .5, 1, rng.randrange(1 << 31) + rng.random(), rng.randrange(1 << 20)]))), A("f", f32(rng.choice([0., .5, 3.25, 1e6, 1e9]))), A("i", i32(3)), A("s", enc("q"))])]),
             msg("/z", vals(rng, "sdi", rng.choice([0, 2]), small))]
        out.append(ev(b, "/r = %s" % rng.choice(["strtotime(/x)", "strtotime(/x)", 'strtotime("%s")' % s, "floattotime(/y)", "floattotime(/y)", "floattotime(strtotime(/x))", "strtotime(/y)", "strtotime(/z)", "floattotime(/z)", "strtotime(/x) - strtotime(/x)", "strtotime(list(/x, /x))", "strtotime(list(/x, /x, /x))"])))
    for _ in range(c.pick(80, 800)):       # hulls
        n = rng.randint(3, 9)
        p = [(rng.randint(-20, 20), rng.randint(-20, 20)) for _ in range(n)]
        w = lambda l: [number(rng, float(v)) for v in l]
        if rng.random() < .5: out.append(ev([msg("/x", w([v for q in p for v in q]))], "/r = quickhull(/x)"))
        else: out.append(ev([msg("/x", w([q[0] for q in p])), msg("/y", w([q[1] for q in p]))], "/r = quickhull(/x, /y)"))
    for _ in range(c.pick(80, 800)):       # sums of one kind
        t = rng.choice(INTT)
        out.append(ev([msg("/x", vals(rng, t, rng.randint(1, 6), rng.choice([small, val])))], "/r = %s(/x)" % rng.choice(["cumsum", "sum", "product"])))
        out.append(ev([msg("/x", vals(rng, t, 3, small)), msg("/y", vals(rng, t, 3, small))], "/r = %s(/x, /y)" % rng.choice(["cross", "dot"])))
    c.trace_check("points", "TraceExpr", pack(out))
    out = []
    W = ["/a", "/b/c", "==", "=", "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "!=", "!", "&&", "||", "??", "??=", "+=", "-=", "*=", "/=", "%=", "++", "--", "^", "(", ")", "[", "]", "[[", "]]", "{", "}", ",", ":", ".", "lambda", "foo", "nth", "true",
         "false", "nil", "1", "12", "3.5", "0.25", "-", "7", '"ab"', '"a b"', '"a\\"b"', '""', "'x'", "pi", "/a.b", "/*", "2", "300"]
    for _ in range(c.pick(300, 3000)):     # tokens of a text
        n = rng.choice([0, 1, 2, 3, 5, 8, 8, 70] if rng.random() < .2 else [1, 2, 3, 4, 5, 6])
        s = rng.choice([" ", " ", " ", "", "  "]).join(rng.choice(W) for _ in range(n))
        if rng.random() < .2: s = "# remark\n" + s + rng.choice([" ", "\n", "\t"])
        l = [A("s", enc(s))]
        if rng.random() < .25: l = [rng.choice([A("s", enc(rng.choice(W))), gen.atom(rng, rng.choice("iIhH"))]) for _ in range(rng.randint(1, 4))]
        out.append(ev([msg("/x", l)], "/r = tokenize(%s)" % rng.choice(["/x"] * 9 + ["nth(/x, 9)", "/zz", "first(/zz)", "list(/x, 3)", '"/a + 1"'])))
    c.trace_check("tokens", "TraceExpr", pack(out))
    out = []
    for _ in range(c.pick(150, 1500)):     # bundles made of a name, of a blob, of bytes
        v = ser([msg("/" + rng.choice("abc") + rng.choice(["", "/d", "xyz"]), vals(rng, "idsTt", rng.randint(0, 3))) for _ in range(rng.choice([0, 1, 1, 2, 3]))], [0] * 8 if rng.random() < .5 else TAG)
        r = rng.random()
        if r < .15: v = v[:rng.choice([0, 4, 8, 12, len(v) - 4, len(v) - 1])]
        elif r < .25 and len(v) > 20: v = v[:16] + be(rng.choice([0, 3, 1 << 20, (1 << 32) - 4, len(v)]), 4) + v[20:]
        elif r < .3 and len(v) > 20: v[20] = 65
        elif r < .35: v[rng.randrange(8)] = 33
        elif r < .4: v = v + be(rng.choice([4, 8, 0]), 4)
        b = [msg("/x", [A("b", v)]), msg("/y", [A(rng.choice("iCuU"), []) for _ in v]), msg("/z", [A("i", i32(rng.choice([1, 5]))), A("b", v)]), msg("/n", [A("s", enc("/q"))])]
        for i, x in enumerate(v): b[1]["d"][i] = A("i", be(x, 4)) if rng.random() < .7 else A("C", be(x, 4))
        out.append(ev(b, "/r = bundle(%s)" % rng.choice(["/x", "/x", "/x", "/y", "/z", "nth(/z, 1)", '"/a"', "/n", "last(/z)", "3", "[1, 2]"])))
    c.trace_check("made bundles", "TraceExpr", pack(out))
