"""P26: quoting against spec/Str.tla, string functions of the expression language against spec/ExprVal.tla."""
from exprgen import *
WORDS = ["", "a", "b", "ab", "abc", "aab", "abab", "aaaa", "/foo/bar", "/foo/bar/", "//", "a,b,,c", "x y", "hello world", "10", "\xe9t\xe9", "a\"b", "a\\b", "%s%d", "\\", "\"", "a/b/a/b", ",a,", "foo.bar", "\t\n", "aXbXc"]
def word(rng):
    if rng.random() < .6: return rng.choice(WORDS)
    return "".join(rng.choice("ab/,\"\\ %.") for _ in range(rng.choice([1, 3, 6, 9, 40, 200, 300] if rng.random() < .2 else [1, 2, 3, 4, 5, 7])))
def S(w): return A("s", enc(w))
def quoted(rng, w):
    """w as a literal of the language; what a backslash does there is up to the specification."""
    w = w.replace("\n", " ")
    if rng.random() < .8: w = w.replace("\\", rng.choice(["/", "\\\\", "\\n"]))
    w = w.replace("\"", "\\\"")
    return "\"%s\"" % (w[:-1] if w.endswith("\\") else w)
def run(c):
    rng = c.rng
    beh = c.behaviours("model", "GenStr", env={"LEN": c.pick(3, 5)})
    q = [o for b in beh for o in b if o["op"] == "quote"]
    e = [o for b in beh for o in b if o["op"] == "ev"]
    if len(e) > c.pick(4000, 40000): e = rng.sample(e, c.pick(4000, 40000))
    for _ in range(c.pick(1500, 15000)):
        w = enc(word(rng)) if rng.random() < .8 else [rng.randint(1, 255) for _ in range(rng.choice([1, 5, 20]))]
        q.append({"op": "quote", "s": w, "n": rng.choice([0, 1, 2, 3, len(w), len(w) + 1, len(w) + 2, len(w) + 3, len(w) + 5, 2 * len(w) + 3, 64])})
    c.trace_check("quoting", "TraceStr", pack(q, 60))
    c.trace_check("model functions", "TraceExpr", pack(e))
    out = []
    def more(t, b): out.append(ev(b, "/r = " + t))
    for _ in range(c.pick(500, 5000)):       # literals
        ws = [word(rng) for _ in range(rng.randint(1, 3))]
        f = rng.choice(["list(%s)", "[%s]", "strlen(list(%s))", "join(\"-\", %s)", "reverse(list(%s))"])
        more(f % ", ".join(quoted(rng, w) for w in ws) if "[" not in f or len(ws) > 1 else quoted(rng, ws[0]), [])
    for _ in range(c.pick(150, 1500)):
        more("strlen(/s)", [msg("/s", [S(word(rng)) for _ in range(rng.choice([1, 1, 2, 4]))])])
        x, y = word(rng), word(rng)
        if rng.random() < .3: y = x[:rng.randint(0, len(x))] + rng.choice(["", "a", "b"])
        f = rng.choice(["strcmp(/a, /b)", "strcmp(/a, /b)", "strcmp(/a, /b, %d)" % rng.choice([0, 1, 2, 3, 100])])
        more(rng.choice(["sign(%s)", "%s < 0", "%s == 0", "%s > 0"]) % f, [msg("/a", [S(x)]), msg("/b", [S(y)])])
        more("/a + /b" if rng.random() < .5 else "strlen(/a + /b) == strlen(/a) + strlen(/b)", [msg("/a", [S(x)]), msg("/b", [S(y)])])
        sep = rng.choice(["/", ",", "a", "ab", "/,", " ", "\xe9", "b"])
        more("strfind(/b, /a)", [msg("/a", [S(x)]), msg("/b", [S(rng.choice([y, sep, x[:rng.randint(0, len(x))], x[1:2]]))])])
        b = [msg("/a", [S(x)]), msg("/sep", [S(sep if rng.random() < .9 else "")])]
        more(rng.choice(["split(/sep, /a)", "join(/sep, split(/sep, /a))", "length(split(/sep, /a))", "join(\"\", split(\"\", /a))", "split(/sep, join(/sep, split(/sep, /a)))"]), b)
        n = rng.randint(0, 3)
        pos = [rng.randint(0, max(0, len(x))) if rng.random() < .15 else rng.randrange(max(1, len(x))) for _ in range(n)]
        more("strchar(/p, /a)", [msg("/a", [S(x)] * rng.choice([1, 1, 2]) + ([S(y)] if rng.random() < .1 else [])),
                                  msg("/p", [rng.choice([A("i", i32(p)), A("h", be(p, 8)), A("d", f64(p)), A("i", i32(p))]) for p in pos] + ([A("i", i32(-1))] if rng.random() < .05 else []))])
        more("strchar(%s, /a)" % rng.choice(["aseq(0, strlen(/a) - 1)", "0", "strlen(/a) - 1", "strlen(/a)", "reverse(aseq(0, strlen(/a) - 1))"]), [msg("/a", [S(x)])])
        many = [rng.choice([S(word(rng)), S(word(rng)), val(rng, rng.choice("cCuUiIhH")), A("c", i32(rng.randint(33, 126))), A("C", i32(rng.randint(33, 126)))]) for _ in range(rng.randint(0, 5))]
        more(rng.choice(["join(/sep, /m)", "join(/sep, /m, /a)", "join(/sep, /a, /m, \"z\")", "join(\"\", /m)", "strlen(join(/sep, /m))"]), b + [msg("/m", many)])
        k = rng.choice(["s", "cC", "b", "iIhHuU", "fd", "scCuUiIhHfdbTFN"])
        more("string(/x)", [msg("/x", vals(rng, k, rng.randint(0, 4)))])
        more("blob(/x)", [msg("/x", vals(rng, rng.choice(["cC", "iIhHcCuU", "i"] if rng.random() < .8 else ["bis", "b", "."]), rng.randint(0, 4)))])
        more("string(blob(/x))", [msg("/x", vals(rng, "cCi", rng.randint(1, 9), small))])
        more("readstring(/x)", [msg("/x", [S(x)] * rng.choice([1, 1, 1, 2]) if rng.random() < .9 else vals(rng, "idb", 1))])
        xs = vals(rng, rng.choice([NUMT, "iIhH", "fd", "s", "b", "cCuUb"]), rng.randint(1, 4), small)
        tags = [rng.choice("cCuUiIhHfdsb") for _ in range(1 if rng.random() < .5 else len(xs) + rng.choice([0, 0, 1]))]
        more(rng.choice(["cast(/t, /x)", "cast(%s, /x)" % ("[%s]" % ", ".join("'%s'" % t for t in tags) if len(tags) > 1 else rng.choice(["'%s'", '"%s"']) % tags[0]), "cast(typetags(/x), /x)"]), [msg("/t", [A("c", i32(ord(t))) if rng.random() < .6 else S(t) for t in tags]), msg("/x", xs)])
    for t in "cC":                           # every character code
        for k in range(0, 256, 16):
            codes = [A(t, be(v - 256 if t == "c" and v > 127 else v, 4)) for v in range(k, k + 16)]
            more(rng.choice(["string(/x)", "string(/x)", "join(\",\", /x)"]), [msg("/x", codes)])
            more("string(blob(/x))" if k else "blob(/x)", [msg("/x", codes)])
    addrs = ["/a", "/b", "/ab", "/a/b", "/a/c", "/b/a", "/a/b/c", "/abc", "/foo/1", "/foo/2", "/foo"]
    pats = ["/*", "/a", "/a*", "/*/b", "/a/*", "/?", "/[ab]", "/{a,b}", "/{a,foo}/*", "/foo/[0-9]", "/a/b/c", "/a/b/c/d", "/*/*", "/[!a]", "/nomatch"]
    for _ in range(c.pick(150, 1500)):
        more("match(/p, /a)", [msg("/p", [S(rng.choice(pats)) for _ in range(rng.choice([1, 1, 2, 3]))]), msg("/a", [S(w) for w in rng.sample(addrs, rng.randint(0, 6))])])
    c.trace_check("functions", "TraceExpr", pack(out))
