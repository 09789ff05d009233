"""P19: statements and assignments of the expression language, against spec/Expr.tla."""
from exprgen import *
import gen
NAMES = ["/a", "/b", "/c", "/ab", "/d", "/a/b"]
def I(n): return A("i", be(n, 4))
def simple(rng, d=1):
    """An expression of a few values."""
    r = rng.random()
    if r < .35: return rng.choice(NAMES)
    if r < .6: return str(rng.randrange(12))
    if r < .68: return rng.choice(["2.5", "'q'", "true", "[1, 2, 3]", "nil", "[]", '"/a"', "-1", '"ab"'])
    if d == 0: return rng.choice(NAMES)
    if r < .85: return "%s %s %s" % (simple(rng, 0), rng.choice(["+", "-", "*", "/", "%", "<", "=="]), simple(rng, 0))
    return "%s(%s)" % (rng.choice(["length", "list", "reverse", "first", "rest", "sum", "max", "typetags"]), simple(rng, d - 1))
def stmt(rng):
    a, e = rng.choice(NAMES), simple(rng)
    r = rng.random()
    if r < .3: return "%s = %s" % (a, e)
    if r < .42: return "%s %s %s" % (a, rng.choice(["+=", "-=", "*=", "/=", "%="]), e)
    if r < .5: return rng.choice(["%s++", "%s--", "++%s", "--%s"]) % a
    if r < .56: return "%s ??= %s" % (a, e if " " not in e else "7")
    if r < .6: return "%s = %s ?? %s" % (rng.choice(NAMES), a, rng.choice(["5", "/b", "'z'"]))
    if r < .7: return "%s[[%s]] = %s" % (a, rng.choice(["0", "1", "2", "0, 1", "1, 2, 0", "0 : 1", "0 : 2 : 4", " [0, 1] ", "/d", "length(%s) - 1" % a, "5"]), rng.choice([e, "9", "[7, 8]", "[4, 5, 6]", "'w'"]))
    if r < .76: return "delete(%s)" % ", ".join(rng.choice(NAMES) for _ in range(rng.randint(1, 2)))
    if r < .82: return "if(%s, %s, %s)" % (rng.choice(["true", "false", "/a == 1", "bound(/b)", "exists(/c)", "1", "0", "0.5", "/d"]), "%s = %s" % (a, simple(rng, 0)), "%s = %s" % (rng.choice(NAMES), simple(rng, 0)))
    if r < .86: return "if(%s, %s = %s)" % (rng.choice(["true", "false", "/a < /b", "!bound(/b)"]), a, simple(rng, 0))
    if r < .92: return "%s = %s" % (a, rng.choice(["getmsgcount()", "getaddresses()", "emptybundle()", "bound(%s)" % rng.choice(NAMES), "exists(%s)" % rng.choice(NAMES), 'bound("/a")', 'exists("/zz")', 'value("/a")', 'value("/b")', "value(/s)", "/a = /b = 3", "(/c = 4) + 1", "progn(/a = 1, /b = 2)", "prog1(/a, /a = 5)", "prog2(1, 2, /c = 3)",
                                                "bound(/a) && /a == 1", "bound(/zz) || true", "andalso(false, /a = 9)", "orelse(true, /a = 9)", "quote(/a)", "gettimetag()", 'eval("/b = 6")', 'eval("/c += 1")', 'eval("/c ++, /d = 2")', 'eval(/s)', "typetags(/a)", "identity(/a)"]))
    if r < .97: return "assign(%s, %s)" % (a, e)
    if r < .985: return rng.choice(["settimetag(gettimetag() + 1)", "settimetag(gettimetag())", "/t = gettimetag()", "settimetag(/t)"])
    return rng.choice([e, "add(%s, 1)" % a, "/no = /such", "/a = /such + 1", "/a = nth(/a, 9)"])
def bundle(rng):
    b = []
    for a in rng.sample(NAMES, rng.choice([2, 4, 5, 6, 6, 6])):
        r = rng.random()
        b.append(msg(a, [I(rng.randrange(5))] if r < .35 else [I(rng.randrange(9)) for _ in range(rng.randint(1, 4))] if r < .65 else vals(rng, "ifdTFs", rng.randint(0, 3), val)))
    if rng.random() < .5: b.append(msg("/s", [A("s", enc(rng.choice(["/a", "/b", "/zz", "/a = 4", "/b"])))]))
    if rng.random() < .4: b.append(msg("/t", [val(rng, "t")]))
    return b
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceExpr", merged(c.behaviours("model", "GenExpr", env={"FAMILY": "stmt", "DEPTH": c.pick(2, 3)})))
    out = [ev(bundle(rng), stmt(rng)) for _ in range(c.pick(1500, 15000))]
    c.trace_check("one statement", "TraceExpr", pack(out))
    out = []
    for _ in range(c.pick(900, 9000)):
        ss = [stmt(rng) for _ in range(rng.randint(2, 6))]
        out.append(ev(bundle(rng), rng.choice([", ", ",", ",\n", " , "]).join(ss), rng.choice([TAG, [0] * 8, be(rng.getrandbits(31), 4) + be(1 << 31, 4)])))
    c.trace_check("several statements", "TraceExpr", pack(out))
    out = []
    for _ in range(c.pick(500, 5000)):       # by index
        n = rng.randint(1, 6)
        b = [msg("/l", vals(rng, rng.choice(["i", "ifs", "TFid"]), n, small)), msg("/v", vals(rng, "ids", rng.randint(1, 4), small)), msg("/i", [I(rng.randrange(n + 1)) for _ in range(rng.randint(1, 3))])]
        x, y = rng.randrange(n + 1), rng.randrange(n + 1)
        ix = rng.choice([str(x), "%d, %d" % (x, y), "%d : %d" % (x, y), "0 : 2 : %d" % n, "/i", " [%d, %d, 0] " % (x, y), "length(/l) - 1", "%d : -1 : 0" % (n - 1)])
        if rng.random() < .7: out.append(ev(b, "/l[[%s]] = %s" % (ix, rng.choice(["/v", "9", "'w'", "[7, 8]", "[7, 8, 9]", "/l", "/l[[0]]"]))))
        else: out.append(ev(b, "/r = /l[[%s]], /l[[0]] = /r" % (ix if ":" not in ix else "0")))
    c.trace_check("by index", "TraceExpr", pack(out))
    out = []
    for _ in range(c.pick(500, 5000)):       # about the bundle itself, through calls
        b = bundle(rng)
        n = gen.ser([msg(a, [I(rng.randrange(9))]) for a in rng.sample(["/a", "/b", "/x"], rng.randint(0, 3))])
        b.append(msg("/n", [A(".", n)] if rng.random() < .8 else [A(".", n), I(1)] if rng.random() < .5 else [I(3)]))
        if not any(m["a"] == enc("/s") for m in b): b.append(msg("/s", [A("s", enc(rng.choice(["/a", "/b", "/zz", "/n"])))] * rng.choice([1, 1, 2])))
        b.append(msg("/e", [A("s", enc(x)) for x in rng.choice([["/b", "=", "4"], ["/a += 1"], ["/a", "+=", "/zz"], ["/c", "=", "nth(/a, 77)"], ["/d = (", "3"], ["/d", "=", "3,", "/ab = 4"], []])]))
        q = lambda: rng.choice(["/n", "{}", "{/q : 1}", "/n.x", "/n./x", "/a", "/zz", "first(/s)", "list(\"/a\")", "list(\"/zz\", 1)", "first(/zz)", "value(\"/a\")", "value(/s)", "nth(/s, 9)", "/s", '"/a"', '"/zz"', "first(/n)", "3", "[]"])
        f = rng.choice(["emptybundle(%s)", "getaddresses(%s)", "exists(%s)", "bound(%s)", "bound(%s)", "exists(%s)", "getmsgcount(%s)", "value(%s)", "delete(%s)", "if(%s, 1, 2)", "eval(%s)", "quote(%s)", "identity(%s)", "bound(/n.%s)"])
        if f == "bound(/n.%s)": e = rng.choice(["bound(/n./x)", "exists(/n./x)", "bound(/a./x)", "exists(/zz./x)", "bound(/n./a)", "exists(/n./b)"])
        elif f == "eval(%s)": e = "eval(%s)" % rng.choice(["/e", "/e", "/e", "first(/zz)", "nth(/e, 9)", "first(/e)", "/zz", '"/a = 3"', '"/a = "', '"/a = nth(/b, 88)"', '"/c = 3, /d = /zz, /ab = 4"'])
        elif f == "value(%s)": e = "value(%s)" % rng.choice(["/s", '"/a"', "first(/s)", '"/zz"', "first(/zz)", "list(\"/b\")", "nth(/s, 9)"])
        elif f == "if(%s, 1, 2)": e = "if(%s, 1, 2)" % rng.choice(["first(/zz)", "/zz", "first(/a)", "nth(/a, 9)", "bound(/zz)", "exists(first(/s))", "bound(/n./x)"])
        elif f == "delete(%s)": e = "1" if rng.random() < .7 else 'delete("/a")'
        else: e = f % q()
        out.append(ev(b, e if e.startswith(("delete", "eval")) else "/r = " + e))
    c.trace_check("about the bundle", "TraceExpr", pack(out))
