"""P23: reading expressions, against spec/ExprSyn.tla through spec/Expr.tla."""
from exprgen import *
import os, re
SYN = open(os.path.join(os.path.dirname(__file__), "..", "spec", "ExprSyn.tla")).read()
BIN = ["+", "-", "*", "/", "%", "^", "<", "<=", ">", ">=", "==", "!=", "&", "|", "&&", "||"]
NAMES = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne", "&": "and", "|": "or", "^": "pow", "&&": "andalso", "||": "orelse"}
ENV = [msg("/a", [A("i", be(7, 4))]), msg("/b", [A("i", be(-3, 4))]), msg("/c", [A("d", f64(2.5))]), msg("/d", [A("i", be(2, 4))]), msg("/t", [A("T")]), msg("/f", [A("F")]),
       msg("/l", [A("i", be(v, 4)) for v in (1, 2, 3)]), msg("/s", [A("s", enc("ab"))])]
def sp(rng): return rng.choice(["", "", " ", " ", "  ", "\t", "\n"])
def glue(rng, toks):
    """Tokens with white space where it may and where it must stand."""
    out = ""
    for t in toks:
        need = out and ((out[-1].isalnum() or out[-1] in "_./#'\"*?[]{},") and (t[0].isalnum() or t[0] in "_./'\"*?[{")) or (out and out[-1] in "+-*/%^<>=!&|?:.[]" and t[0] in "+-*/%^<>=!&|?:.[]0123456789")
        # an address takes in everything up to a character that can not stand in it
        if out and "/" in out.split(" ")[-1] and t[0] not in " ,()": need = True
        out += (sp(rng) or (" " if need or rng.random() < .5 else "")) + t
    return out
def atom(rng):
    r = rng.random()
    if r < .45: return [rng.choice(["/a", "/b", "/c", "/d", "/t", "/f", "/l"])]
    if r < .8: return [str(rng.randrange(10))]
    if r < .9: return [rng.choice(["2.5", "0.5", "true", "false", "1e1", "0x1f", "'q'", "nil"])]
    return ["[", "1", ",", str(rng.randrange(5)), "]"]
def expr(rng, d):
    if d == 0: return atom(rng)
    r = rng.random()
    sub = lambda: expr(rng, rng.randrange(d))
    if r < .6: return sub() + [rng.choice(BIN)] + sub()
    if r < .7: return ["("] + sub() + [rng.choice(BIN)] + sub() + [")"]
    if r < .76: return [rng.choice(["-", "!"])] + sub()
    if r < .84: return sub() + ["?"] + sub() + [":"] + sub()
    if r < .9: return [rng.choice(["add", "max", "list", "reverse", "length"]), "("] + sub() + [")"]
    if r < .93: return ["(", "("] + sub() + [rng.choice(BIN)] + sub() + [")", ")"]
    if r < .96: return ["/l", "[["] + sub() + ["]]"]
    return ["["] + sub() + [","] + sub() + ["]"]
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceExpr", merged(c.behaviours("model", "GenExpr", env={"FAMILY": "tree", "DEPTH": 2, "UNARY": c.pick(1, 2)})))
    if c.pick(0, 1): c.trace_check("longer chains", "TraceExpr", merged(c.behaviours("longer chains", "GenExpr", env={"FAMILY": "tree", "DEPTH": 3})))
    pairs = []
    for x in BIN + ["?"]:                 # every pair of operators next to each other, in both orders
        for y in BIN + ["?"]:
            for z in [None] + ([rng.choice(BIN)] if c.pick(0, 1) else []):
                def o(s): return [s] if s != "?" else ["?", rng.choice(["1", "/a", "/c"]), ":"]
                one = rng.random() < .5
                a = [rng.choice(["/t", "/f", "true", "false"]) if "&&" in (x, y) or "||" in (x, y) else rng.choice(["/a", "/b", "/c", "5", "3", "2", "1"]) for _ in range(4)]
                pairs.append(ev(ENV, "/r = " + glue(rng, [a[0]] + o(x) + [a[1]] + o(y) + [a[2]] + (o(z) + [a[3]] if z else []))))
        for u in ("-", "!"):
            pairs.append(ev(ENV, "/r = " + glue(rng, [u, "/a"] + ([x, "/d"] if x != "?" else ["?", "1", ":", "2"]))))
            if x != "?": pairs.append(ev(ENV, "/r = " + glue(rng, ["/a", x, u, "/d"])))
    c.trace_check("pairs of operators", "TraceExpr", pack(pairs))
    out = []
    for _ in range(c.pick(1100, 12000)):
        out.append(ev(ENV, "/r = " + glue(rng, expr(rng, rng.randint(1, 5)))))
    c.trace_check("random trees", "TraceExpr", pack(out))
    out = []
    words = BIN + ["(", ")", "[", "]", "[[", "]]", "{", "}", ",", "?", ":", "=", "+=", "-=", "++", "--", "??", "??=", ".", "/a", "/b", "/c", "/r", "1", "2.5", "true", "nil", "'a'", "add", "foo", "lambda", "max", "x", "!", "-", "if", "pi", "0x", "1e", "/", "/*", "@", "#", "/a/b", "[1, 2]", "/l", "first", "'it'", "\"q\"", "$", "~", "`/a`", "1.", ".5"]
    for _ in range(c.pick(1400, 14000)):
        r = rng.random()
        if r < .4: t = glue(rng, [rng.choice(words) for _ in range(rng.randint(1, 7))])
        else:                              # a good text with one token removed, added or changed
            toks = ["/r", "="] + expr(rng, rng.randint(1, 3))
            k = rng.randrange(len(toks))
            q = rng.random()
            if q < .3: del toks[k]
            elif q < .6: toks.insert(k, rng.choice(words))
            elif q < .9: toks[k] = rng.choice(words)
            t = glue(rng, toks) if rng.random() < .8 else "".join(toks)
        out.append(ev(ENV, t))
    c.trace_check("arbitrary texts", "TraceExpr", pack(out))
    out = []
    def nice(d):                           # the same tree as prefix calls, so that reading is compared with reading
        if d == 0: a = rng.choice(["/a", "/b", "/c", "4", "2", "1.5"]); return a, a
        o = rng.choice(["+", "-", "*", "/", "%", "<", "=="])
        x, y = nice(rng.randrange(d)), nice(rng.randrange(d))
        return "(%s %s %s)" % (x[0], o, y[0]), "%s(%s, %s)" % (NAMES[o], x[1], y[1])
    for _ in range(c.pick(250, 2500)):
        x, y = nice(rng.randint(1, 4))
        if x[0] != "(": continue
        out.append(ev(ENV, "/r = %s, /q = %s" % (x, y)))
    c.trace_check("infix and prefix", "TraceExpr", pack(out))
    out = []
    names = sorted(set(re.findall(r'"([a-z][a-z0-9_]*)"', SYN[SYN.index("F2 =="):SYN.index("Known(s)")])) - {"y", "n"})
    for f in names + ["nosuch"]:           # every function with any number of arguments
        for n in range(7):
            for _ in range(c.pick(1, 6)):
                kind = rng.choice(["n", "n", "l", "s", "m"])
                pool = {"n": ["1", "2", "/a", "/c", "0"], "l": ["/l", "[3, 4]", "1"], "s": ["'ab'", "/s", "/nop"], "m": ["/a", "'b'", "/l", "/t", "1.5", "add", "/g", "nil", "/e"]}[kind]
                out.append(ev(ENV + [msg("/g", [A(".", gen.ser([{"a": enc("/p"), "d": [A("i", be(4, 4))]}]))]), msg("/e", [])],
                              "/r = %s(%s)" % (f, ", ".join(rng.choice(pool) for _ in range(n)))))
    c.trace_check("number of arguments", "TraceExpr", pack(out))
