"""P10: text, against spec/Text.tla."""
import gen
from gen import A, be, enc, f32, f64, i32
def merge(beh, n=60):
    out = []
    for b in beh:
        if not out or len(out[-1]) >= n: out.append([])
        out[-1] += b
    return out
def tag(rng):
    sec = rng.choice([rng.randrange(2**32), rng.randrange(1, 49710) * 86400 - rng.randrange(2), 2208988800, 2**32 - 1])
    return be(sec, 4) + be(rng.randrange(64) << 26, 4)
def text_string(rng):
    r = rng.random()
    if r < .5: return [rng.choice([34, 92, 97, 32, 44, 10, 9, 47, 39, 58, 91, 93, 123, 125, 35]) for _ in range(rng.randrange(9))]
    if r < .6: return [rng.randrange(1, 256) for _ in range(rng.randrange(20))]
    if r < .65: return [rng.choice([34, 92, 97]) for _ in range(rng.randrange(100, 300))]
    return enc(rng.choice(["", "a", "hello world", "true", "nil", "1", "/a", "\"", "\\", "\\\\", "\\\"", "\\n", "a\\", "{", "}", "[1, 2]", "/a : 1"]))
def address(rng):
    if rng.random() < .4: return gen.addr(rng)
    s = [rng.choice([97, 98, 47, 58, 44, 46, 34, 92, 91, 93, 123, 125, 42, 63, 39, 48, 200]) for _ in range(rng.randrange(1, 9))]
    return [47] + s + ([97] if s[-1] == 44 and rng.random() < .9 else [])
def atom(rng, depth):
    t = rng.choice("cCuUiIhHfdsssTFNtb...")
    if t == "." and depth <= 0: t = "s"
    if t in gen.INTS:
        bits, signed = gen.INTS[t]
        x = gen.num(rng, t)
        if bits >= 32 and rng.random() < .8: x = max(-2**31 if signed else 0, min(2**31 - 1, x))
        if bits == 8: x = rng.choice([39, 34, 92, 65, 32, 126, 1, 200 if t == "C" else -100])
        return A(t, be(x, max(4, bits // 8)))
    if t in "fd":
        x = rng.choice([0.0, -0.0, 1.0, -1.5, 1e6, 999999.0, 123456.5, 1e-5, -3.14159265, 1e30, rng.uniform(-10, 10), rng.uniform(-1e7, 1e7), rng.choice([1, -1]) * 10.0 ** rng.randrange(-30, 30)])
        return A(t, f32(x) if t == "f" else f64(x))
    if t == "s": return A(t, text_string(rng))
    if t == "t": return A(t, tag(rng))
    if t == "b": return A(t, [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 2, 5]))]) if rng.random() < .4 else A("T")
    if t == ".": return A(t, gen.ser(bundle(rng, depth - 1, rng.choice([0, 1, 2, 3]))))
    return A(t)
def bundle(rng, depth, n=None):
    n = rng.choice([0, 1, 2, 3, 4]) if n is None else n
    return [{"a": address(rng), "d": [atom(rng, depth) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]} for _ in range(n)]

WORDS = ["0", "1", "-1", "10", "-10", "2147483647", "-2147483648", "1.", "1.5", "-.5", ".5", "0.", "1e3", "1e-3", "-1.25E+2", "2.5f", "3.l", "1e+2F", "true", "false", "nil", "0x1", "0XfF", "0xdeadbeef",
         "0x0123456789", "0xFFFFFFFFFFFFFFFF", "'a'", "'''", "'\"'", "' '", "' \\'".replace(" ", ""), "\"\"", "\"a\"", "\"a b\"", "\"\\\"\"", "\"\\\\\"", "\"x\\\"y\\\\z\"", "\"\\a\\b\"", "\"a\nb\"", "\"/a : 1, {\"",
         "2020-02-29T12:34:56.015625Z", "1970-01-01T00:00:00Z", "1999-12-31T23:59:59", "2001-01-01T00:00:00+01:00", "2010-06-15T10:20:30.5-05:30"]
BADWORDS = ["00", "01", "-0", "--1", "+1", "1.2.3", "tru", "True", "nul", "abc", "1a", "''", "'ab'", "#", "!", "=", ";", "1 2", "\"a\"\"b\"", "\"a\" 1", "/", "/a#", "(", "-", ".", "e5", "1e", "0x", "'", "~"]
def value(rng, depth):
    r = rng.random()
    if depth > 0 and r < .2:
        if rng.random() < .2: return "{" + sp(rng) + "}"
        return "{" + sp(rng) + msgs(rng, depth - 1) + sp(rng, True) + "}"
    if r < .28: return "/" + "".join(rng.choice("abc/:{[.*") for _ in range(rng.randrange(1, 5))) + rng.choice(" \n\t")
    if r < .36: return str(rng.choice([1, -1]) * rng.randrange(1, 2**31))
    if r < .44: return "%s%d.%s%s" % (rng.choice(["", "-"]), rng.randrange(1000), "".join(rng.choice("0123456789") for _ in range(rng.randrange(8))), rng.choice(["", "", "e%d" % rng.randrange(-20, 20), "E+%d" % rng.randrange(9)]))
    return rng.choice(WORDS)
def sp(rng, need=False):
    s = "".join(rng.choice(" \n\t ") for _ in range(rng.choice([0, 1, 1, 2])))
    return s or (" " if need else "")
def msgs(rng, depth):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a = "/" + "".join(rng.choice("abc/:,]}.\"'*") for _ in range(rng.randrange(1, 5))) + "a"
        r = rng.random()
        if r < .25: m = a
        elif r < .65: m = a + sp(rng, True) + ":" + sp(rng) + value(rng, depth) + sp(rng)
        else:
            m = a + sp(rng, True) + ":" + sp(rng) + "[" + ",".join(sp(rng) + value(rng, depth) + sp(rng) for _ in range(rng.randrange(1, 5))) + "]" + sp(rng)
        out.append(m)
    # a message without arguments needs a space before a comma, or the comma at its very end
    return ("," + "\n").join(m if not m.endswith("a") else m + rng.choice(["", " "]) for m in out)
def text(rng):
    s = sp(rng) + msgs(rng, rng.choice([0, 1, 2])) + sp(rng)
    r = rng.random()
    if r < .15:
        k = rng.randrange(len(s))
        s = s[:k] + s[k + 1:]
    elif r < .3:
        k = rng.randrange(len(s) + 1)
        s = s[:k] + rng.choice([",", ":", "[", "]", "{", "}", "\"", "'", " ", "/a ", "1", "\\", "#"]) + s[k:]
    elif r < .36: s = s[:rng.randrange(len(s))]
    elif r < .42:
        w = rng.choice(BADWORDS)
        s = "/a : " + rng.choice([w, "[%s]" % w, "[1, %s]" % w, "{/b : %s}" % w])
    return s.encode("latin1")
def run(c):
    rng = c.rng
    c.trace_check("grammar", "TraceText", merge(c.behaviours("grammar", "GenText", env={"DEPTH": c.pick(8, 10)})))
    c.trace_check("inverse", "TraceText", merge(c.behaviours("inverse", "GenFmt", env={"DEPTH": c.pick(2, 3), "LEN": c.pick(3, 4)}), 20))
    size = lambda: rng.choice([0, 1, 2, 3, 5, 10, 20, rng.randrange(60), rng.randrange(200), 1000])
    c.trace_check("bundles", "TraceText", [[{"op": "fmt", "b": bundle(rng, rng.choice([0, 1, 2])), "n": size()} for _ in range(5)] for _ in range(c.pick(250, 3000))])
    every = []
    for _ in range(c.pick(12, 80)):
        b = bundle(rng, 2, rng.choice([1, 2]))
        every.append([{"op": "fmt", "b": b, "n": n} for n in range(0, c.pick(64, 200))])
    c.trace_check("every size", "TraceText", every)
    c.trace_check("texts", "TraceText", [[{"op": "read", "s": list(text(rng))} for _ in range(20)] for _ in range(c.pick(150, 2000))])
