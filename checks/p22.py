"""P22: nested bundles read and written by member, against spec/Expr.tla."""
from exprgen import *
import gen
AD = ["/a", "/b", "/c", "/x", "/y", "/z", "/a/b", "/xx"]
def inner(rng, d):
    """A bundle of depth d as messages."""
    out = []
    for a in rng.sample(AD, rng.choice([0, 1, 2, 2, 3, 4])):
        k = rng.choice([0, 1, 1, 1, 2, 3])
        v = []
        for _ in range(k):
            if d > 0 and rng.random() < .5: v.append(A(".", gen.ser(inner(rng, d - 1))))
            else: v.append(val(rng, rng.choice("iiidsTNhfb")))
        out.append({"a": enc(a), "d": v})
    return out
def addrs(b): return ["".join(map(chr, m["a"])) for m in b]
class G:
    def __init__(s, rng): s.rng, s.n = rng, 0
    def addr(s): return s.rng.choice(["/p", "/q", "/p", "/q", "/v", "/w", "/s"] if s.rng.random() < .85 else AD)
    def mem(s): return s.rng.choice(AD[:6] if s.rng.random() < .9 else AD)
    def member(s):
        m = s.mem()
        r = s.rng.random()
        return m if r < .8 else '"%s"' % m if r < .9 else s.rng.choice(["/s", "value(/s)", "value(\"/s\")", '"/" + "a"', "first(list(\"%s\", 3))" % m])
    def term(s, d):
        """something that has a value"""
        rng = s.rng
        s.n += 1
        r = rng.random()
        if d <= 0 or s.n > 40 or r < .2: return rng.choice([str(rng.randint(0, 99)), '"t%d"' % rng.randint(0, 9), "/v", "/w", "1.5", "[1, 2, 3]", s.addr(), "true", "nil", "[]" if rng.random() < .3 else "/v"])
        if r < .4: return s.bundle(d - 1)
        if r < .52: return "%s.%s" % (s.addr(), s.mem())
        if r < .72: return s.get(d)
        if r < .78: return "[%s]" % ", ".join(s.term(d - 1) for _ in range(rng.randint(1, 3)))
        if r < .82: return rng.choice(["getaddresses(%s)", "emptybundle(%s)", "length(%s)", "first(%s)", "bound(%s)", "exists(%s)", "last(%s)"]) % s.get(d)
        if r < .87: return "(%s + %s)" % (s.get(d - 1), rng.randint(0, 9))
        if r < .9: return "(/t = %s)" % s.term(d - 1)
        if r < .93: return "(%s.%s = %s)" % (s.addr(), s.mem(), s.term(d - 1))
        if r < .96: return "%s(%s.%s)" % (rng.choice(["exists", "bound"]), s.addr(), s.mem())
        if r < .98:
            p = rng.choice("xb")
            return "%s(lambda(%s, %s), %s)" % (rng.choice(["apply", "map"]), rng.choice([p, "[%s]" % p]), rng.choice(["%s.%s" % (p, s.mem()), "getbundlemember(%s, %s)" % (p, s.member()), "{%s : %s, %s : %s.%s}" % (s.mem(), p, s.mem(), p, s.mem()), "/t = %s, /t.%s" % (p, s.mem())]), rng.choice([s.addr(), s.get(d - 1), s.bundle(d - 1)]))
        return "nth(%s, %s)" % (s.addr(), rng.randint(0, 2))
    def bundle(s, d):
        rng = s.rng
        if rng.random() < .06: return "{}"
        ms = [s.mem() for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        if rng.random() < .2: return "bundle(%s)" % ", ".join('"%s", %s' % (m, s.term(d)) for m in ms)
        return "{%s}" % ", ".join("%s : %s" % (m, s.term(d)) for m in ms)
    def get(s, d):
        rng = s.rng
        r = rng.random()
        if d <= 0 or r < .25: o = s.addr()
        elif r < .6: o = s.get(d - 1)
        elif r < .75: o = s.bundle(d - 1)
        elif r < .9: o = "nth(%s, %d)" % (s.addr(), rng.randint(0, 2))
        else: o = rng.choice(['"%s"' % s.addr(), "/s", "/n", "value(\"/p\")", "last(%s)" % s.addr(), "/l"])
        return "getbundlemember(%s, %s)" % (o, s.member())
    def stmt(s, d):
        rng = s.rng
        s.n = 0
        r = rng.random()
        if r < .3: return "%s.%s = %s" % (s.addr(), s.mem(), s.term(d))
        if r < .4: return "assigntobundlemember(%s, %s, %s)" % (rng.choice([s.addr(), "nth(%s, %d)" % (s.addr(), rng.randint(0, 2))]), s.member(), s.term(d))
        if r < .65: return "%s = %s" % (s.addr(), s.bundle(d))
        if r < .75: return "%s = %s" % (s.addr(), s.addr())
        if r < .85: return "%s = %s" % (s.addr(), s.get(d))
        if r < .9: return "%s[[%d]] = %s" % (s.addr(), rng.randint(0, 2), s.term(d))
        if r < .93: return "delete(%s)" % s.addr()
        return "%s = %s" % (s.addr(), s.term(d))
def outer(rng):
    b = [msg("/p", [A(".", gen.ser(inner(rng, rng.randint(0, 2)))) for _ in range(rng.choice([1, 1, 1, 2, 3]))]), msg("/q", [A(".", gen.ser(inner(rng, 1)))] if rng.random() < .8 else [val(rng, rng.choice("ids"))]),
         msg("/v", [val(rng, "i")]), msg("/w", vals(rng, "idsT", rng.randint(0, 3))), msg("/s", [A("s", enc(rng.choice(AD + ["/p", "/q"])))]), msg("/n", [A("s", enc("/p"))]),
         msg("/l", [val(rng, "i"), A(".", gen.ser(inner(rng, 1))), val(rng, "s")])]
    rng.shuffle(b)
    return b if rng.random() < .8 else b[:rng.randint(0, 5)]
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceExpr", merged(c.behaviours("model", "GenExpr", env={"FAMILY": "member", "DEPTH": c.pick(2, 3)})))
    out = []
    # a copy is its own: change one of two bundles that were made equal, by every way of changing
    for _ in range(c.pick(500, 5000)):
        g = G(rng)
        b = inner(rng, 2)
        while not b: b = inner(rng, 2)
        m = rng.choice(addrs(b))
        t = rng.choice(["/q = /p, /q.{m} = {t}", "/q = /p, /p.{m} = {t}", "/q = /p.{m}, /p.{m} = {t}", "/q = {{/i : /p, /j : /p}}, /p.{m} = {t}", "/q = {{/i : /p}}, /q./i = 3", "/q = [/p, /p], assigntobundlemember(nth(/q, 0), {m}, {t})",
                        "/q = [/p, /p], assigntobundlemember(nth(/q, 1), {m}, {t})", "/q = {{/i : /p}}, /q./j = /p, /p.{m} = {t}, /z = getbundlemember(getbundlemember(/q, /i), {m})", "/p.{m} = /p, /p.{o} = {t}, /z = getbundlemember(getbundlemember(/p, {m}), {o})",
                        "/q = /p, /q.{o} = /p, /q.{o} = {t}, /z = /q.{m}", "/q = apply(lambda([x], /p.{m} = {t}, identity(x)), /p)", "/p.{m} = {t}, /p.{m} = {u}, /p.{o} = /p.{m}", "/v = /p.{m}, /v = {t}, /z = /p.{m}", "/z = [/p.{m}, (/p.{m} = {t}), /p.{m}]",
                        "/q = map(lambda([x], getbundlemember(x, {m})), [/p, /p]), /p.{m} = {t}"]).format(m=m, o=rng.choice(AD), t=g.term(1), u=g.term(1))
        out.append(ev([msg("/p", [A(".", gen.ser(b))]), msg("/v", [val(rng, "i")]), msg("/w", vals(rng, "is", 2)), msg("/s", [A("s", enc(m))])], t))
    c.trace_check("copies", "TraceExpr", pack(out))
    out = []
    for _ in range(c.pick(2500, 25000)):
        g = G(rng)
        out.append(ev(outer(rng), ", ".join(g.stmt(rng.choice([1, 2, 2, 3])) for _ in range(rng.randint(1, 6)))))
    c.trace_check("programs", "TraceExpr", pack(out))
    out = []
    # deep paths: built by nested literals, by members of members, and read back level by level
    for _ in range(c.pick(400, 4000)):
        path = [rng.choice(AD) for _ in range(rng.randint(1, 6))]
        lit_ = "/v"
        for a in reversed(path): lit_ = "{%s%s : %s%s}" % ("%s : %d, " % (rng.choice(AD), rng.randint(0, 9)) if rng.random() < .3 else "", a, lit_, ", %s : \"z\"" % rng.choice(AD) if rng.random() < .3 else "")
        def rd(p): return "/p" if not p else "getbundlemember(%s, %s)" % (rd(p[:-1]), p[-1])
        k = rng.randint(0, len(path))
        st = ["/p = " + lit_, "/q = " + rd(path[:k]), "/z = " + rd(path)]
        if rng.random() < .5: st += ["/q.%s = %s" % (rng.choice(path), rng.choice(["/p", "7", "/q", "{/n : /q}"])), "/z = " + rd(path[:rng.randint(0, len(path))])]
        if rng.random() < .3: st += ["/p.%s = %s" % (path[0], rd(path[:2])), "/y = " + rd(path[:1] + path[2:])]
        if rng.random() < .3: st += ["/q = [%s, exists(%s), bound(%s)]" % (rd(path), rd(path), rd(path[:1] + ["/nope"]))]
        out.append(ev([msg("/v", vals(rng, "idsTN", rng.randint(0, 3)))], ", ".join(st)))
    c.trace_check("paths", "TraceExpr", pack(out))
