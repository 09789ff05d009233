"""P01: address pattern matching against spec/Match.tla."""
import itertools
def enc(s): return [ord(c) for c in s]

def structured(rng, alpha="abc"):
    """A pattern generalised from an address, and the address (possibly disturbed)."""
    def seg(n):
        return "".join(rng.choice(alpha) for _ in range(n))
    ns = rng.randint(1, 4)
    a, p = "", ""
    for _ in range(ns):
        s = seg(rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))
        a += "/" + (s if rng.random() > .06 else "*")
        q, i = "", 0
        while i < len(s):
            r = rng.random()
            if r < .4: q += s[i]; i += 1
            elif r < .5: q += "?"; i += 1
            elif r < .65:
                k = rng.randint(0, len(s) - i); q += "*" * rng.choice([1, 1, 2]); i += k
            elif r < .82:
                c = s[i]; i += 1
                m = [c] + [rng.choice(alpha + "-]z!") for _ in range(rng.randint(0, 2))]
                rng.shuffle(m)
                m = "".join(m)
                if rng.random() < .4:
                    lo, hi = sorted([c, rng.choice(alpha)])
                    if rng.random() < .3: lo, hi = hi, lo
                    m = rng.choice(["", "x"]) + lo + "-" + hi + rng.choice(["", "q", "-"])
                if rng.random() < .25: m = "!" + rng.choice(["", "]"]) + "".join(rng.choice("xyz") for _ in range(rng.randint(1, 2)))
                # a ']' is a member only in first place
                neg = m.startswith("!")
                b = m[1:] if neg else m
                if "]" in b: b = "]" + b.replace("]", "")
                q += "[" + ("!" if neg else "") + b + "]"
            else:
                k = rng.randint(1, min(3, len(s) - i)); w = s[i:i + k]; i += k
                alts = [w] + [seg(rng.randint(1, 3)) for _ in range(rng.randint(0, 3))]
                if rng.random() < .3 and k > 1: alts.append(w[:-1])
                rng.shuffle(alts)
                q += "{" + ",".join(alts) + "}"
        if rng.random() < .1: q += "*"
        p += "/" + q
    r = rng.random()
    if r < .12: a += "/" + seg(2)
    elif r < .24: p += "/" + rng.choice([seg(2), "*", "?", "{a,b}", ""])
    elif r < .34 and len(a) > 1:
        k = rng.randrange(1, len(a)); a = a[:k] + rng.choice(alpha) + a[k + 1:]
    elif r < .40 and len(a) > 1: a = a[:-1]
    elif r < .44:
        k = rng.randrange(len(p) + 1); p = p[:k] + rng.choice("[]{}*?/,-!") + p[k:]
    elif r < .46: a = a[1:]
    elif r < .48: p = p[1:]
    return p, a

def run(c):
    body = c.pick(4, 5)
    alpha = "/ab*?[]{,!-}" if True else ""
    # 1. every pattern up to the bound over the meta alphabet, against every short address
    addrs = ["", "a", "/"]
    al2 = "/ab"
    for n in range(0, c.pick(4, 5)):
        addrs += ["/" + "".join(t) for t in itertools.product(al2, repeat=n)]
    addrs += ["/*", "/a/*", "/*/b", "/-", "/]", "/a]", "/a-", "/!", "/,"]
    pats = [""]
    small = "/a*?[]{,}!-b"
    def count(n): return ["/" + "".join(t) for t in itertools.product(small, repeat=n)]
    lim = c.pick(3, 4)
    for n in range(0, lim + 1):
        pats += count(n)
    # longer patterns over reduced alphabets, each exercising one construct exhaustively
    for al, n in (("a*?b", c.pick(5, 6)), ("/a*", c.pick(6, 8)), ("a{,}b", 5), ("[]ab!-", 5), ("*{a,}", 5), ("[a]*b", 5)):
        for t in itertools.product(al, repeat=n):
            pats.append("/" + "".join(t))
    pats = list(dict.fromkeys(pats))
    addrs = list(dict.fromkeys(addrs))
    batch = 150
    scripts = []
    head = {"op": "addrs", "as": [enc(a) for a in addrs]}
    for i in range(0, len(pats), batch):
        scripts.append([head] + [{"op": "matchall", "p": enc(p)} for p in pats[i:i + batch]])
    c.trace_check("exhaustive", "TraceMatch", scripts)
    c.add("exhaustive", patterns=len(pats), addresses=len(addrs), pairs=len(pats) * len(addrs))
    # 2. random structured pairs
    n = c.pick(20000, 200000)
    pairs = set()
    while len(pairs) < n:
        pairs.add(structured(c.rng, c.rng.choice(["ab", "abc", "a", "abcdefxyz-!]"])))
    pairs = sorted(pairs)
    c.rng.shuffle(pairs)
    scripts = [[{"op": "match", "p": enc(p), "a": enc(a)} for p, a in pairs[i:i + 50]] for i in range(0, len(pairs), 50)]
    c.trace_check("random", "TraceMatch", scripts)
    # 3. long inputs: backtracking depth, and the capacity limit reported as an error
    longs = []
    for k in (10, 30, 60, 100):
        longs += [("/" + "*a" * 2 + "b", "/" + "a" * k), ("/*" + "a" * 5, "/" + "a" * k), ("/*b*c*", "/" + "b" * k + "c"),
                  ("/*[b-c]", "/" + "b" * k), ("/*{ab,b}", "/" + "b" * k)]
    longs += [("/*b", "/" + "a" * k + "b") for k in (300, 890, 1010, 1200)] + [("/*", "/" + "a" * 1500), ("/" + "a" * 700, "/" + "a" * 700)]
    scripts = [[{"op": "match", "p": enc(p), "a": enc(a)}] for p, a in longs]
    c.trace_check("long", "TraceMatch", scripts)
    c.cov["exhaustive"] = False
