"""Random scripts for the unserialised family and values shared by several checks."""
import struct
Z = [-1]
def enc(s): return [ord(c) for c in s]
def be(x, n): return list((x & ((1 << (8 * n)) - 1)).to_bytes(n, "big"))
def i32(x): return be(x, 4)
def f32(x): return list(struct.pack(">f", x))
def f64(x): return list(struct.pack(">d", x))
def pad(b): return b + [0] * (4 - len(b) % 4)

def A(t, v=()): return {"t": t, "v": list(v)}

def ser_atom(a):
    t, v = a["t"], a["v"]
    if t == "s": return pad(v)
    if t == "b": return i32(len(v)) + v + [0] * (-len(v) % 4)
    if t == ".": return i32(len(v)) + v
    return v
def ser_msg(m):
    b = pad(m["a"]) + pad(enc("," + "".join(a["t"] for a in m["d"])))
    for a in m["d"]: b = b + ser_atom(a)
    return i32(len(b)) + b
def ser(b, tt=(0,) * 8):
    """Serialised bytes to feed in; the expected encodings come from the specification."""
    o = enc("#bundle") + [0] + list(tt)
    for m in b: o += ser_msg(m)
    return o

INTS = {"c": (8, True), "C": (8, False), "u": (16, True), "U": (16, False), "i": (32, True), "I": (32, False), "h": (64, True), "H": (64, False)}
ALLT = "cCuUiIhHfdsTFNtb."
def num(rng, t):
    bits, signed = INTS[t]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    r = rng.random()
    x = rng.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1, hi // 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536]) if r < .5 else \
        rng.randint(-5, 40) if r < .7 else rng.randint(lo, hi)
    return x if lo <= x <= hi else lo + (x - lo) % (hi - lo + 1)
def string(rng, n=None, alpha=None):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 11]) if n is None else n
    return [rng.choice(alpha) if alpha else rng.choice([97, 98, 65, 48, 32, 44, 34, 39, 92, 47, 35, 200, 255, 9, 10, 46, 127]) for _ in range(n)]
def addr(rng, pool=None):
    return enc(rng.choice(pool or ["/a", "/b", "/c", "/a/b", "/a/c", "/ab", "/b/a/c", "/abc", "/abcd", "/a/b/cd/e"]))
def atom(rng, types=ALLT, depth=2, pool=None):
    t = rng.choice(types)
    if t == "." and depth <= 0: t = "i"
    if t in INTS:
        bits, _ = INTS[t]
        return A(t, be(num(rng, t), max(4, bits // 8)))
    if t == "f": return A(t, rng.choice([f32(rng.choice([0.0, -0.0, 1.5, -2.25, 1e30, float("inf"), float("-inf"), 3.14159])), [rng.randrange(256) for _ in range(2)] + [0, 1]]))
    if t == "d": return A(t, rng.choice([f64(rng.choice([0.0, -0.0, 1.5, -2.25, 1e300, float("inf"), float("-inf"), 3.14159])), f64(rng.uniform(-1e6, 1e6))]))
    if t == "s": return A(t, string(rng))
    if t == "t": return A(t, rng.choice([be(1, 8), be(0, 8), [rng.randrange(256) for _ in range(8)]]))
    if t == "b": return A(t, [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 9]))])
    if t == ".": return A(t, ser(bundle(rng, depth - 1, rng.choice([0, 1, 1, 2, 3]), pool=pool)))
    return A(t)
def message(rng, depth=2, n=None, types=ALLT, pool=None):
    n = rng.choice([0, 1, 1, 2, 3, 4, 5]) if n is None else n
    return {"a": addr(rng, pool), "d": [atom(rng, types, depth, pool) for _ in range(n)]}
def bundle(rng, depth=2, n=None, types=ALLT, pool=None):
    n = rng.choice([0, 1, 2, 3, 4]) if n is None else n
    return [message(rng, depth, types=types, pool=pool) for _ in range(n)]

QUERIES = ["/a", "/b", "/a/b", "/*", "/a*", "/?", "/{a,ab}", "/[ab]", "/a/*", "/zz", "/*/b", "/a/b/cd/e", "/[a", "/a]", "a", ""]
def op(rng, kinds, types=ALLT):
    """One random operation of the unserialised family."""
    k = rng.choice(kinds)
    M = lambda: rng.randrange(4) if rng.random() < .2 else rng.randrange(2)
    B = lambda: rng.randrange(4) if rng.random() < .2 else rng.randrange(2)
    pos = lambda: rng.randrange(6)
    ref = lambda: [M()] if not any(x.startswith("b_") for x in kinds) or rng.random() < .6 else [B(), pos()]
    if k == "m_new": return {"op": k, "m": M(), "a": addr(rng) if rng.random() < .92 else Z}
    if k == "m_with": return {"op": k, "m": M(), "a": addr(rng), "v": atom(rng, "fdistb")}
    if k == "m_setaddr": return {"op": k, "r": ref(), "a": addr(rng) if rng.random() < .8 else rng.choice([enc("x"), [], enc("nope/a"), Z])}
    if k == "m_add": return {"op": k, "r": ref(), "v": atom(rng, types), "w": rng.choice("aapi"), "pos": pos(), "alt": rng.randrange(4)}
    if k in ("m_rm", "m_neg"): return {"op": k, "r": ref(), "k": pos()}
    if k == "m_move": return {"op": k, "r": ref(), "k": pos(), "to": ref(), "w": rng.choice("apii"), "pos": pos()}
    if k == "m_set": return {"op": k, "r": ref(), "k": pos(), "v": atom(rng, types)}
    if k in ("m_clear", "m_look", "m_atoms"): return {"op": k, "r": ref()}
    if k == "m_dup": return {"op": k, "r": ref(), "to": M()}
    if k == "m_args": return {"op": k, "r": ref(), "to": ref()}
    if k == "m_free": return {"op": k, "m": M()}
    if k == "b_new": return {"op": k, "b": B()}
    if k == "b_add": return {"op": k, "b": B(), "m": M(), "how": rng.choice(["add", "nodup", "replace", "addcopy", "nodupcopy", "array"])}
    if k == "b_list":
        ms = [0, 1, 2, 3]; rng.shuffle(ms)
        return {"op": k, "b": B(), "ms": ms[:rng.randint(1, 3)]}
    if k == "b_take": return {"op": k, "b": B(), "k": pos(), "to": M()}
    if k == "b_rmaddr": return {"op": k, "b": B(), "a": addr(rng)}
    if k in ("b_clear", "b_free", "b_ser"): return {"op": k, "b": B()}
    if k == "b_copy": return {"op": k, "b": B(), "to": rng.randrange(4)}
    if k == "b_look": return {"op": k, "b": B(), "q": [enc(q) for q in rng.sample(QUERIES, 3)]}
    if k == "b_des": return {"op": k, "b": B(), "bytes": ser(bundle(rng, 1, types=types))}
    if k in ("b_union", "b_inter"): return {"op": k, "x": B(), "y": B(), "to": rng.randrange(4)}
    raise ValueError(k)

M_OPS = ["m_new", "m_add", "m_add", "m_add", "m_add", "m_rm", "m_move", "m_set", "m_neg", "m_clear", "m_dup", "m_args", "m_setaddr", "m_with", "m_free", "m_look", "m_atoms"]
B_OPS = ["m_new", "m_with", "m_with", "m_add", "m_add", "b_new", "b_add", "b_add", "b_add", "b_list", "b_take", "b_rmaddr", "b_copy", "b_look", "b_look",
         "b_des", "b_ser", "b_clear", "b_free", "m_rm", "m_setaddr", "m_dup", "m_move"]
def m_script(rng, n, types=ALLT):
    s = [{"op": "m_new", "m": i, "a": addr(rng)} for i in range(2)]
    s += [op(rng, M_OPS, types) for _ in range(n)]
    return s + [{"op": "m_look", "r": [i]} for i in range(4)] + [{"op": "m_atoms", "r": [i]} for i in range(2)]
def b_script(rng, n, types=ALLT):
    s = [{"op": "b_new", "b": 0}, {"op": "b_des", "b": 1, "bytes": ser(bundle(rng, 1, types=types))}]
    s += [op(rng, B_OPS, types) for _ in range(n)]
    return s + [x for i in range(2) for x in ({"op": "b_look", "b": i, "q": [enc(q) for q in rng.sample(QUERIES, 4)]}, {"op": "b_ser", "b": i})]

# ------------------------------------------------------------ serialised bundles
def sop(rng, kinds=None):
    k=rng.choice(kinds or ["s_load","s_empty","s_copy","s_look","s_look","s_append","s_append","s_replace","s_replace","s_remove","s_rename","s_wrap","s_settime","s_concat","s_set","s_set","s_free"])
    B=lambda:rng.randrange(4) if rng.random()<.2 else rng.randrange(2)
    tm=[rng.randrange(256) for _ in range(8)]
    if k=="s_load": return {"op":k,"b":B(),"bytes":ser(bundle(rng,1),tm)}
    if k in("s_empty","s_free"): return {"op":k,"b":B()}
    if k=="s_copy": return {"op":k,"b":B(),"to":rng.randrange(4)}
    if k=="s_look": return {"op":k,"b":B(),"q":[enc(q) for q in rng.sample(QUERIES,3)]}
    if k=="s_append": return {"op":k,"b":B(),"m":ser_msg(message(rng,1)),"how":rng.randrange(2)}
    if k=="s_replace": return {"op":k,"b":B(),"k":rng.randrange(6),"m":ser_msg(message(rng,1)),"extra":rng.choice([0,0,4,100])}
    if k=="s_remove": return {"op":k,"b":B(),"a":addr(rng)}
    if k=="s_rename": return {"op":k,"b":B(),"k":rng.randrange(6),"a":rng.choice([addr(rng),addr(rng),enc("/" + "x" * rng.randrange(9)),enc("x/y"),enc("/a b"),enc("/a#"),[]]),"to":B()}
    if k=="s_wrap": return {"op":k,"b":B(),"k":rng.randrange(6),"to":B(),"alloc":rng.randrange(2)}
    if k=="s_settime": return {"op":k,"b":B(),"t":tm}
    if k=="s_concat": return {"op":k,"x":B(),"y":B(),"to":rng.randrange(4)}
    if k=="s_set": return {"op":k,"what":rng.choice(["union","inter","diff"]),"x":B(),"y":B(),"to":rng.randrange(4),"pre":rng.randrange(2)}
S_EDIT = ["s_append", "s_append", "s_replace", "s_replace", "s_remove", "s_rename", "s_wrap", "s_settime", "s_copy", "s_load", "s_empty", "s_look", "s_free"]
def s_script(rng, n, kinds=None):
    s = [{"op": "s_load", "b": i, "bytes": ser(bundle(rng, 1), [rng.randrange(256) for _ in range(8)])} for i in range(2)]
    s += [sop(rng, kinds) for _ in range(n)]
    return s + [{"op": "s_look", "b": i, "q": [enc(q) for q in rng.sample(QUERIES, 2)]} for i in range(2)]
