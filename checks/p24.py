"""P24: the byte-by-byte packet checker against spec/Serial.tla."""
from gen import enc, ser, ser_msg, atom, be, A
def run(c):
    rng = c.rng
    c.trace_check("model", "TraceSerial", pack([x[0] for x in c.behaviours("model", "GenSerial", env={"MSGS": c.pick(2, 3)})]))
    def address():
        out = "/"
        for _ in range(rng.randint(0, 8)):
            r = rng.random()
            out += rng.choice("abcxyz019/") if r < .6 else rng.choice(["*", "?", "{a,b,cd}", "{ab}", "[a-z]", "[a-z0-9]", "[!abc]", "{a-b}", "[a,b,,c]", "{x,y}{z,w}", "-", ",", "#", "{a,,b}", "[a--b]", "[[a]", "{*}", "[?]", "{", "}", "[", "]"]) if r < .7 else \
                rng.choice(["{a,b,cd}", "[a-z0-9]", "*", "[!a-c-]", "{aa,bb,cc,dd}"])
        return out
    def msg():
        return {"a": enc(address() if rng.random() < .4 else "/" + "abcdefg"[:rng.randint(0, 7)]),
                "d": [atom(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5]))] + ([A("s", [97] * rng.choice([100, 200, 250, 260, 500, 1000, 40000 if rng.random() < .1 else 300]))] if rng.random() < .15 else [])}
    out = []
    for _ in range(c.pick(3000, 30000)):
        b = ser([msg() for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))], [rng.choice([0, 0, 1, 47, 128, 255]) for _ in range(8)]) if rng.random() < .75 else ser_msg(msg())[4:]
        r = rng.random()
        if r < .35 and b:
            for _ in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(b))
                b[i] = rng.choice([0, 1, 4, 8, 12, 44, 47, 97, 105, 115, 120, 128, 255, (b[i] + 4) % 256, (b[i] - 4) % 256, rng.randrange(256)])
        elif r < .45: b = b[:rng.randrange(len(b) + 1)]
        elif r < .5: b = b + [rng.randrange(256) for _ in range(rng.randint(1, 9))]
        out.append({"op": "serial", "b": b})
    c.trace_check("random", "TraceSerial", pack(out))
    # sizes whose bytes are all in use
    out = []
    for n in [100, 111, 112, 115, 116, 119, 120, 123, 124, 127, 128, 236, 239, 240, 243, 244, 247, 248, 251, 252, 255, 256, 500, 507, 508, 511, 512, 1000, 65000, 65515, 65516, 65520, 65523, 65524, 65527, 65528, 65532, 65536, 70000]:
        m = {"a": enc("/big"), "d": [A("s", [97] * n)]}
        if n < 2000 or c.pick(0, 1): out.append({"op": "serial", "b": ser([m, {"a": enc("/x"), "d": []}, {"a": enc("/y"), "d": [A("i", [0, 0, 0, 47])]}])})
    c.trace_check("sizes", "TraceSerial", [[o] for o in out])
def pack(ops, n=40): return [ops[i:i + n] for i in range(0, len(ops), n)]
