"""C08 round trips, C09 malformed input.  Wire.tla holds the byte formats; MCWire checks the
grammar and enumerates the damages, which are applied to bytes of the real serializers."""
from lib.iface import *  # noqa
from . import access
from .access import design, behaviours  # noqa
from . import ifaces

SIZES = {"toy": {"sc": 8, "g2": 8, "g3": 8, "gt": 8, "u32": 4}, "bls": {"sc": 32, "g2": 48, "g3": 96, "gt": 288, "u32": 4}}
R_BLS = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
P_BLS = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
ENGINE = ("msk", "mpk", "mdk", "msg", "key", "ct")


def size(q, t):
    return t if THOROUGH else q


def layout(kind, n, c):
    """sections <name, kind, count> as in Wire.tla"""
    return {"msk": [("n", "count", n), ("t", "sc", n), ("y", "sc", 1)],
            "mpk": [("n", "count", n), ("t", "g2", n), ("y", "gt", 1)],
            "mdk": [("n", "count", n), ("t", "g3", n)],
            "msg": [("m", "gt", 1)],
            "key": [("n", "count", n), ("d", "g3", n), ("rows", "count", n), ("cols", "count", c), ("rho", "u32", n), ("M", "sc", n * c)],
            "ct": [("n", "count", n), ("gamma", "u32", n), ("n2", "count", n), ("e", "g2", n), ("f", "gt", 1)]}[kind]


class Fmt:
    def __init__(self, backend, r):
        self.b = "bls" if backend == "bls" else "toy"
        self.es = SIZES[self.b]
        self.r = r

    def sec(self, s):
        return 4 if s[1] == "count" else s[2] * self.es[s[1]]

    def offsets(self, l):
        o, out = 0, []
        for s in l:
            out.append(o)
            o += self.sec(s)
        return out, o

    def bad(self, kind):
        """no encoding of an element of this kind"""
        n, r = self.es[kind], self.r
        if self.b == "toy":
            return r.choice([32749, 32750, 1 << 16, 1 << 32, 1 << 63, (1 << 64) - 1, r.randrange(32749, 1 << 64)]).to_bytes(8, "big")
        if kind == "sc":
            return r.choice([R_BLS, R_BLS + 1, R_BLS | 1 << 255, (1 << 256) - 1, r.randrange(R_BLS, 1 << 256)]).to_bytes(32, "little")
        x = r.choice([0, P_BLS, P_BLS - 1, 5, 7, r.getrandbits(380)])
        b = bytearray(x.to_bytes(48, "big") + bytes(r.randrange(1, 26) if r.random() < 0.5 else 0 for _ in range(n - 48)))
        if kind == "gt":
            return bytes([255]) * n if r.random() < 0.2 else bytes([26] + [255] * 47) + bytes(b[48:]) if r.random() < 0.3 else bytes(r.randrange(26) if i % 48 == 0 else r.randrange(256) for i in range(n))
        b[0] = (b[0] & 31) | r.choice([0x00, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xe0, 0xe0])
        if b[0] & 0xc0 == 0x80 and n == 96:
            b[48 + r.randrange(48)] |= 1 << r.randrange(8)
        return bytes(b)

    def null(self, kind, b):
        """the neutral element (of the target group of BLS12-381 another: no encoding of its neutral element is known here)"""
        if self.b == "toy" or kind == "sc":
            return bytes(len(b))
        return b if kind == "gt" else NULL[kind]

    def apply(self, b, l, d):
        """one damage of MCWire on bytes laid out as l"""
        r = self.r
        offs, _ = self.offsets(l)
        what, i, x = d[0], d[1] - 1, d[2]
        o, z = offs[i], self.sec(l[i])
        e = 4 if l[i][1] == "count" else self.es[l[i][1]]
        if what == "cut":
            return b[:o + {"start": 0, "in": 1, "mid": z // 2, "last": max(z - 1, 0)}[x]]
        if what == "count":
            v = l[i][2]
            w = {"zero": 0, "less": v - 1 if v else 7, "more": v + 1, "double": 2 * v + 2, "max": 0xffffffff,
                 "top": 1 << 31, "half": 1 << 28, "wrap": (1 << 30) + v}[x]
            return (b[:o] + w.to_bytes(4, "big") + b[o + 4:])[:max(len(b), 0)] if len(b) >= o + 4 else b
        if what == "elem":
            at = o + (z - e if x == "last" else 0)
            if len(b) < at + e:
                return b
            if x == "sign":       # one bit of a genuine element
                j, m = at + r.randrange(e), 1 << r.randrange(8)
                return b[:j] + bytes([b[j] ^ m]) + b[j + 1:]
            return b[:at] + self.bad(l[i][1]) + b[at + e:]
        if what == "null":
            at = o + e * {"first": 0, "mid": l[i][2] // 2, "last": l[i][2] - 1}[x]
            return b[:at] + self.null(l[i][1], b[at:at + e]) + b[at + e:] if len(b) >= at + e else b
        if what == "num":
            at = o + (z - e if x == "repeat" else 0)
            v = b[o:o + 4] if x == "repeat" else {"zero": 0, "max": 0xffffffff, "far": 1000}[x].to_bytes(4, "big")
            return b[:at] + v + b[at + e:] if len(b) >= at + e else b
        if what == "drop":
            return b[:o] + b[o + e:]
        if what == "dup":
            return b[:o + e] + b[o:]
        if what == "swap":
            return b[:o] + b[o:o + z][::-1] + b[o + z:]
        if what == "tail":
            return b + (b"\0" if x == "one" else b)
        raise ToolError(what)

    def elements(self, kind, n, c, b):
        l = layout(kind, n, c)
        offs, _ = self.offsets(l)
        for s, o in zip(l, offs):
            if s[1] in ("g2", "g3", "gt"):
                for j in range(s[2]):
                    yield s[1], b[o + j * self.es[s[1]]:o + (j + 1) * self.es[s[1]]]


def grown(n, c):
    """an access policy with n leaves and c columns (c-1 conjunctions)"""
    ls = [A("F", "a%d" % i) for i in range(n)]
    if n > 60:
        return ["chain", ["and" if i < c else "or" for i in range(1, n)], ls]
    f = attr(ls[0])
    for i, a in enumerate(ls[1:], 1):
        f = ["and" if i < c else "or", attr(a), f]
    return f


def scene(n, cols, prefix=""):
    """commands making every kind of object of n elements"""
    p = prefix
    h = [{"op": "policy", "p": p + "p", "max": n}]
    if n:
        h.append({"op": "axis", "p": p + "p", "name": "F", "attrs": ["a%d" % i for i in range(n)], "hier": False})
    h.append({"op": "master", "p": p + "p", "m": p + "m"})
    h.append({"op": "msg", "g": p + "g"})
    for c in cols:
        if n and c <= n:
            h.append({"op": "ukey", "p": p + "p", "m": p + "m", "k": p + "k%d" % c, "ap": grown(n, c)})
    h.append({"op": "encrypt", "p": p + "p", "m": p + "m", "c": p + "c", "g": p + "g", "attrs": [A("F", "a%d" % i) for i in range(n)]})
    return h


def get(kind, id):
    return {"op": "bytes", "kind": kind, "id": id}


def genuine(backend, shapes, cols):
    """{(kind, n, c): bytes}"""
    hs, want = [], []
    for n in shapes:
        objs = [("msk", 1, "m"), ("mpk", 1, "m"), ("mdk", 1, "m"), ("ct", 1, "c"), ("msg", 1, "g")]
        objs += [("key", c, "k%d" % c) for c in cols if n and c <= n]
        hs.append(scene(n, cols) + [get(k, i) for k, _, i in objs])
        want.append([(k, n, c) for k, c, _ in objs])
    out = {}
    for h, w, rs in zip(hs, want, run_histories(hs, backend)):
        for c, x in zip(h, rs):
            if x["res"] != "ok":
                raise ToolError("%s gave %s" % (c, x))
        for key, x in zip(w, rs[-len(w):]):
            b = bytes.fromhex(x["hex"])
            # a creation budget of n makes master keys of some more components
            k = key[0]
            out[(k, 1 if k == "msg" else int.from_bytes(b[:4], "big"), key[2])] = b
    return out


def ints(b):
    return list(b)


def judge(ck, backend, ev, info, name, pool=(), keep=lambda e: True):
    """events -> violations; info[i]: what to say about event i"""
    path = os.path.join(scratch("traces"), name + "-pool.ndjson")
    write_ndjson(path, [{"k": k, "b": ints(b)} for k, b in sorted(set(pool))] or [{"k": "none", "b": []}])
    rej, r = complete("WireTrace", "WireTraceBls.cfg" if backend == "bls" else "WireTraceToy.cfg", ev, name, env={"POOL": path})
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.add("traces_validated_against_impl", len(ev))
    for x in rej:
        e = ev[x["line"] - 1]
        if keep(e):
            ck.violation("%s: got %s (allocating %s), the specification wants %s" %
                         (info[x["line"] - 1], e["res"] if "res" in e else e.get("n"), e.get("alloc"), x["spec"]),
                         {"backend": backend, "event": e, "about": info[x["line"] - 1]})


# the point at infinity
NULL = {"g2": bytes([0xc0]) + bytes(47), "g3": bytes([0xc0]) + bytes(95)}


def unsigned(k, b):
    return b if k == "gt" else bytes([b[0] & ~0x20]) + b[1:]


# ---------------------------------------------------------------------------
# C09


USES = {
    "msk": lambda x: [{"op": "ukey", "p": "p", "m": x, "k": "u1" + x, "ap": grown(1, 1)},
                      {"op": "ukey", "p": "p", "m": x, "k": "u2" + x, "ap": grown(4, 3)},
                      {"op": "ukey", "p": "p", "m": x, "k": "u3" + x, "ap": ["all"]},
                      {"op": "decrypt", "c": "c", "k": "u2" + x}],
    "mpk": lambda x: [{"op": "encrypt", "p": "p", "m": x, "c": "c" + x, "g": "g", "attrs": [A("F", "a%d" % i) for i in range(4)]},
                      {"op": "encrypt", "p": "p", "m": x, "c": "c1" + x, "g": "g", "attrs": [A("F", "a0")]},
                      {"op": "hdr_enc", "p": "p", "m": x, "h": "h" + x, "attrs": [A("F", "a1")], "meta": None},
                      {"op": "decrypt", "c": "c" + x, "k": "k2"}, {"op": "decrypt", "c": "c1" + x, "k": "k1"}],
    "mdk": lambda x: [{"op": "delegate", "p": "p", "m": x, "src": "k3", "k": "d1" + x, "ap": ["all"]},
                      {"op": "delegate", "p": "p", "m": x, "src": "k3", "k": "d2" + x, "ap": grown(2, 2)},
                      {"op": "decrypt", "c": "c", "k": "d1" + x}],
    "msg": lambda x: [{"op": "encrypt", "p": "p", "m": "m", "c": "c" + x, "g": x, "attrs": [A("F", "a0")]},
                      {"op": "decrypt", "c": "c" + x, "k": "k1"}],
    "key": lambda x: [{"op": "decrypt", "c": "c", "k": x}, {"op": "decrypt", "c": "c0", "k": x},
                      {"op": "hdr_dec", "k": x, "from": {"ref": "h.hdr"}},
                      {"op": "delegate", "p": "p", "m": "m", "src": x, "k": "d1" + x, "ap": ["all"]},
                      {"op": "delegate", "p": "p", "m": "m", "src": x, "k": "d2" + x, "ap": grown(2, 2)},
                      {"op": "delegate", "p": "p", "m": "m", "src": x, "k": "d3" + x, "ap": grown(1, 1)},
                      {"op": "decrypt", "c": "c", "k": "d1" + x}, {"op": "decrypt", "c": "c", "k": "d2" + x}],
    "ct": lambda x: [{"op": "decrypt", "c": x, "k": "k1"}, {"op": "decrypt", "c": x, "k": "k2"}, {"op": "decrypt", "c": x, "k": "k4"}],
}


def users(cols=(1, 2, 3, 4)):
    """genuine objects of four attributes to use damaged ones with"""
    return (scene(4, cols) + [{"op": "encrypt", "p": "p", "m": "m", "c": "c0", "g": "g", "attrs": [A("F", "a0"), A("F", "a3")]},
                              {"op": "hdr_enc", "p": "p", "m": "m", "h": "h", "attrs": [A("F", "a0"), A("F", "a1")],
                               "meta": {"uid": {"text": "uid"}, "ad": {"text": "more"}}}])


def mutants(fmt, gen, recipes, cap=None):
    out = []
    for m in recipes:
        key = (m["kind"], m["n"], m["c"])
        if key not in gen:
            continue
        b = gen[key]
        l = layout(*key)
        for d in m["muts"]:
            b = fmt.apply(b, l, d)
        out.append((m["kind"], b, "%s of %d elements, %d columns after %s" % (m["kind"], m["n"], m["c"], json.dumps(m["muts"]))))
    return out


def load_all(ck, backend, muts, gen):
    """load every mutant and use the accepted ones; trace events and their descriptions"""
    seen, uniq = set(), []
    for m in muts:
        if (m[0], m[1]) not in seen:
            seen.add((m[0], m[1]))
            uniq.append(m)
    gset = {(k[0], b) for k, b in gen.items()}
    n = 60
    hs = [[{"op": "load", "kind": k, "id": "x", "from": hx(b), "alloc": True} for k, b, _ in uniq[i:i + n]] for i in range(0, len(uniq), n)]
    rs = [x for h in run_histories(hs, backend) for x in h]
    # a crash skips the rest of its group: once more, one by one
    again = [i for i, x in enumerate(rs) if x["res"] == "skip"]
    for i, x in zip(again, run_histories([[{"op": "load", "kind": uniq[i][0], "id": "x", "from": hx(uniq[i][1]), "alloc": True}] for i in again], backend)):
        rs[i] = x[0]
    ev, info, good = [], [], []
    for (k, b, what), x in zip(uniq, rs):
        ev.append({"op": "load", "in": [[k, ints(b)]], "res": x["res"], "genuine": (k, b) in gset, "alloc": min(x.get("alloc", 0), 2 * 10 ** 9), "size": len(b)})
        info.append("loading a " + what)
        if x["res"] == "ok":
            good.append((k, b, what))
    ck.add("loads", len(uniq))
    ck.add("loads_accepted", len(good))
    # use what was accepted, alone and with each other
    n = 6
    hs, who = [], []
    for i in range(0, len(good), n):
        h = users()
        w = [None] * len(h)
        ids = []
        for j, (k, b, what) in enumerate(good[i:i + n]):
            x = "x%d" % j
            if k in ("msk", "mpk", "mdk"):
                h += [{"op": "load", "kind": kk, "id": x, "from": hx(max((k2[1], y) for k2, y in gen.items() if k2[0] == kk)[1])} for kk in ("msk", "mpk", "mdk")]
            h.append({"op": "load", "kind": k, "id": x, "from": hx(b)})
            w += [None] * (len(h) - len(w))
            us = USES[k](x) + [{"op": "reload", "kind": k, "id": x}]
            h += [dict(u, alloc=True) for u in us]
            w += ["a " + what] * len(us)
            ids.append((k, x, what))
        for k, x, what in ids:
            for k2, x2, what2 in ids:
                u = None
                if (k, k2) == ("key", "ct"):
                    u = {"op": "decrypt", "c": x2, "k": x, "alloc": True}
                elif (k, k2) == ("key", "mdk"):
                    u = {"op": "delegate", "p": "p", "m": x2, "src": x, "k": "d" + x, "ap": ["all"], "alloc": True}
                if u:
                    h.append(u)
                    w.append("a %s with a %s" % (what, what2))
        hs.append(h)
        who.append(w)
    for h, w, rr in zip(hs, who, run_histories(hs, backend)):
        for c, what, x in zip(h, w, rr):
            if what:
                ev.append({"op": "use", "res": x["res"], "alloc": min(x.get("alloc", 0), 2 * 10 ** 9), "size": 4000})
                info.append("%s with %s" % (c["op"], what))
                ck.add("uses")
            elif x["res"] not in ("ok", "skip"):
                if c["op"] == "load":       # accepted before, refused now
                    ev.append({"op": "use", "res": "unstable", "alloc": 0, "size": 0})
                    info.append("loading again: %s" % json.dumps(c))
                else:
                    raise ToolError("%s gave %s" % (c, x))
    return ev, info


def prefixes(gen, r, cap):
    out = []
    for (k, n, c), b in sorted(gen.items()):
        cuts = range(len(b)) if len(b) <= cap else sorted(r.sample(range(len(b)), cap))
        out += [(k, b[:i], "%s of %d elements, %d columns cut to %d bytes" % (k, n, c, i)) for i in cuts]
    return out


def noise(fmt, gen, r, num):
    """arbitrary bytes, and small counts followed by almost valid elements"""
    out = []
    es = fmt.es
    pool = [b for b in gen.values()]
    for _ in range(num):
        k = r.choice(ENGINE)
        w = r.random()
        if w < 0.25:
            b = bytes(r.choice([0, 0, 0, 1, 2, 255, r.randrange(256)]) for _ in range(r.randint(0, 40)))
        elif w < 0.6:
            b = r.choice(pool)
            for _ in range(r.randint(1, 4)):
                i = r.randrange(len(b) + 1)
                j = min(len(b), i + r.choice([0, 1, 4, 8, r.randint(0, 30)]))
                b = b[:i] + r.choice([b"", bytes(4), (r.randint(0, 6)).to_bytes(4, "big"), b[i:j] * 2, bytes([r.randrange(256)])]) + b[j:]
                b = b[:4000]
        else:
            b = b""
            for _ in range(r.randint(1, 5)):
                n = r.randint(0, 4)
                b += n.to_bytes(4, "big")
                for _ in range(n if r.random() < 0.8 else r.randint(0, 5)):
                    s = es[r.choice(["sc", "g2", "g3", "gt", "u32"])]
                    b += r.randint(0, 5).to_bytes(s, "big") if r.random() < 0.9 else bytes(s)
        out.append((k, b, "%s from arbitrary bytes %s" % (k, b.hex()[:80])))
    return out


def containers(ck, backend, r, rich):
    """headers, exported headers, encapsulations and blocks, damaged"""
    pre = users((1, 2)) + [
        {"op": "hdr_enc", "p": "p", "m": "m", "h": "n", "attrs": [A("F", "a0")], "meta": None},
        {"op": "hdr_enc", "p": "p", "m": "m", "h": "e", "attrs": [], "meta": {"uid": {"hex": ""}, "ad": None}},
        {"op": "blk_enc", "key": {"ref": "h.key"}, "uid": {"text": "u"}, "num": 3, "data": {"fill": 40}, "max": 1 << 30, "store": "b"},
        get("blob", "h.hdr"), get("blob", "n.hdr"), get("blob", "e.hdr"), get("blob", "b"), get("blob", "h.key"), get("key", "k1"), get("ct", "c")]
    rs = run_histories([pre], backend)[0]
    if any(x["res"] != "ok" for x in rs):
        raise ToolError("containers: %s" % [x for x in rs if x["res"] != "ok"])
    hdr_, bare, empty, blk, key, uk, ct = [bytes.fromhex(x["hex"]) for x in rs[-7:]]
    meta = (3).to_bytes(4, "big") + b"uid" + b"more"
    exp = (32).to_bytes(4, "big") + key + hdr_
    clear = (32).to_bytes(4, "big") + key + meta
    base = {"hdr": [hdr_, bare, empty], "export": [exp], "clear": [clear, clear[:36]], "block": [blk], "ct": [ct]}
    cases = []
    for k, bs in base.items():
        for b in bs:
            cases.append((k, b, "untouched"))
            cuts = range(len(b)) if len(b) < 200 or THOROUGH else sorted(set(list(range(0, 12)) + list(range(len(b) - 8, len(b))) + r.sample(range(len(b)), rich)))
            cases += [(k, b[:i], "cut to %d bytes" % i) for i in cuts]
            fields = [0]
            if k in ("hdr", "export", "clear"):
                n = 4 + int.from_bytes(b[:4], "big")
                fields.append(n + (NONCE if k == "hdr" else 0))
                if k == "hdr":
                    fields += [4, 4 + 4 + 4 * int.from_bytes(b[4:8], "big")]
                if k == "export":
                    fields += [n + 4, n + 8]
            for f in fields:
                if f + 4 > len(b):
                    continue
                v = int.from_bytes(b[f:f + 4], "big")
                for w in (0, 1, 3, 4, v - 1, v + 1, 2 * v, len(b), len(b) - f - 4, len(b) - f - 3, 1 << 28, 1 << 31, (1 << 32) - 1, (1 << 32) - 4, r.getrandbits(32)):
                    cases.append((k, b[:f] + (w % (1 << 32)).to_bytes(4, "big") + b[f + 4:], "with the size at %d made %d" % (f, w % (1 << 32))))
            for _ in range(rich):
                i = r.randrange(len(b))
                cases.append((k, b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:], "with byte %d altered" % i))
                cases.append((k, b[:i] + bytes(r.randrange(256) for _ in range(r.randint(1, 40))), "overwritten from byte %d on" % i))
    for k in base:
        for _ in range(rich):
            b = bytes(r.choice([0, 0, 1, 4, 255, r.randrange(256)]) for _ in range(r.randint(0, 60)))
            cases.append((k, b, "being %s" % b.hex()))

    def cmd(k, b):
        if k == "hdr":
            return {"op": "hdr_dec", "k": "u", "from": hx(b)}
        if k in ("export", "clear"):
            return {"op": "hdr_parse", "kind": "enc" if k == "export" else "clear", "from": hx(b)}
        if k == "ct":
            return {"op": "opensym", "k": "u", "c": "y", "enc": hx(b), "len": 32}
        return {"op": "blk_dec", "key": hx(key), "uid": {"text": "u"}, "num": 3, "data": hx(b), "max": 1 << 30}
    hs, n = [], 40
    pre = [{"op": "load", "kind": "key", "id": "u", "from": hx(uk)}, {"op": "blob", "id": "y.key", "from": hx(key)}]
    for i in range(0, len(cases), n):
        hs.append(pre + [dict(cmd(k, b), alloc=True) for k, b, _ in cases[i:i + n]])
    rs = [x for h in run_histories(hs, backend) for x in h[2:]]
    again = [i for i, x in enumerate(rs) if x["res"] == "skip"]
    for i, x in zip(again, run_histories([pre + [dict(cmd(*cases[i][:2]), alloc=True)] for i in again], backend)):
        rs[i] = x[2]
    ev, info = [], []
    for (k, b, what), x in zip(cases, rs):
        ev.append({"op": "load", "in": [[k, ints(b)]], "res": x["res"], "genuine": what == "untouched" and b != empty, "alloc": min(x.get("alloc", 0), 2 * 10 ** 9), "size": len(b) + 2000})
        info.append("%s %s" % (k, what))
        ck.add("containers")
    f = Fmt(backend, r)
    pool = []
    for b in (hdr_, bare, empty):
        c = b[4:4 + int.from_bytes(b[:4], "big")]
        pool += [(a, unsigned(a, y)) for a, y in f.elements("ct", int.from_bytes(c[:4], "big"), 1, c)]
    pool += [(a, unsigned(a, y)) for a, y in f.elements("ct", 4, 1, ct)]
    return ev, info, pool


NONCE = 12


def through(ck, r, muts, num):
    """damaged keys, headers, blocks and policies through C, Python and WebAssembly"""
    harness(), pymod(), wasmmod()
    pre = [{"op": "declare", "p": "p", "max": 5, "axes": [{"name": "F", "attrs": ["a0", "a1", "a2"], "hier": False}]},
           {"op": "master", "p": "p", "m": "m"}, {"op": "ukey", "p": "p", "m": "m", "k": "k", "ap": grown(2, 2)},
           {"op": "hdr_enc", "p": "p", "m": "m", "h": "h", "attrs": [A("F", "a0"), A("F", "a1")], "meta": {"uid": {"text": "u"}, "ad": {"text": "x"}}},
           {"op": "blk_enc", "key": {"ref": "h.key"}, "uid": {"text": "u"}, "num": 0, "data": {"fill": 20}, "store": "b"}]
    base = Iface()
    for c in pre:
        x = base.do(dict(c, via="rust"))
        if x["res"] != "ok":
            raise ToolError("%s gave %s" % (c, x))
    B = dict(base.B)
    base.stop()
    pool = []
    f = Fmt("bls", r)
    by = {}
    for k, b, what in muts:
        by.setdefault(k, []).append((b, what))
    pol = B["p"].decode()
    vals = json.loads(pol)
    vias = {"key": ("c", "cc", "py", "wasm", "wasmc"), "mpk": ("c", "cc", "py", "wasm", "wasmc"), "msk": ("c", "py", "wasm"),
            "mdk": ("py",), "hdr": ("c", "cc", "py", "wasm", "wasmc"), "block": ("c", "py", "wasm"), "msgs": ("c", "py", "wasm"),
            "policy": ("c", "cc", "py", "wasm", "wasmc")}
    cases = []

    def badpolicy():
        w = r.randrange(6)
        if w == 0:
            return pol[:r.randrange(len(pol))]
        if w == 1:
            return pol.replace("1", str(r.choice(["-1", "99", "4294967296", "1e9", "null", '"1"', "[]"])), 1)
        if w == 2:
            v = json.loads(pol)
            ks = list(v["attribute_to_int"])
            v["attribute_to_int"][r.choice(ks)] = r.choice([[], [0], [77], [4294967295], [1, 1], [2, 1], None])
            return json.dumps(v)
        if w == 3:
            v = json.loads(pol)
            del v[r.choice(list(v))]
            return json.dumps(v)
        if w == 4:
            v = json.loads(pol)
            k = r.choice(list(v["attribute_to_int"]))
            del v["attribute_to_int"][k]
            return json.dumps(v)
        return "".join(r.choice('{}[]":,0a1\\ ') for _ in range(r.randint(0, 30)))
    if set(vals) < {"attribute_to_int"}:
        raise ToolError("policy text %s" % pol)
    for _ in range(num):
        k = r.choice(["key", "key", "mpk", "msk", "mdk", "hdr", "hdr", "block", "msgs", "policy"])
        via = r.choice(vias[k])
        if k in by:
            b, what = r.choice(by[k])
        elif k == "policy":
            b = badpolicy().encode()
            what = "policy " + b.decode()[:120]
        else:
            g = {"hdr": B["h.hdr"], "block": B["b"], "msgs": len(B["h.hdr"]).to_bytes(4, "big") + B["h.hdr"] + B["b"]}[k]
            i = r.randrange(len(g))
            w = r.randrange(5)
            b = (g[:i] if w == 0 else r.choice([0, 1, 3, len(g), 1 << 28, 1 << 31, (1 << 32) - 1]).to_bytes(4, "big") + g[4:] if w == 1
                 else g[:i] + bytes([g[i] ^ (1 << r.randrange(8))]) + g[i + 1:] if w == 2 else bytes(r.choice([0, 1, 255]) for _ in range(r.randint(0, 12))) if w == 3 else g[:4 + r.randrange(4)])
            what = "%s of %d bytes" % (k, len(b))
        cases.append((k, via, b, what))

    def do(f, case):
        k, via, b, what = case
        if f.procs.get("rust") is None or len(f.caches) > 200:
            f.reset()
        f.B = dict(B)
        if k == "key":
            f.B["x"] = b
            cmds = [{"op": "hdr_dec", "k": "x", "from": {"ref": "h.hdr"}}]
            if via == "py":
                cmds.append({"op": "delegate", "m": "m", "p": "p", "src": "x", "k": "y", "ap": ["attr", A("F", "a0")]})
        elif k == "mpk":
            f.B["x.mpk"], f.B["x.msk"] = b, B["m.msk"]
            cmds = [{"op": "hdr_enc", "m": "x", "p": "p", "h": "z", "attrs": [A("F", "a2")], "meta": {"uid": {"text": "u"}, "ad": None}}]
        elif k == "msk":
            f.B["x.msk"] = b
            cmds = [{"op": "ukey", "m": "x", "p": "p", "k": "z", "ap": grown(3, 2)}]
        elif k == "mdk":
            f.B["x.mdk"], f.B["x.msk"] = b, B["m.msk"]
            cmds = [{"op": "delegate", "m": "x", "p": "p", "src": "k", "k": "z", "ap": grown(2, 2)}]
        elif k == "hdr":
            cmds = [{"op": "hdr_dec", "k": "k", "from": hx(b)}]
        elif k == "block":
            cmds = [{"op": "blk_dec", "key": hx(B["h.key"]), "uid": {"text": "u"}, "num": 0, "data": hx(b)}]
        elif k == "msgs":
            cmds = [{"op": "msg_dec", "k": "k", "from": hx(b)}, {"op": "hdr_size", "from": hx(b)}]
        else:
            f.B["q"] = b
            cmds = [{"op": "hdr_enc", "m": "m", "p": "q", "h": "z", "attrs": [A("F", "a1")], "meta": {"uid": {"text": "u"}, "ad": None}}]
            if via in ("c", "py", "wasm"):
                cmds += [{"op": "ukey", "m": "m", "p": "q", "k": "z", "ap": grown(2, 2)},
                         {"op": "rotate_all", "p": "q", "q": "q2", "attrs": [A("F", "a0")]}]
        out = []
        for c in cmds:
            x = f.do(dict(c, via=via))
            out.append((c, x["res"]))
        return out
    res = [None] * len(cases)
    q = queue.Queue()
    for i in range(len(cases)):
        q.put(i)
    errs = []

    def work():
        f = Iface()
        try:
            while not errs:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    break
                res[i] = do(f, cases[i])
        except BaseException as e:  # noqa
            errs.append(e)
        finally:
            f.stop()
    ts = [threading.Thread(target=work) for _ in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    ev, info = [], []
    for (k, via, b, what), rs in zip(cases, res):
        for c, x in rs:
            said = "%s through %s given a %s" % (c["op"], via, what)
            ck.add("through_interfaces")
            # refused up front when the bytes are no such object, or at least answered
            if k in ("key", "mpk", "msk", "mdk", "hdr") and c["op"] in ("hdr_dec", "hdr_enc", "ukey", "delegate"):
                ev.append({"op": "load", "in": [[k, ints(b)]], "res": x, "genuine": False, "alloc": 0, "size": len(b)})
            else:
                ev.append({"op": "use", "res": x, "alloc": 0, "size": 0})
            info.append(said)
    c = B["h.hdr"][4:4 + int.from_bytes(B["h.hdr"][:4], "big")]
    pool += [(a, unsigned(a, y)) for a, y in f.elements("ct", 2, 1, c)]
    return ev, info, pool


def grammar(ck, cfg="MCWire.cfg"):
    r = tlc("MCWire", cfg)
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.add("model_states", r.distinct)
    m = tagged(r, "MUT")
    m.sort(key=lambda x: json.dumps(x))
    ck.add("damages_enumerated", len(m))
    return m


def c09(ck):
    ck.assumptions += ["bytes altered inside an element of BLS12-381 groups never form another group element (probability below 2^-100)"]
    recipes = grammar(ck, "MCWire_deep.cfg" if THOROUGH else "MCWire.cfg")
    two = [] if THOROUGH else grammar(ck, "MCWire_two.cfg")
    refuted(ck, "MCWireBad", ("wrap", "clipped", "offbyone", "trusting", "anything", "firstonly"))
    bounds = size(((0, 1, 2, 3), (1, 2)), ((0, 1, 2, 3, 4), (1, 2, 3)))
    for backend in ("toys", "bls"):
        r = rng("C09", backend)
        fmt = Fmt(backend, r)
        gen = genuine(backend, bounds[0] + (4,), bounds[1] + (3, 4))
        rec = recipes + two
        if backend == "bls":
            rec = r.sample(recipes, size(350, 4000)) + r.sample(two, size(150, 0))
        else:
            rec = recipes + r.sample(two, min(len(two), 3000))
        muts = [(k[0], b, "%s as written" % k[0]) for k, b in sorted(gen.items())]
        muts += mutants(fmt, gen, rec)
        muts += prefixes(gen, r, size(150, 400) if backend == "toys" else size(12, 60))
        muts += noise(fmt, gen, r, size(1500, 30000) if backend == "toys" else size(80, 800))
        ev, info = load_all(ck, backend, muts, gen)
        ev2, info2, pool = containers(ck, backend, r, size(30, 200) if backend == "toys" else size(12, 60))
        ev, info = ev + ev2, info + info2
        pool = list(pool)
        for (k, n, c), b in gen.items():
            pool += [(a, unsigned(a, y)) for a, y in fmt.elements(k, n, c, b)]
        if backend == "bls":
            pool += [(a, unsigned(a, y)) for a, y in NULL.items()]
            ev3, info3, pool3 = through(ck, r, muts, size(400, 6000))
            ev, info, pool = ev + ev3, info + info3, pool + pool3
        judge(ck, backend, ev, info, "C09-" + backend, pool)
        ck.sample({"backend": backend, "first": info[len(gen):len(gen) + 2], "answers": [e["res"] for e in ev[:200:20]]})


c09.level = "model_checking"


# ---------------------------------------------------------------------------
# C08


RELOADS = ("reload", "load", "bytes", "policy_json", "policy_load")


def sprinkle(r, h, rate):
    """reload objects of the history at random moments; save bytes and restore them later"""
    out, objs, saved = [], [], []

    def some():
        kind, i = r.choice(objs)
        x = r.random()
        if x < 0.55:
            out.append({"op": "reload", "kind": kind, "id": i})
        elif x < 0.75 or not saved:
            n = "s%d" % len(out)
            out.append({"op": "bytes", "kind": kind, "id": i, "store": n, "quiet": True})
            saved.append((kind, i, n))
        else:
            kind, i, n = r.choice(saved)
            out.append({"op": "load", "kind": kind, "id": i, "from": {"ref": n}})
    for c in h:
        out.append(c)
        if c["op"] == "master":
            objs += [(k, c["m"]) for k in ("msk", "mpk", "mdk")]
        elif c["op"] in ("ukey", "delegate"):
            objs.append(("key", c["k"]))
        elif c["op"] == "encrypt":
            objs.append(("ct", c["c"]))
        elif c["op"] == "msg":
            objs.append(("msg", c["g"]))
        if c["op"] in ("ukey", "delegate", "encrypt", "master") and r.random() < rate:
            out.append({"op": "reload", "kind": objs[-1][0], "id": objs[-1][1]})
        while objs and r.random() < rate:
            some()
    return out


def plain(h):
    """the history without its reloads; positions of its commands"""
    at = [i for i, c in enumerate(h) if c["op"] not in RELOADS]
    return [h[i] for i in at], at


def reloading(ck, hs, backend, name):
    """a rejected step counts when the history without its reloads is not rejected there"""
    rej = check_histories(ck, hs, backend, "C08-" + name)
    direct = [j for j in rej if j.event["op"] in RELOADS]
    other = [j for j in rej if j.event["op"] not in RELOADS]
    if other:
        # group elements differ from run to run; ask a few times
        twins = [plain(j.cmds)[0] for j in other]
        bad = set()
        for t in range(2):
            for k in check_histories(ck, twins, backend, "C08-%s-twin%d" % (name, t)):
                if k.ci == len(twins[k.hi]) - 1:
                    bad.add(k.hi)
        ck.add("rejected_with_and_without_reloads", len(bad))
        direct += [j for i, j in enumerate(other) if i not in bad]
    report(ck, direct)
    ck.add("reloads", sum(c["op"] in ("reload", "load") for h in hs for c in h))
    if hs:
        ck.sample({"history": hs[len(hs) // 2][:16]})


def sizes(ck, backend, r, big):
    """announced sizes of objects too large for their bytes to be followed one by one"""
    hs, want = [], []

    def obj(h, w, kind, id, n, c=0):
        h.append({"op": "reload", "kind": kind, "id": id})
        w.append((kind, n, c))
    for n in big["master"]:
        h, w = [{"op": "policy", "p": "p", "max": n},
                {"op": "axis", "p": "p", "name": "F", "attrs": ["a0", "a1"], "hier": False},
                {"op": "master", "p": "p", "m": "m"}], []
        for k in ("msk", "mpk", "mdk"):
            obj(h, w, k, "m", n + 1)
        hs.append(h)
        want.append(w)
    for n, c in big["key"]:
        h, w = [{"op": "policy", "p": "p", "max": n},
                {"op": "axis", "p": "p", "name": "F", "attrs": ["a%d" % i for i in range(n)], "hier": False},
                {"op": "master", "p": "p", "m": "m"}, {"op": "ukey", "p": "p", "m": "m", "k": "k", "ap": grown(n, c)}], []
        obj(h, w, "key", "k", n, c)
        h.append({"op": "delegate", "p": "p", "m": "m", "src": "k", "k": "d", "ap": ["all"]})
        obj(h, w, "key", "d", n, c)
        h.append({"op": "delegate", "p": "p", "m": "m", "src": "d", "k": "e", "ap": grown(n, c)})
        obj(h, w, "key", "e", n, c)
        hs.append(h)
        want.append(w)
    for n in big["ct"]:
        h, w = [{"op": "policy", "p": "p", "max": 3},
                {"op": "axis", "p": "p", "name": "F", "attrs": ["a0", "a1", "a2"], "hier": False},
                {"op": "master", "p": "p", "m": "m"}, {"op": "msg", "g": "g"},
                {"op": "encrypt", "p": "p", "m": "m", "c": "c", "g": "g", "attrs": [A("F", "a%d" % r.randrange(3)) for _ in range(n)]}], []
        obj(h, w, "ct", "c", n)
        h += [{"op": "ukey", "p": "p", "m": "m", "k": "k", "ap": ["all"]}, {"op": "reload", "kind": "key", "id": "k"}]
        w.append(None)
        hs.append(h)
        want.append(w)
    ev, info = [], []
    for h, w, rs in zip(hs, want, run_histories(hs, backend, timeout=600)):
        it = iter(w)
        for c, x in zip(h, rs):
            if c["op"] != "reload":
                if x["res"] != "ok":
                    raise ToolError("%s gave %s" % (json.dumps(c)[:300], x))
                continue
            o = next(it)
            if o:
                e = {"op": "size", "kind": o[0], "elems": o[1], "cols": o[2], "res": x["res"], "n": x.get("n", 0)}
                e.update({k: bool(x.get(k)) for k in ("len", "len2", "same", "eq")})
                ev.append(e)
                info.append("a %s of %d elements, %d columns" % o)
    # the size announced for a number of attributes
    ns = list(range(0, 12)) + [100, 255, 256, 1000, 65535, 65536]
    for n, x in zip(ns, run_histories([[{"op": "ct_len", "n": n} for n in ns]], backend)[0]):
        if backend == "bls":
            ev.append({"op": "size", "kind": "ct", "elems": n, "cols": 0, "res": x["res"], "n": x.get("n", 0),
                       "len": True, "len2": True, "same": True, "eq": True})
            info.append("the size announced for a ciphertext of %d attributes" % n)
    ck.add("sizes", len(ev))
    return ev, info


def containers_back(r, count):
    """headers and their exported forms, with every kind of metadata"""
    hs = []
    for _ in range(count):
        h = [{"op": "policy", "p": "p", "max": 3}, {"op": "axis", "p": "p", "name": "F", "attrs": ["a0", "a1", "a2"], "hier": False},
             {"op": "master", "p": "p", "m": "m"}, {"op": "ukey", "p": "p", "m": "m", "k": "k", "ap": ["all"]}]
        for i in range(12):
            meta = r.choice([None, 0, 1, 2])
            if meta is not None:
                uid = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 16, 255, 256, 300])))
                ad = [None, b"", bytes(r.randrange(256) for _ in range(r.choice([1, 4, 100, 255, 256, 5000])))][meta]
                meta = {"uid": {"hex": uid.hex()}, "ad": None if ad is None else {"hex": ad.hex()}}
            at = [A("F", "a%d" % r.randrange(3)) for _ in range(r.randint(1, 5))]
            h += [{"op": "hdr_enc", "p": "p", "m": "m", "h": "h%d" % i, "attrs": at, "meta": meta},
                  {"op": "hdr_dec", "k": "k", "from": {"ref": "h%d.hdr" % i}}]
        hs.append(h)
    return hs


def c08(ck):
    ck.assumptions += ["ciphertexts have no equality: their reloaded form is compared by its bytes and by what it decrypts to"]
    grammar(ck, "MCWire_deep.cfg" if THOROUGH else "MCWire.cfg")
    refuted(ck, "MCWireBad", ("unwritten",))
    for backend in ("toys", "bls"):
        r = rng("C08", backend)
        ev, info = [], []
        ns, cs = ((0, 1, 2, 3, 4, 5, 6, 7, 8), (1, 2, 3, 4, 5, 8)) if backend == "toys" else ((0, 1, 2, 3, 5), (1, 2, 3, 5))
        fmt = Fmt(backend, r)
        pool = []
        for (k, n, c), b in genuine(backend, ns, cs).items():
            ev.append({"op": "write", "kind": k, "b": ints(b), "n": len(b), "elems": n, "cols": c})
            info.append("a %s of %d elements, %d columns" % (k, n, c))
            # elements are what the reloaded object is made of: known to be encodings
            pool += [(a, unsigned(a, y)) for a, y in fmt.elements(k, n, c, b)]
            ck.add("formats", 1)
        big = ({"master": size([255, 256, 70000], [255, 256, 65536, 300000]),
                "key": size([(1, 1), (40, 1), (40, 40), (260, 1), (260, 257)], [(1, 1), (200, 200), (260, 1), (300, 257), (400, 290), (1500, 2)]),
                "ct": size([0, 1, 256, 1000, 70000], [0, 1, 2, 256, 65536, 300000])} if backend == "toys" else
               {"master": size([20, 256], [20, 256, 3000]), "key": size([(1, 1), (12, 12), (20, 3)], [(1, 1), (64, 64), (260, 3), (100, 80)]),
                "ct": size([0, 1, 16, 300], [0, 1, 16, 300, 4000])})
        e2, i2 = sizes(ck, backend, r, big)
        ev, info = ev + e2, info + i2
        hs = containers_back(r, size(6, 100) if backend == "toys" else size(3, 20))
        for h, rs in zip(hs, run_histories(hs, backend)):
            for c, x in zip(h, rs):
                if c["op"] in ("hdr_enc", "hdr_dec"):
                    if x["res"] != "ok":
                        if backend != "toys":       # the small group may decrypt to several messages
                            raise ToolError("%s gave %s" % (c, x))
                        continue
                    ev.append({"op": "back", "same": bool(x["cont"])})
                    info.append("the exported form of %s" % json.dumps(c)[:200])
                    ck.add("containers")
        judge(ck, backend, ev, info, "C08-" + backend, pool)
    r = rng("C08")
    behaviours(ck, "reload", size(150, 2000), size(40, 60), keep=lambda e, x: e["op"] == "reload")
    base = (access.random_access(r, size(60, 800)) + access.rotations(r, size(60, 800)) + access.delegations(r, size(100, 1500), depth=4)
            + access.large(r, size(10, 100)) + access.hierarchies(r, size(20, 200)))
    reloading(ck, [sprinkle(r, h, 0.35) for h in base], "toyl", "toyl")
    base = access.random_access(r, size(5, 60), keys=3) + access.rotations(r, size(5, 60)) + access.delegations(r, size(8, 100), depth=3)
    reloading(ck, [sprinkle(r, h, 0.3) for h in base], "bls", "bls")


c08.level = "model_checking"
