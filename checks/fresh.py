"""C07 fresh randomness.  MCFresh.tla compares ways of drawing; its histories are executed in the
transparent group, where what was drawn can be read off the outputs, and judged by FreshTrace.tla,
together with the byte strings drawn by the real group, the hybrid layer and the interfaces."""
import struct

from lib.iface import *  # noqa
from lib.core import Proc

Q = 2 ** 61 - 1


def size(q, t):
    return t if THOROUGH else q


def limbs(n):
    return [(n >> (13 * i)) & 8191 for i in range(5)]


class Rd:
    def __init__(self, b):
        self.b, self.i = b, 0

    def u32(self):
        self.i += 4
        return struct.unpack(">I", self.b[self.i - 4:self.i])[0]

    def el(self):
        self.i += 8
        return struct.unpack(">Q", self.b[self.i - 8:self.i])[0]

    def vec(self):
        return [self.el() for _ in range(self.u32())]


def solve(m, v):
    """the u with m u = v, if there is exactly one"""
    n, c = len(m), len(m[0])
    a = [list(r) + [x] for r, x in zip(m, v)]
    row = 0
    for j in range(c):
        p = next((i for i in range(row, n) if a[i][j] % Q), None)
        if p is None:
            return None
        a[row], a[p] = a[p], a[row]
        inv = pow(a[row][j], Q - 2, Q)
        a[row] = [x * inv % Q for x in a[row]]
        for i in range(n):
            if i != row and a[i][j]:
                f = a[i][j]
                a[i] = [(x - f * y) % Q for x, y in zip(a[i], a[row])]
        row += 1
    if any(a[i][c] for i in range(row, n)):
        return None
    return [a[j][c] for j in range(c)]


def small(x):
    return x if x < 1000 else x - Q if Q - x < 1000 else None


class Run:
    """a history in the transparent group: processes come and go, objects stay"""

    def __init__(self, r, wide=0):
        self.r, self.ev, self.p, self.wide = r, [], None, wide
        self.t, self.y, self.d, self.g = {}, {}, {}, {}
        self.n = self.turned = 0
        self.log = []
        self.dead = None

    def call(self, cmds):
        if self.p is None:
            self.p = Proc([harness(), "toyl"])
        self.log += cmds
        res = self.p.call({"op": "batch", "cmds": cmds})
        if res["res"] != "ok":
            self.dead = res["res"]
            return None
        bad = [(c, x) for c, x in zip(cmds, res["out"]) if x["res"] != "ok"]
        if bad:
            raise ToolError("C07: %s" % str(bad[:1])[:500])
        return res["out"]

    def new(self, x):
        self.n += 1
        return x + str(self.n)

    def begin(self):
        self.m, self.k, self.msg = "m", "k", "g"
        self.call([{"op": "policy", "p": "p", "max": self.r.randint(11, 16) + self.wide}, {"op": "axis", "p": "p", "name": "F", "attrs": list("abcd"), "hier": False},
                   {"op": "axis", "p": "p", "name": "L", "attrs": ["x", "y"], "hier": True}] +
                  ([{"op": "axis", "p": "p", "name": "W", "attrs": ["w%d" % i for i in range(self.wide)], "hier": False}] if self.wide else []))
        self.master("m")
        self.message("g")
        self.ukey("k", self.formula(True))

    # what bytes show
    def see_master(self, m, b):
        x = Rd(b)
        self.t[m], self.y[m] = x.vec(), x.el()
        self.ev.append({"op": "master", "m": m, "t": [limbs(v) for v in self.t[m]], "y": limbs(self.y[m])})

    def see_key(self, k, m, b, src=None):
        x = Rd(b)
        d = x.vec()
        n, c = x.u32(), x.u32()
        rows = [x.u32() for _ in range(n)]
        mat = [[x.el() for _ in range(c)] for _ in range(n)]
        e = {"op": "delegate" if src else "ukey", "m": m, "k": k or "", "rows": rows, "d": [limbs(v) for v in d]}
        base = [0] * n
        if src:
            base = [self.d[src].get(a, 0) for a in rows]
            e["from"] = [limbs(v) for v in base]
        e["matrix"] = [[small(v) for v in row] for row in mat]
        u = solve(mat, [(v - w) * self.t[m][a] % Q for v, w, a in zip(d, base, rows)])
        if u is None or any(v is None for row in e["matrix"] for v in row):
            u, e["matrix"] = [], []
        e["u"] = [limbs(v) for v in u]
        self.ev.append(e)
        if k:
            self.d[k] = dict(zip(rows, d))

    def see_ct(self, m, b, g, attrs=None):
        x = Rd(b)
        gamma = [x.u32() for _ in range(x.u32())]
        e, ep = x.vec(), x.el()
        t, y = self.t[m], self.y[m]
        if gamma:
            s = e[0] * pow(t[gamma[0]], Q - 2, Q) % Q
        elif g is not None:
            s = (ep - g) * pow(y, Q - 2, Q) % Q
        else:
            return
        given = g is not None
        if not given:
            g = (ep - y * s) % Q
        self.ev.append({"op": "encrypt", "m": m, "attrs": gamma, "e": [limbs(v) for v in e], "ep": limbs(ep), "s": limbs(s), "g": limbs(g), "given": given})

    def see_hdr(self, m, b, meta):
        n = struct.unpack(">I", b[:4])[0]
        self.see_ct(m, b[4:4 + n], None)
        if meta:
            self.ev.append({"op": "bytes", "kind": "nonce", "w": [b[4 + n:16 + n].hex()]})

    # operations, with the same inputs as always or others
    def formula(self, same):
        a = [attr(A("F", x)) for x in "abcd"]
        if self.wide:       # many conjunctions, some choices
            w = [attr(A("W", "w%d" % i)) for i in range(self.wide if same else self.r.randint(2, self.wide))]
            if same:
                return conj(disj(w[0], a[0]), *w[1:])
            self.r.shuffle(w)
            return conj(*w[:-1], disj(w[-1], conj(a[0], a[1])))
        if same:
            return conj(a[0], a[1], disj(a[2], a[3]))
        return self.r.choice([conj(a[0], a[1]), conj(*a), conj(disj(a[0], a[1]), disj(a[2], a[3])), disj(conj(a[0], a[1]), conj(a[2], a[3])),
                              conj(attr(A("L", "y")), disj(*a)), disj(a[0], a[1]), a[2], conj(a[3], attr(A("L", "x")), a[1])])

    def attrs(self, same):
        l = [A("F", "a"), A("F", "b"), A("F", "c")]
        if self.wide:
            l = [A("W", "w%d" % i) for i in range(self.wide)]
            return l if same else self.r.sample(l, self.r.randint(1, self.wide))
        return l if same else self.r.choice([l[:1], l[1:], [A("F", "d"), A("L", "y")], l + [A("F", "d")]])

    def master(self, m):
        o = self.call([{"op": "master", "p": "p", "m": m}, {"op": "bytes", "kind": "msk", "id": m}])
        if o:
            self.see_master(m, bytes.fromhex(o[1]["hex"]))

    def message(self, g):
        o = self.call([{"op": "msg", "g": g}])
        if o:
            self.g[g] = int(o[0]["w"], 16)
            self.ev.append({"op": "msg", "g": limbs(self.g[g])})

    def ukey(self, k, ap):
        o = self.call([{"op": "ukey", "k": k, "p": "p", "m": self.m, "ap": ap}, {"op": "bytes", "kind": "key", "id": k}])
        if o:
            self.see_key(k, self.m, bytes.fromhex(o[1]["hex"]))

    def delegation(self, same):
        a = [attr(A("F", x)) for x in "abcd"]
        if self.wide and self.r.random() < 0.5:
            return conj(*[attr(A("W", "w%d" % i)) for i in range(self.wide)])
        if self.wide:
            return ["all"]
        return ["all"] if self.r.random() < 0.5 else self.formula(True) if same else conj(a[0], a[1], self.r.choice(a[2:]))

    META = {"uid": {"hex": "01"}, "ad": {"hex": "02"}}

    def operate(self, what, same, threads=0, rep=1):
        """on this thread, or on others"""
        ap, at, dl = self.formula(same), self.attrs(same), self.delegation(same)
        if what == "master" and not same and self.turned < 5:
            # another policy
            self.turned += 1
            self.call([{"op": "rotate", "p": "p", "attr": A("L", "x")}])
        if threads:
            c = {"op": "par", "threads": threads, "rep": rep, "what": what, "p": "p", "m": self.m, "k": self.k, "g": self.msg,
                 "attrs": at, "ap": dl if what == "delegate" else ap}
            o = self.call([c])
            for w in [w for l in o[0]["out"] for w in l] if o else []:
                if w.startswith("err") or w == "panic":
                    raise ToolError("C07: %s on a thread: %s" % (what, w))
                b = bytes.fromhex(w)
                if what == "master":
                    self.see_master(self.new("m"), b)
                elif what == "msg":
                    self.ev.append({"op": "msg", "g": limbs(int(w, 16))})
                elif what == "ukey":
                    self.see_key(None, self.m, b)
                elif what == "delegate":
                    self.see_key(None, self.m, b, self.k)
                elif what == "encrypt":
                    self.see_ct(self.m, b, self.g[self.msg])
                elif what == "hdr":
                    n = struct.unpack(">I", b[:4])[0]
                    self.ev.append({"op": "bytes", "kind": "key", "w": [b[4:4 + n].hex()]})
                    self.see_hdr(self.m, b[4 + n:], True)
            return
        if what == "master":
            self.master(self.new("m"))
        elif what == "msg":
            self.message(self.new("g"))
        elif what == "ukey":
            self.ukey(self.new("k"), ap)
        elif what == "delegate":
            k = self.new("k")
            o = self.call([{"op": "delegate", "k": k, "src": self.k, "p": "p", "m": self.m, "ap": dl}, {"op": "bytes", "kind": "key", "id": k}])
            if o:
                self.see_key(k, self.m, bytes.fromhex(o[1]["hex"]), self.k)
        elif what == "encrypt":
            o = self.call([{"op": "encrypt", "c": "c", "p": "p", "m": self.m, "g": self.msg, "attrs": at}, {"op": "bytes", "kind": "ct", "id": "c"}])
            if o:
                self.see_ct(self.m, bytes.fromhex(o[1]["hex"]), self.g[self.msg])
        elif what == "hdr":
            meta = not same or self.r.random() < 0.7
            o = self.call([{"op": "hdr_enc", "h": "h", "p": "p", "m": self.m, "attrs": at, "meta": self.META if meta else None},
                           {"op": "bytes", "kind": "blob", "id": "h.hdr"}])
            if o:
                self.ev.append({"op": "bytes", "kind": "key", "w": [o[0]["w"]]})
                self.see_hdr(self.m, bytes.fromhex(o[1]["hex"]), meta)

    OBJ = (("msk", "m"), ("mpk", "m"), ("mdk", "m"), ("key", "k"), ("msg", "g"))

    def save(self):
        self.call([{"op": "reload", "kind": k, "id": i} for k, i in self.OBJ])

    def restart(self):
        o = self.call([{"op": "policy_json", "p": "p"}] + [{"op": "bytes", "kind": k, "id": i} for k, i in self.OBJ])
        if not o:
            return
        self.p.stop()
        self.p = None
        self.call([{"op": "policy_load", "p": "p", "from": {"text": o[0]["text"]}}] +
                  [{"op": "load", "kind": k, "id": i, "from": {"hex": x["hex"]}} for (k, i), x in zip(self.OBJ, o[1:])])

    def play(self, hist):
        for h in hist:
            if self.dead:
                return
            if h["op"] == "save":
                self.save()
            elif h["op"] == "restart":
                self.restart()
            else:
                self.operate(h["op"], h["same"], 0 if h["t"] == 1 else h.get("threads", 1), h.get("rep", 1))

    def stop(self):
        if self.p:
            self.p.stop()


def judge(ck, name, about, hists):
    """hists: [(events, replay)]"""
    ev, where = [], []
    for n, (es, _) in enumerate(hists):
        ev.append({"op": "begin"})
        where.append((n, -1))
        for i, e in enumerate(es):
            ev.append(e)
            where.append((n, i))
    rej, r = complete("FreshTrace", "FreshTrace.cfg", ev, "%s-%s" % (ck.prop, name))
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.add("traces_validated_against_impl", len(hists))
    ck.add("operations_judged", len(ev) - len(hists))
    for x in rej:
        n, i = where[x["line"] - 1]
        es, rep = hists[n]
        e = {k: (v if len(str(v)) < 300 else str(v)[:300]) for k, v in es[i].items()}
        ck.violation("%s: the draws of %s are not fresh" % (about, json.dumps(e)), {"event": es[i], "history": rep, "events": es[:i + 1] if len(es) < 200 else es[max(0, i - 5):i + 1]})
    if hists:
        ck.sample({"about": about, "events": [{k: v for k, v in e.items() if len(str(v)) < 400} for e in hists[0][0][:4]]})


DESIGNS = {"fresh": True, "thread": True, "locked": True, "racy": False, "constant": False, "forked": False,
           "derived": False, "copied": False, "stored": False}


def c07(ck):
    r = rng("C07")
    ck.assumptions = ["draws coincide by chance with negligible probability (61 bits in the transparent group, 96-bit nonces)",
                      "keys whose policy needs a single share carry no randomness",
                      "in the real group discrete logarithms hide what was drawn: there, outputs must differ; the numbers themselves are looked at in the transparent group and for scalars"]
    for d, good in DESIGNS.items():
        m = tlc("MCFresh", "MCFresh_%s.cfg" % d, ok_codes=(0,) if good else (12,))
        ck.add("states", m.distinct)
        ck.add("transitions", m.states)
        ck.add("model_states", m.distinct)
    ck.put("designs_told_apart", len(DESIGNS))
    g = tlc("MCFresh", "MCFresh.cfg")
    ck.add("states", g.distinct)
    ck.add("transitions", g.states)
    ck.add("model_states", g.distinct)
    hists = tagged(g, "SEQ")
    hists.sort(key=json.dumps)
    ck.add("histories_enumerated", len(hists))
    pick = r.sample(hists, size(240, 3000))
    # every operation next to itself, next to a restart, and on many threads
    ops = ["msg", "encrypt", "hdr", "ukey", "delegate", "master"]
    o = lambda op, t=1, same=True, **k: dict({"op": op, "t": t, "same": same}, **k)  # noqa
    extra = [[o(x), o(x), o("restart"), o(x), o(x, 2)] for x in ops]
    extra += [[o(x, 2, threads=8, rep=3)] for x in ops] + [[o(x), o(x, 2, threads=4, rep=2), o("restart"), o(x, 2, threads=4, rep=2)] for x in ops]
    extra += [[o(q, r.choice([1, 2]), r.random() < 0.6) for q in r.choices(ops, k=size(16, 30))] for _ in range(size(12, 100))]
    first = len(pick) + len(extra)
    extra += [[o(q, r.choice([1, 1, 2]), r.random() < 0.6) for q in r.choices(["ukey", "delegate", "encrypt", "hdr"], k=10)] for _ in range(size(24, 300))]
    widest = first + size(24, 300)
    extra += [[o(q) for q in r.sample(["ukey", "ukey", "delegate", "encrypt"], 4)] for _ in range(size(5, 40))]
    harness()

    def one(_, item):
        n, h = item
        q = random.Random(SEED * 7919 + n)
        run = Run(q, (25, 33, 45, 65, 70)[n % 5] if n >= widest else q.randint(5, 18) if n >= first else 0)
        try:
            run.begin()
            run.play(h)
        finally:
            run.stop()
        return n, run.dead, run.ev, run.log
    allh = pick + extra
    out = [None] * len(allh)
    for n, dead, ev, lg in pool_map(one, list(enumerate(allh)), [harness(), "toyl"]):
        if dead:
            ck.violation("the process ended with %s" % dead, {"history": lg})
        out[n] = (ev, lg)
    judge(ck, "toy", "operations in the transparent group", out)
    pool = []
    many(ck, pool)
    # no number of any process in another: all that was drawn
    for ev, _ in out:
        for e in ev:
            if e["op"] == "master":
                pool += e["t"] + [e["y"]]
            elif e["op"] in ("ukey", "delegate") and len(e["u"]) > 1:
                pool += e["u"][:-1]
            elif e["op"] == "encrypt":
                pool += [e["s"]] + ([] if e["given"] else [e["g"]])
            elif e["op"] == "msg":
                pool.append(e["g"])
    ck.add("numbers_drawn", len(pool))
    whole = [{"op": "pool", "w": [str(x) for x in pool]}]
    for k in ("nonce", "key"):
        whole.append({"op": "pool", "w": [x for ev, _ in out for e in ev if e["op"] == "bytes" and e["kind"] == k for x in e["w"]]})
    sp = lambda kind, l, least, bits=8, odd=0: {"op": "spread", "kind": kind, "w": l, "least": least, "bits": bits, "odd": odd}  # noqa
    raw = lambda l: [list(sum(x[i] << (13 * i) for i in range(5)).to_bytes(8, "big")) for x in l]  # noqa
    whole.append(sp("numbers", raw(r.sample(pool, 300)), 16, 5, 1))
    real(ck, r, whole)
    stopped(ck, r)
    judge(ck, "whole", "everything drawn in the run", [([e], e) for e in whole])


def many(ck, pool):
    """thousands of draws in one process"""
    run = Run(random.Random(SEED))
    try:
        run.begin()
        for what, rep in (("msg", size(40000, 80000)), ("encrypt", size(25000, 60000)), ("ukey", size(1500, 8000)), ("master", size(400, 3000))):
            at, ap = [A("F", "a")], run.formula(True)
            o = run.call([{"op": "par", "threads": 4, "rep": rep, "what": what, "p": "p", "m": "m", "k": "k", "g": "g", "attrs": at, "ap": ap}])
            if not o:
                ck.violation("the process ended with %s" % run.dead, {"history": run.log})
                return
            t = run.t["m"]
            for b in [bytes.fromhex(w) for l in o[0]["out"] for w in l if not w.startswith("err")]:
                x = Rd(b)
                if what == "msg":
                    l = [x.el()]
                elif what == "encrypt":
                    g = [x.u32() for _ in range(x.u32())]
                    l = [x.vec()[0] * pow(t[g[0]], Q - 2, Q) % Q]
                elif what == "master":
                    l = x.vec() + [x.el()]
                else:
                    l = x.vec()[:2]     # two shares of three: as unpredictable as what was drawn
                pool += [limbs(v) for v in l]
    finally:
        run.stop()


def real(ck, r, whole):
    """byte strings of the real group, the hybrid layer and the interfaces"""
    draws, apart = {}, []

    def add(kind, *w):
        draws.setdefault(kind, []).extend(w)

    def group(_, n):
        p = Proc([harness(), "bls"])
        d = []
        try:
            for i in range(size(60, 400)):
                d.append(("scalar", p.call({"op": "g", "f": "sc_rand", "d": "s"})["w"]))
                if i % 4 == 0:
                    d.append(("gt", p.call({"op": "g", "f": "gt_rand", "d": "s"})["w"]))
            h = [{"op": "policy", "p": "p", "max": 8}, {"op": "axis", "p": "p", "name": "F", "attrs": list("abc"), "hier": False}]
            for m in range(3):
                h += [{"op": "master", "p": "p", "m": "m"}, {"op": "bytes", "kind": "msk", "id": "m"}, {"op": "bytes", "kind": "mpk", "id": "m"}]
            a = [attr(A("F", x)) for x in "abc"]
            h += [{"op": "msg", "g": "g"}]
            for i in range(4):
                h += [{"op": "ukey", "k": "k", "p": "p", "m": "m", "ap": conj(*a)}, {"op": "bytes", "kind": "key", "id": "k"},
                      {"op": "delegate", "k": "k2", "src": "k", "p": "p", "m": "m", "ap": ["all"]}, {"op": "bytes", "kind": "key", "id": "k2"},
                      {"op": "encrypt", "c": "c", "p": "p", "m": "m", "g": "g", "attrs": [A("F", "a"), A("F", "b")]}, {"op": "bytes", "kind": "ct", "id": "c"},
                      {"op": "msg", "g": "g2"}]
            for w in ("hdr", "encrypt", "msg", "blk", "ukey"):
                h.append({"op": "par", "threads": 4, "rep": 2, "what": w, "p": "p", "m": "m", "k": "k", "g": "g", "attrs": [A("F", "c")], "ap": conj(*a)})
            o = p.call({"op": "batch", "cmds": h}, 240)["out"]
            for c, x in zip(h, o):
                if x["res"] != "ok":
                    raise ToolError("C07: %s %s" % (c, x))
                if c["op"] == "bytes":
                    take(d, c["kind"], bytes.fromhex(x["hex"]))
                elif c["op"] == "msg":
                    d.append(("gt", x["w"]))
                elif c["op"] == "par":
                    for w in [w for l in x["out"] for w in l]:
                        if w.startswith("err") or w == "panic":
                            raise ToolError("C07: %s: %s" % (c["what"], w))
                        take(d, {"encrypt": "ct", "ukey": "key"}.get(c["what"], c["what"]), bytes.fromhex(w))
            # many blocks under one key
            o = p.call({"op": "par", "threads": 4, "rep": size(8000, 30000), "what": "blk", "p": "p", "m": "m", "k": "k", "g": "g", "attrs": [], "ap": a[0]}, 240)
            for w in [w for l in o["out"] for w in l]:
                d.append(("nonce", w[:24]))
        finally:
            p.stop()
        return d

    def take(d, kind, b):
        if kind == "msk":
            n = struct.unpack(">I", b[:4])[0]
            d += [("scalar", b[4 + 32 * i:36 + 32 * i].hex()) for i in range(n + 1)]
        elif kind == "mpk":
            n = struct.unpack(">I", b[:4])[0]
            d += [("g2", b[4 + 48 * i:52 + 48 * i].hex()) for i in range(n)] + [("gt", b[4 + 48 * n:].hex())]
        elif kind == "key":
            n = struct.unpack(">I", b[:4])[0]
            d += [("g3", b[4 + 96 * i:100 + 96 * i].hex()) for i in range(n)]
        elif kind == "ct":
            n = struct.unpack(">I", b[:4])[0]
            o = 8 + 4 * n
            d += [("g2", b[o + 48 * i:o + 48 + 48 * i].hex()) for i in range(n)] + [("gt", b[o + 48 * n:].hex())]
        elif kind == "msg":
            d.append(("gt", b.hex()))
        elif kind == "hdr":
            n = struct.unpack(">I", b[:4])[0]
            d.append(("key", b[4:4 + n].hex()))
            apart.append([b[4:4 + n].hex(), b[4 + n:].hex()])
            header(d, b[4 + n:])
        elif kind == "blk":
            d.append(("nonce", b[:12].hex()))

    def header(d, b):
        n = struct.unpack(">I", b[:4])[0]
        take(d, "ct", b[4:4 + n])
        if len(b) > 4 + n:
            d.append(("nonce", b[4 + n:16 + n].hex()))

    def bulk():
        """tens of thousands of each kind: they do not come from few seeds"""
        p = Proc([harness(), "bls"])
        try:
            for what, n in (("sc", size(12000, 40000)), ("vec", size(3000, 10000)), ("gt", size(700, 8000))):
                x = p.call({"op": "g", "f": "bulk", "what": what, "threads": 8, "n": n}, 300)
                if x["res"] != "ok":
                    raise ToolError("C07: %s" % str(x)[:300])
                add("head of " + {"vec": "sc"}.get(what, what), *x["out"])
        finally:
            p.stop()
    bulk()
    for d in pool_map(group, list(range(size(4, 16))), [harness(), "bls"]):
        for k, w in d:
            add(k, w)
    # through every interface: the same keys, the same inputs, in several processes
    hs = []
    pol = [{"op": "declare", "p": "p", "max": 6, "axes": [{"name": "F", "attrs": ["a", "b"], "hier": False}], "via": "rust"},
           {"op": "master", "p": "p", "m": "m", "via": "rust"}]
    f = Iface()
    try:
        bad = [x for x in [f.do(c) for c in pol] if x["res"] != "ok"]
        if bad:
            raise ToolError("C07: %s" % bad)
        base = dict(f.B)
    finally:
        f.stop()
    ab = conj(attr(A("F", "a")), attr(A("F", "b")))
    vias = ["py", "wasm", "wasmc", "c", "cc", "rust"]
    pymod()
    wasmmod()

    def through(item):
        via = item
        f = Iface()
        d = []
        try:
            f.B = dict(base)
            hv = {"cc": "c", "wasmc": "wasm"}.get(via, via)
            cmds = []
            for i in range(size(4, 12)):
                cmds.append({"op": "hdr_enc", "h": "h%d" % i, "p": "p", "m": "m", "attrs": [A("F", "a")], "via": via,
                             "meta": {"uid": {"hex": "aa"}, "ad": None if hv == "wasm" else {"hex": "bb"}}})
                cmds.append({"op": "ukey", "k": "k%d" % i, "p": "p", "m": "m", "ap": ab, "via": hv})
            cmds.append({"op": "master", "p": "p", "m": "n0", "via": hv})
            cmds.append({"op": "master", "p": "p", "m": "n1", "via": hv})
            for c in cmds:
                x = f.do(c)
                if x["res"] != "ok":
                    log("C07: %s: %s" % (c, str(x)[:300]))      # that it works is for C17 to say
                    ck.add("not_done_through_" + via)
            for n, b in f.B.items():
                if n in base:
                    continue
                if n.endswith(".hdr"):
                    header(d, b)
                    apart.append([f.B[n[:-4] + ".key"].hex(), b.hex()])
                elif n.endswith(".key"):
                    d.append(("key", b.hex()))
                elif n.endswith(".msk"):
                    take(d, "msk", b)
                elif n.startswith("k"):
                    take(d, "key", b)
            for i in range(size(8, 40)):
                x, b = f.block("encrypt", hv, bytes(range(32)), b"u", 0, b"data", 0)
                if b is None:
                    ck.add("not_done_through_" + via)
                    continue
                d.append(("nonce", b[:12].hex()))
                apart.append([bytes(range(32)).hex(), b.hex()])
        finally:
            f.stop()
        return via, d
    got = {}
    for via, d in threaded(through, [v for v in vias for _ in range(2)]):
        for k, w in d:
            add(k, w)
        got[via] = got.get(via, 0) + len(d)
    ck.put("drawn_through", got)
    whole.append({"op": "apart", "w": apart})
    for k in sorted(draws):
        l = draws[k]
        ck.add("strings_drawn", len(l))
        for i in range(0, 1):
            whole.append({"op": "pool", "kind": k, "w": l})
    fresh = lambda l: [list(bytes.fromhex(w)) for w in r.sample(l, min(len(l), 300))]  # noqa
    sp = lambda kind, l, least, bits=8, odd=0: {"op": "spread", "kind": kind, "w": l, "least": least, "bits": bits, "odd": odd}  # noqa
    whole.append(sp("scalar", fresh(draws["scalar"]), 40, 7, 32))
    whole.append(sp("nonce", fresh(draws["nonce"]), 60))
    if len(draws["key"]) >= 60:
        whole.append(sp("key", fresh(draws["key"]), 16))


def stopped(ck, r):
    """two calls of the C interface on two threads of the instrumented library, one stopped inside the other"""
    from .ffi import material, blobs
    m = material()
    buf = {"cap": 4096}
    at = cstr(jattrs([A("F", "a")]))
    p = Proc([harness(), "bls"])
    try:
        ap = p.call({"op": "ap_json", "ap": conj(attr(A("F", "a")), attr(A("F", "b")))})["text"]
    finally:
        p.stop()
    calls = {
        "header": {"fn": "enc_header", "in": {"policy": {"ref": "p0"}, "pk": {"ref": "m0.mpk"}, "attrs": at, "uid": {"text": "u"}, "ad": None},
                   "out": {"sk": dict(buf), "hdr": dict(buf)}},
        "block": {"fn": "enc_block", "in": {"key": {"ref": "A.sk"}, "uid": {"text": "u"}, "data": {"text": "data"}}, "num": 0, "out": {"out": dict(buf)}},
        "key": {"fn": "ukey", "in": {"msk": {"ref": "m0.msk"}, "ap": cstr(ap), "policy": {"ref": "p0"}}, "out": {"out": dict(buf)}}}
    plans = []
    for a in sorted(calls):
        for b in sorted(calls):
            for k in range(size(12, 60)):
                plans.append((a, b, [[0, k], [1, r.choice([1, 2, 4, 8, 99999, 99999])], [0, r.choice([1, 3, 99999])]]))
    harness_sched()
    parts = [plans[i::12] for i in range(12)]

    def one(_, item):
        n, part = item
        p = Proc([harness_sched(), "bls"])
        ev, did = [], []
        try:
            p.call({"op": "batch", "cmds": blobs("p0", "m0.mpk", "m0.msk", "A.sk")}, 60)
            for a, b, plan in part:
                # each thread calls twice
                c = {"op": "conc", "threads": [[calls[a], calls[a]], [calls[b], calls[b]]], "plan": plan}
                x = p.call(c, 60)
                did.append((a, b, plan))
                if x["res"] != "ok":
                    return n, x["res"], ev, did
                for q in [q for l in x["out"] for q in l]:
                    if q["rc"] != 0:
                        raise ToolError("C07: %s" % str(q)[:300])
                    o = {k: bytes.fromhex(v["hex"]) for k, v in q["out"].items()}
                    if "hdr" in o:
                        h = o["hdr"]
                        l = int.from_bytes(h[:4], "big")
                        ev.append({"op": "bytes", "kind": "key", "w": [o["sk"].hex()]})
                        ev.append({"op": "bytes", "kind": "nonce", "w": [h[4 + l:16 + l].hex()]})
                        ev.append({"op": "bytes", "kind": "element", "w": [h[4 + 12:4 + 60].hex()]})
                    elif len(o["out"]) == 28 + 4:
                        ev.append({"op": "bytes", "kind": "nonce", "w": [o["out"][:12].hex()]})
                    else:
                        ev.append({"op": "bytes", "kind": "share", "w": [o["out"][4 + 96 * i:100 + 96 * i].hex() for i in range(2)]})
        finally:
            p.stop()
        return n, "ok", ev, did
    hs = []
    for n, how, ev, did in pool_map(one, list(enumerate(parts)), [harness(), "bls"]):
        if how != "ok":
            ck.violation("stopped calls: the process ended with %s" % how, {"runs": did[-3:]})
        hs.append((ev, did))
    ck.add("schedules_explored", len(plans))
    judge(ck, "stopped", "a call stopped inside another thread's", hs)


def threaded(fn, items, n=8):
    q = queue.Queue()
    for x in items:
        q.put(x)
    out, errs = [], []

    def work():
        while not errs:
            try:
                x = q.get_nowait()
            except queue.Empty:
                return
            try:
                out.append(fn(x))
            except BaseException as e:  # noqa
                errs.append(e)
    ts = [threading.Thread(target=work) for _ in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out


c07.level = "model_checking"
