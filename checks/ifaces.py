"""C17 interoperability of the interfaces, C21 policies through the interfaces."""
from lib.iface import *  # noqa

MASTER = ("rust", "c", "py", "wasm")
HDR = ("rust", "c", "cc", "py", "wasm", "wasmc")
ASSUME = ["AES-GCM is taken to be unforgeable and BLS12-381 to be what its crate says",
          "attribute names without separators, quotes or surrounding blanks (what every interface can express)"]


def size(q, t):
    return t if THOROUGH else q


class Scene:
    """a random policy and its authorities, made through random interfaces"""

    def __init__(self, r, plain=0.6, vias=MASTER, axes=(1, 3), attrs=(1, 4), slack=None):
        self.r, self.h = r, []
        g = self.g = PolGen(r)
        g.setup(axes, attrs, slack=slack)
        if r.random() < plain:
            g.axes = [("Ax%d" % i, ["n%d_%d" % (i if r.random() < 0.5 else 0, j) for j in range(len(ns))], hh)
                      for i, (_, ns, hh) in enumerate(g.axes)]
        self.vias = vias
        self.h.append({"op": "declare", "via": r.choice([v for v in ("rust", "py") if v in vias] or ["rust"]), "p": "p",
                       "max": g.max, "axes": [{"name": a, "attrs": ns, "hier": hh} for a, ns, hh in g.axes]})
        self.hdrs, self.mails, self.blks, self.keys, self.fs = [], [], [], [], []

    def via(self, among=None):
        return self.r.choice([v for v in (among or self.vias) if v[:1] in {x[:1] for x in self.vias}])

    def do(self, op, **kw):
        kw["op"] = op
        kw.setdefault("via", self.via())
        self.h.append(kw)

    def rotate(self, q="p", good=0.85):
        g, r = self.g, self.r
        n = r.choice([1, 1, 2, 2, 3, 4])
        as_ = [r.choice(g.attrs()) for _ in range(n)]
        if r.random() > good:
            as_.insert(r.randint(0, n), r.choice([A("No", "such"), A(g.axes[0][0], "none"), A(g.attrs()[0][1], g.attrs()[0][0])]))
        known = [a for a in as_ if a in g.attrs()]
        if q == "p" and len(known) == len(as_) and len(as_) <= g.room():
            g.used += len(as_)
        self.do("rotate_all", p="p", q=q, attrs=as_)
        return as_

    def master(self, m="m", via=None):
        self.do("master", p="p", m=m, via=via or self.via())
        return self.h[-1]["via"]

    def key(self, k, f, m="m"):
        v = self.via([x for x in self.vias if x in ("rust", "c")] if f[0] == "all" else self.vias)
        self.do("ukey", k=k, p="p", m=m, ap=f, via=v)
        self.keys.append(k)
        self.fs.append(f)

    def meta(self, v):
        r = self.r
        uid = r.choice([b"u", b"uid-%d" % r.randrange(100), bytes(range(16)), b"\x00" * 3, b""])
        ad = r.choice([None, b"", b"data", bytes(200)])
        if r.random() < 0.12:
            uid = r.randbytes(r.choice([17, 32, 33, 127, 128, 255, 256, 257, 4096, 4097, 65536, 70000]))
        if r.random() < 0.12:
            ad = r.randbytes(r.choice([16, 32, 127, 128, 255, 256, 257, 4096, 4097, 65535, 65536, 70000]))
        if v.startswith("wasm"):
            ad = None
            if v == "wasm" and uid == b"":
                uid = b"u"
        return uid, ad

    def header(self, h, attrs, m="m", vias=HDR):
        v = self.via(vias)
        uid, ad = self.meta(v)
        if v == "rust" and self.r.random() < 0.2:
            uid = ad = None
        c = hdr_enc(h, attrs, uid, ad, m=m)
        c["via"] = v
        self.h.append(c)
        self.hdrs.append((h, uid or b""))

    def open(self, h, k, vias=HDR):
        c = hdr_dec(self.r, k, ref(h) if isinstance(h, str) else h)
        c["via"] = self.via(vias)
        self.h.append(c)

    def block(self, b, h, uid, num, data):
        c = blk_enc(b, {"ref": h + ".key"}, uid, num, data)
        c["via"] = self.via(MASTER)
        self.h.append(c)
        self.blks.append((b, h, uid, num))

    def unblock(self, b, h, uid, num):
        c = blk_dec(self.r, ref(b) if isinstance(b, str) else b, {"ref": h + ".key"}, uid, num)
        c["via"] = self.via(MASTER)
        self.h.append(c)

    def mail(self, c, attrs, data, m="m", vias=HDR):
        v = self.via(vias)
        uid, ad = self.meta(v)
        x = msg_enc(c, attrs, uid, ad, data, m=m)
        x["via"] = v
        self.h.append(x)
        self.mails.append(c)

    def read(self, rec, k, vias=HDR):
        x = msg_dec(self.r, k, ref(rec) if isinstance(rec, str) else rec)
        x["via"] = self.via(vias)
        self.h.append(x)

    def hsize(self, rec, via=None):
        x = hdr_size(self.r, ref(rec) if isinstance(rec, str) else rec)
        x["via"] = via or self.via(("c", "py", "wasm"))
        self.h.append(x)


def check_iface(ck, hs, name, keep=lambda j: True):
    t = time.time()
    res = run_iface(hs)
    for h, rs in zip(hs, res):
        for c, x in zip(h, rs):
            ck.add("calls_%s" % c.get("via", "rust"))
            if x["res"] in ("overrun", "crash", "hang", "panic"):
                ck.add("crashes")
    log("%s: %d histories, %d calls in %.1fs" % (name, len(hs), sum(map(len, hs)), time.time() - t))
    return check_hybrid(ck, hs, "bls", name, keep, results=res)


def interop(r, rich=1):
    s = Scene(r)
    for _ in range(r.choice([0, 0, 1, 2])):
        s.rotate()
    v = s.master()
    if r.random() < 0.5:
        s.master("n")
    g = s.g
    for i in range(r.randint(1, 2 * rich)):
        f = g.formula(4, r.choice([0.3, 0.5, 0.8]))
        s.key("k%d" % i, f)
    if r.random() < 0.4 and {"op": "master", "via": "x"} and any(c["op"] == "master" and c["m"] == "n" for c in s.h):
        s.key("kn", s.fs[0], "n")
    if v in ("py", "rust") and r.random() < 0.6:
        f = s.fs[0]
        rearr = ["and", f[2], f[1]] if f[0] == "and" else f
        ap = r.choice([f, rearr])
        s.do("delegate", k="kd", p="p", m="m", src="k0", ap=ap, via="rust" if ap[0] == "all" else s.via(("rust", "py")))
        s.keys.append("kd")
    n = 0
    for f in s.fs[:2]:
        for as_ in g.near(f)[:2]:
            h = "h%d" % n
            s.header(h, as_)
            for k in r.sample(s.keys, min(2, len(s.keys))):
                for _ in range(2):
                    s.open(h, k)
            c = "c%d" % n
            s.mail(c, as_, bytes(r.randrange(256) for _ in range(r.choice([1, 2, 15, 16, 17, 100, 3000, 4097, 70000]))))
            s.hsize(c)
            for k in r.sample(s.keys, min(2, len(s.keys))):
                s.read(c, k)
            n += 1
        if r.random() < 0.4:
            s.rotate()
    # blocks of some headers
    for h, uid in s.hdrs[:2]:
        for j in range(2):
            b = "b%s%d" % (h, j)
            num = r.choice([0, 1, 255, 256, 65535, (1 << 31) - 1])
            s.block(b, h, uid, num, bytes(r.randrange(256) for _ in range(r.choice([1, 16, 100]))) if j else r.choice([1, 5, 1000]))
            for _ in range(2):
                s.unblock(b, h, uid, num)
            s.unblock(b, h, uid, num + 1 if num < (1 << 31) - 1 else 0)
            s.unblock(b, r.choice(s.hdrs)[0], uid + b"x", num)
    # complete messages cut, altered, exchanged
    c, d = r.choice(s.mails), r.choice(s.mails)
    k = r.choice(s.keys)
    for rec in (cut(ref(c), S(0), N(-1)), cut(ref(c), S(0), E(0)), cut(ref(c), S(0), E(-1)), xor(ref(c), S(r.randint(0, 3))),
                cat(cut(ref(c), S(0), E(0)), cut(ref(d), E(0), N(0))), cut(ref(c), S(0), S(r.randint(0, 7))),
                xor(ref(c), E(0)), xor(ref(c), N(-1)), cat(ref(c), junk(1))):
        s.read(rec, k)
    s.hsize(cut(ref(c), S(0), S(r.choice([0, 1, 2, 3]))), r.choice(["py", "wasm"]))
    s.hsize(cut(ref(c), S(0), S(4)))
    s.hsize(cut(ref(c), S(0), S(r.randint(5, 40))))
    # attributes that do not exist
    s.header("hbad", [A("No", "such")])
    s.mail("cbad", [g.attrs()[0], A(g.axes[0][0], "none")], b"x")
    s.mail("cempty", [g.attrs()[0]], b"")
    return s.h


def pairwise(r):
    """one scene; every producing interface against every consuming one"""
    h = [{"op": "declare", "via": "py", "p": "p", "max": 8,
          "axes": [{"name": "Sec", "attrs": ["Lo", "Mid", "Hi"], "hier": True}, {"name": "Dep", "attrs": ["R", "S"], "hier": False}]},
         {"op": "rotate_all", "via": "wasm", "p": "p", "q": "p", "attrs": [A("Dep", "R")]}]
    ap = ["and", attr(A("Sec", "Mid")), ["or", attr(A("Dep", "R")), attr(A("Dep", "S"))]]
    hs = []
    for mv in MASTER:
        g = list(h) + [{"op": "master", "via": mv, "p": "p", "m": "m"}]
        for kv in MASTER:
            g.append({"op": "ukey", "via": kv, "p": "p", "m": "m", "k": "k" + kv, "ap": ap})
            g.append({"op": "ukey", "via": kv, "p": "p", "m": "m", "k": "u" + kv, "ap": attr(A("Sec", "Lo"))})
        hv = HDR if mv == "c" else [r.choice(HDR)]
        for v in hv:
            as_ = [A("Sec", "Mid"), A("Dep", "R")]
            c = hdr_enc("h" + v, as_, b"uid", None)
            c["via"] = v
            g.append(c)
            c = msg_enc("c" + v, as_, b"uid", None, b"plain " + v.encode())
            c["via"] = v
            g.append(c)
            for w in HDR:
                for k in ("k", "u"):
                    x = hdr_dec(r, k + r.choice(MASTER), ref("h" + v))
                    x["via"] = w
                    g.append(x)
                x = msg_dec(r, "k" + r.choice(MASTER), ref("c" + v))
                x["via"] = w
                g.append(x)
            for w in ("c", "py", "wasm"):
                x = hdr_size(r, ref("c" + v))
                x["via"] = w
                g.append(x)
        if mv == "py":
            for v in MASTER:
                for num in (0, 3):
                    c = blk_enc("b%s%d" % (v, num), {"ref": "h%s.key" % hv[0]}, b"uid", num, b"data " + v.encode())
                    c["via"] = v
                    g.append(c)
                    for w in MASTER:
                        x = blk_dec(r, ref("b%s%d" % (v, num)), {"ref": "h%s.key" % hv[0]}, b"uid", num)
                        x["via"] = w
                        g.append(x)
        hs.append(g)
    return hs


def by_size(r, sizes):
    """uids, additional data, plaintexts and blocks whose lengths are just at and around what 8 and 16 bits hold, through every interface"""
    hs = []
    fill = lambda n: bytes((i * 7 + n) % 256 for i in range(n))
    for v in HDR:
        for n in sizes:
            g = [{"op": "declare", "via": "rust", "p": "p", "max": 4, "axes": [{"name": "A", "attrs": ["a", "b"], "hier": False}]},
                 {"op": "master", "via": "rust", "p": "p", "m": "m"}, {"op": "ukey", "via": "rust", "p": "p", "m": "m", "k": "k", "ap": attr(A("A", "a"))}]
            for i, (uid, ad) in enumerate(((n, None), (3, n), (n, n))):
                if ad and v.startswith("wasm"):
                    continue
                c = hdr_enc("h%d" % i, [A("A", "a")], fill(uid), fill(ad) if ad else None)
                c["via"] = v
                g.append(c)
                for w in (v, r.choice(HDR)):
                    x = hdr_dec(r, "k", ref("h%d" % i))
                    x["via"] = w
                    g.append(x)
            x = msg_enc("c", [A("A", "a")], fill(5), None, fill(n))
            x["via"] = v
            g.append(x)
            for w in (v, r.choice(HDR)):
                x = msg_dec(r, "k", ref("c"))
                x["via"] = w
                g.append(x)
            w = {"cc": "c", "wasmc": "wasm"}.get(v, v)
            for j, (uid, dn) in enumerate(((fill(n), 5), (b"u", n))):
                c = blk_enc("b%d" % j, {"ref": "h0.key"}, uid, n, fill(dn))
                c["via"] = w
                g.append(c)
                for y in (w, r.choice(MASTER)):
                    x = blk_dec(r, ref("b%d" % j), {"ref": "h0.key"}, uid, n, cmp=fill(dn))
                    x["via"] = y
                    g.append(x)
            hs.append(g)
    return hs


def budgets(r, sizes):
    """larger budgets: the last value of each, through the master keys of every interface"""
    hs = []
    for n in sizes:
        for v in MASTER:
            a, b = A("A", "a"), A("A", "b")
            g = [{"op": "declare", "via": r.choice(["rust", "py"]), "p": "p", "max": n, "axes": [{"name": "A", "attrs": ["a", "b"], "hier": r.random() < 0.5}]},
                 {"op": "master", "via": v, "p": "p", "m": "m"},
                 {"op": "rotate_all", "via": r.choice(["c", "py", "wasm"]), "p": "p", "q": "p", "attrs": [a] * 3 + [b] * (n - 5)}]
            for i, as_ in enumerate(([b], [a])):
                for w in (v, r.choice(MASTER)):
                    g.append({"op": "ukey", "via": w, "p": "p", "m": "m", "k": "k%d%s" % (i, w), "ap": attr(as_[0])})
                    w = w if w != "rust" or v != "c" else r.choice(HDR)
                    c = hdr_enc("h%d%s" % (i, w), as_, b"u", None)
                    c["via"] = w
                    g.append(c)
                    for k in [x["k"] for x in g if x["op"] == "ukey"][-2:]:
                        x = hdr_dec(r, k, ref("h%d%s" % (i, w)))
                        x["via"] = r.choice(HDR)
                        g.append(x)
            hs.append(g)
    return hs


def long_blocks(r, sizes):
    """blocks far longer than any message of the tests, encrypted through every interface and opened through every interface"""
    hs = []
    for n in sizes:
        for v in MASTER:
            c = hdr_enc("h", [A("A", "a")], b"u", None)
            c["via"] = "rust"
            g = [{"op": "declare", "via": "rust", "p": "p", "max": 4, "axes": [{"name": "A", "attrs": ["a", "b"], "hier": False}]},
                 {"op": "master", "via": "rust", "p": "p", "m": "m"}, c]
            c = blk_enc("b", {"ref": "h.key"}, b"u", r.choice([0, 1, 70000]), n)
            c["via"] = v
            g.append(c)
            for w in MASTER:
                x = blk_dec(r, ref("b"), {"ref": "h.key"}, b"u", c["num"], cmp=n)
                x["via"] = w
                g.append(x)
            hs.append(g)
    return hs


def c17(ck):
    r = rng("C17")
    ck.assumptions = ASSUME
    ck.put("rule", "every producer against every consumer once; random policies, rotations, keys, delegations, headers, blocks and messages with every call through an interface drawn at random")
    check_iface(ck, pairwise(r) + by_size(r, size((256, 65535, 65536, 65537), (255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 131072))) +
                budgets(r, size((108, 270), (101, 130, 270, 1030))) +
                long_blocks(r, size(((1 << 18) + 1, (1 << 21) + 1), ((1 << 17) + 1, (1 << 19) + 1, (1 << 21) + 1, (1 << 23) + 1, (1 << 24) + 1))) + [interop(r) for _ in range(size(60, 800))], "C17")


# ---------------------------------------------------------------------------


def policies(r, n):
    """declarations and rotations, legal and not, dumped after each"""
    s = Scene(r, axes=(1, 4), attrs=(1, 4), slack=r.choice([0, 1, 2, 3, 6, 12, 1000, 2000000000]))
    s.do("policy_dump", p="p", via="rust")
    g = s.g
    i = 0
    for _ in range(n):
        q = r.choice(["p", "p", "q%d" % i])
        i += 1
        s.rotate(q, 0.75)
        s.do("policy_dump", p="p", via="rust")
        if q != "p":
            s.do("policy_dump", p=q, via="rust")
        x = r.random()
        if x < 0.3:     # exactly the budget, and one more
            room = g.room()
            if room <= 40:
                s.do("rotate_all", p="p", q="x%d" % i, attrs=[r.choice(g.attrs()) for _ in range(room)])
                s.do("policy_dump", p="x%d" % i, via="rust")
                s.do("rotate_all", p="p", q="y%d" % i, attrs=[r.choice(g.attrs()) for _ in range(room + 1)])
                s.do("policy_dump", p="y%d" % i, via="rust")
        elif x < 0.4:
            s.do("rotate_all", p="p", q="e%d" % i, attrs=[])
            s.do("policy_dump", p="e%d" % i, via="rust")
        elif x < 0.5:
            a = r.choice(g.attrs())
            s.do("rotate_all", p="p", q="t%d" % i, attrs=[a] * r.randint(2, 5))
            s.do("policy_dump", p="t%d" % i, via="rust")
    return s.h


def declarations(r, n):
    h = []
    for i in range(n):
        g = PolGen(r)
        g.setup((0, 5), (0, 4), slack=r.choice([-3, -1, 0, 0, 1, 5, 1000]))
        axes = [{"name": a, "attrs": ns, "hier": hh} for a, ns, hh in g.axes]
        if axes and r.random() < 0.25:      # an axis twice, with the same or other attributes
            d = dict(r.choice(axes))
            if r.random() < 0.5:
                d["attrs"] = ["other"]
            axes.insert(r.randint(0, len(axes)), d)
        if r.random() < 0.1 and axes and axes[-1]["attrs"]:
            axes[-1] = dict(axes[-1], attrs=axes[-1]["attrs"] + [axes[-1]["attrs"][0]])
        if r.random() < 0.1:
            axes.append({"name": "Empty", "attrs": [], "hier": True})
        mx = max(0, g.max)
        h.append({"op": "declare", "via": "py", "p": "d%d" % i, "max": mx, "axes": axes})
        h.append({"op": "policy_dump", "p": "d%d" % i})
        if axes and r.random() < 0.5:
            a = r.choice(axes)
            if a["attrs"]:
                h.append({"op": "rotate_all", "via": r.choice(MASTER), "p": "d%d" % i, "q": "r%d" % i,
                          "attrs": [[a["name"], r.choice(a["attrs"])] for _ in range(r.randint(1, 3))]})
                h.append({"op": "policy_dump", "p": "r%d" % i})
    return h


def every(r, n_lists):
    """every small declaration, and every short list of rotations on small policies, through every interface"""
    hs, h = [], []

    def flush():
        if h:
            hs.append(list(h))
            h.clear()
    axis = [{"name": x, "attrs": ns, "hier": hh} for x in ("A", "B") for ns in ([], ["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "a"]) for hh in (False, True)]
    decls = [[]] + [[a] for a in axis] + [[a, b] for a in axis for b in axis if not a["hier"] and b["hier"] == (b["name"] == "B")]
    for i, axes in enumerate(decls):
        n = sum(len(a["attrs"]) for a in axes)
        for mx in sorted({0, max(0, n - 1), n, n + 1}):
            h.append({"op": "declare", "via": "py", "p": "d%d_%d" % (i, mx), "max": mx, "axes": axes})
            h.append({"op": "policy_dump", "p": "d%d_%d" % (i, mx)})
        if len(h) > 60:
            flush()
    flush()
    attrs = [A("A", "a"), A("A", "b"), A("B", "a")]
    odd = [A("A", "z"), A("C", "a")]
    lists = [[]] + [[x] for x in attrs + odd] + [[x, y] for x in attrs + odd for y in attrs + odd]
    lists += [[r.choice(attrs + odd[:1]) for _ in range(3)] for _ in range(n_lists)]
    for slack in range(4):
        for v in ("c", "py", "wasm"):
            h.append({"op": "declare", "via": "py", "p": "p", "max": 3 + slack, "axes": [{"name": "A", "attrs": ["a", "b"], "hier": slack % 2 == 0}, {"name": "B", "attrs": ["a"], "hier": False}]})
            for i, x in enumerate(lists):
                h.append({"op": "rotate_all", "via": v, "p": "p", "q": "q%d" % i, "attrs": x})
                h.append({"op": "policy_dump", "p": "q%d" % i})
            h.append({"op": "policy_dump", "p": "p"})
            flush()
    return hs


def long_lists(r):
    """lists of rotations much longer than the policy, the budget met exactly, missed by one, and large"""
    hs = []
    for v in ("c", "py", "wasm"):
        for n in (65, 101, 129, 257, 300 + r.randint(0, 300)):
            axes = [{"name": "A", "attrs": ["a%d" % i for i in range(r.choice([1, 3, 70]))], "hier": r.random() < 0.5}]
            k = len(axes[0]["attrs"])
            h = []
            for j, mx in enumerate((k + n, k + n - 1, r.choice([70000, 2 ** 24, 2 ** 31 - 1]))):
                h.append({"op": "declare", "via": "py", "p": "p%d" % j, "max": mx, "axes": axes})
                x = [A("A", r.choice(axes[0]["attrs"])) for _ in range(n)]
                if j == 2:
                    h.append({"op": "rotate_all", "via": v, "p": "p2", "q": "u", "attrs": x[:-1] + [A("A", "zz")]})
                    h.append({"op": "policy_dump", "p": "u"})
                h.append({"op": "rotate_all", "via": v, "p": "p%d" % j, "q": "q%d" % j, "attrs": x})
                h += [{"op": "policy_dump", "p": y % j} for y in ("p%d", "q%d")]
            hs.append(h)
    # many axes and attributes in one declaration
    for n, m in ((1, 300), (70, 5), (260, 1)):
        axes = [{"name": "X%d" % i, "attrs": ["n%d" % j for j in range(m)], "hier": i % 2 == 0} for i in range(n)]
        h = []
        for j, mx in enumerate((n * m, n * m - 1, n * m + 1)):
            h.append({"op": "declare", "via": "py", "p": "p%d" % j, "max": mx, "axes": axes})
            h.append({"op": "policy_dump", "p": "p%d" % j})
        hs.append(h)
    return hs


def c21(ck):
    m = tlc("MCPolicy", size("MCPolicy.cfg", "MCPolicy_deep.cfg"))
    ck.add("states", m.distinct)
    ck.add("transitions", m.states)
    ck.add("model_states", m.distinct)
    refuted(ck, "MCPolicyBad", ("once", "skipping", "backwards", "partial", "inplace", "replace", "reuse", "over", "under", "again"))
    r = rng("C21")
    ck.assumptions = ASSUME
    ck.put("rule", "whole declarations (duplicates, budgets missed by one, empty axes) and rotation lists (repeats, unknown attributes at every place, exactly the budget and one beyond, empty) through Python, C, WebAssembly and Rust; the policies compared in full after each")
    check_iface(ck, every(r, size(20, 64)) + long_lists(r) + [policies(r, size(12, 20)) for _ in range(size(120, 1500))] + [declarations(r, size(25, 40)) for _ in range(size(60, 600))], "C21")


# ---------------------------------------------------------------------------
# the interfaces' part of the properties of the engine and of the hybrid layer


def refused(j):
    """the specification wanted a refusal"""
    return '{"no"}' in j.spec


def granted(j):
    return j.event["op"] not in ("hdr_dec", "msg_dec") or not refused(j)


def denied(j):
    return j.event["op"] in ("hdr_dec", "msg_dec") and refused(j)


def accesses(r, hier=0.5, axes=(1, 3), vias=MASTER, nkeys=3, rot=0.5):
    s = Scene(r, vias=vias, axes=axes)
    g = s.g
    if r.random() < rot:
        s.rotate(good=1)
    s.master()
    for i in range(r.randint(1, nkeys)):
        s.key("k%d" % i, g.formula(5, r.choice([0.3, 0.5, 0.8])))
    n = 0
    for f in s.fs:
        for as_ in g.near(f)[:3]:
            s.header("h%d" % n, as_)
            for k in s.keys:
                s.open("h%d" % n, k)
            n += 1
        if r.random() < rot / 2:
            s.rotate(good=1)
    return s.h


def levels(r, vias=MASTER):
    """one hierarchical axis and one flat one; a right at each level against data of each level"""
    s = Scene(r, vias=vias, axes=(2, 2), attrs=(2, 4))
    g = s.g
    g.axes = [(a, ns, i == 0) for i, (a, ns, _) in enumerate(g.axes)]
    s.h[0]["axes"] = [{"name": a, "attrs": ns, "hier": hh} for a, ns, hh in g.axes]
    s.master()
    if r.random() < 0.5:
        s.do("rotate_all", p="p", q="p", attrs=[A(g.axes[0][0], r.choice(g.axes[0][1]))])
    f = A(g.axes[1][0], r.choice(g.axes[1][1]))
    for i, n in enumerate(g.axes[0][1]):
        a = attr(A(g.axes[0][0], n))
        s.key("k%d" % i, r.choice([a, a, ["and", a, attr(f)], ["or", attr(f), a]]))
    for i, n in enumerate(g.axes[0][1]):
        s.header("h%d" % i, [A(g.axes[0][0], n)] + ([f] if r.random() < 0.5 else []))
        for k in s.keys:
            s.open("h%d" % i, k)
    s.header("hf", [A(g.axes[1][0], r.choice(g.axes[1][1]))])
    for k in s.keys:
        s.open("hf", k)
    return s.h


def rotating(r, rounds=3):
    s = Scene(r, axes=(1, 2), attrs=(1, 3), slack=12)
    g = s.g
    s.master()
    f = g.formula(3, 0.5, allp=0)
    ls = leaves(f)
    n = 0
    for e in range(rounds):
        s.key("k%d" % e, f)
        for as_ in g.near(f)[:2]:
            s.header("h%d" % n, as_)
            n += 1
        if e < rounds - 1:
            as_ = [r.choice(ls)] + [r.choice(g.attrs()) for _ in range(r.randint(0, 2))]
            r.shuffle(as_)
            s.do("rotate_all", p="p", q="p", attrs=as_)
    for h, _ in s.hdrs:
        for k in s.keys:
            s.open(h, k)
    return s.h


def budgeted(r):
    s = Scene(r, axes=(1, 2), attrs=(1, 2), slack=r.choice([0, 1, 2, 3]))
    g = s.g
    if r.random() < 0.5:
        s.master()
    while g.room() > 0:
        s.do("rotate_all", p="p", q="p", attrs=[r.choice(g.attrs())])
        g.used += 1
    if not any(c["op"] == "master" for c in s.h):
        s.master()
    s.do("rotate_all", p="p", q="p", attrs=[r.choice(g.attrs())])       # beyond
    for i, a in enumerate(g.attrs()):
        s.key("k%d" % i, attr(a))
        s.header("h%d" % i, [a])
    s.key("ka", ["all"])
    for h, _ in s.hdrs:
        for k in s.keys:
            s.open(h, k)
    # an authority made for a smaller budget
    ax = [{"name": a, "attrs": ns, "hier": hh} for a, ns, hh in g.axes]
    tot = sum(len(a["attrs"]) for a in ax)
    s.do("declare", p="q", max=tot, axes=ax, via=s.via(("rust", "py")))
    s.do("declare", p="w", max=tot + 2, axes=ax, via=s.via(("rust", "py")))
    a, b = r.choice(g.attrs()), r.choice(g.attrs())
    s.do("rotate_all", p="w", q="w", attrs=[a, b])
    s.do("master", p="q", m="small")
    s.do("ukey", p="w", m="small", k="ks", ap=attr(a))
    for as_ in ([a], [b], [a, b]):
        c = hdr_enc("hs", as_, b"u", None, p="w", m="small")
        c["via"] = s.via(HDR)
        s.h.append(c)
        s.open("hs", "ks")
    return s.h


def narrower(r, f):
    if f[0] in ("attr", "all"):
        return f
    x = r.random()
    if f[0] == "or" and x < 0.4:
        return narrower(r, f[r.choice([1, 2])])
    a, b = narrower(r, f[1]), narrower(r, f[2])
    return [f[0], b, a] if x > 0.7 else [f[0], a, b]


def delegating(r):
    s = Scene(r, vias=("rust", "py"), axes=(1, 3), attrs=(1, 3))
    g = s.g
    s.master()
    f = g.formula(5, 0.5, allp=0.1)
    s.key("k0", f)
    fs = [f]
    for i in range(1, 4):
        j = r.randrange(len(fs))
        x = r.random()
        ap = narrower(r, fs[j]) if x < 0.7 else g.formula(3, 0.5, allp=0) if x < 0.85 else ["all"]
        v = s.via(("rust", "py")) if ap[0] != "all" else "rust"
        s.do("delegate", k="k%d" % i, p="p", m="m", src="k%d" % j, ap=ap, via=v)
        s.keys.append("k%d" % i)
        fs.append(fs[j] if ap[0] == "all" else ap)
    n = 0
    for f in fs:
        for as_ in g.near(f)[:2]:
            s.header("h%d" % n, as_, vias=("rust", "py", "c"))
            for k in s.keys:
                s.open("h%d" % n, k, vias=("rust", "py", "c"))
            n += 1
    return s.h


def foreign(r):
    s = Scene(r, axes=(1, 2), attrs=(1, 3))
    g = s.g
    s.master("m")
    s.master("n")
    f = g.formula(3, 0.5, allp=0.1)
    for i, m in enumerate("mnmn"):
        s.key("k%s%d" % (m, i), f if i < 2 else g.formula(3), m=m)
    for i, m in enumerate("mn"):
        for j, as_ in enumerate(g.near(f)[:2]):
            s.header("h%s%d" % (m, j), as_, m=m)
            for k in s.keys:
                s.open("h%s%d" % (m, j), k)
    return s.h


def admitted(r):
    s = Scene(r, plain=1, axes=(1, 3), attrs=(1, 4))
    g = s.g
    s.master()
    al = g.attrs()

    def wild(n):
        if n == 1:
            x = r.random()
            a = list(r.choice(al))
            if x < 0.1:
                return attr(["Nope", a[1]])
            if x < 0.2:
                return attr([a[0], "nope"])
            if x < 0.25:
                return attr([a[1], a[0]])
            return attr(a)
        k = r.randint(1, n - 1)
        return [r.choice(["and", "or"]), wild(k), wild(n - k)]
    for i in range(12):
        f = wild(r.randint(1, 4)) if r.random() < 0.7 else g.formula(4)
        s.key("k%d" % i, f)
        as_ = [list(a) for a in r.sample(al, r.randint(1, min(3, len(al))))]
        if r.random() < 0.6:
            as_.insert(r.randint(0, len(as_)), r.choice([["Nope", al[0][1]], [al[0][0], "nope"], [al[0][1], al[0][0]]]))
        s.header("h%d" % i, as_)
        s.open("h%d" % i, "k%d" % i)
    if True:
        f = g.formula(2, allp=0)
        s.do("ukey", k="kx", p="p", m="m", ap=["or", ["all"], f], via=s.via(("rust", "c")))
        s.do("ukey", k="kx", p="p", m="m", ap=["and", f, ["all"]], via=s.via(("rust", "c")))
    return s.h


def headers(r, recipes):
    """recipes(names, kind) -> tampered headers; opened through every interface"""
    s = Scene(r, axes=(1, 1), attrs=(3, 3), slack=0)
    a, b, c = s.g.attrs()
    s.g.axes = [(s.g.axes[0][0], s.g.axes[0][1], False)]
    s.h[0]["axes"][0]["hier"] = False
    s.master()
    s.key("k1", ["or", attr(a), attr(c)])
    s.key("k2", attr(b))
    s.header("a", [a])
    s.header("b", [b])
    s.header("c", [a, c])
    for x in ("a", "b", "c"):
        for k in ("k1", "k2"):
            s.open(x, k)
    for rec in recipes:
        s.open(rec, r.choice(["k1", "k1", "k2"]))
    # metadata of every kind
    for i in range(6):
        s.header("m%d" % i, [r.choice([a, c])])
        for v in r.sample(HDR, 3):
            s.open("m%d" % i, "k1", (v,))
    return s.h


def cuts(r, n, names="abc"):
    out = []
    for _ in range(n):
        x, y = r.choice(names), r.choice(names)
        out.append(r.choice([
            cut(ref(x), S(0), S(r.randint(0, 12))), cut(ref(x), S(0), E(r.randint(-3, 20))), cut(ref(x), S(0), N(-r.randint(1, 20))),
            xor(ref(x), S(r.randint(0, 12))), xor(ref(x), E(r.randint(-60, 30))), xor(ref(x), N(-r.randint(1, 20))),
            cat(cut(ref(x), S(0), E(0)), cut(ref(y), E(0), N(0))), cat(ref(x), junk(r.randint(1, 5))),
            cat(cut(ref(x), S(0), E(12)), cut(ref(y), E(12), N(0))), cat(cut(ref(x), S(0), E(0)), junk(r.randint(1, 40)))]))
    return out


def blocks(r, n=14):
    """blocks through every interface, with other keys, uids and numbers, altered, exchanged"""
    h, made = [], []
    keys = [{"hex": bytes(r.randrange(256) for _ in range(32)).hex()} for _ in range(2)]

    def put(c):
        c["via"] = r.choice(MASTER) if c["num"] >= 0 else "c"      # C's numbers are signed
        h.append(c)
    for i in range(n):
        u = r.choice([b"", b"a", b"ab", b"a" * 16, bytes(8), bytes(7) + b"\x01", r.randbytes(r.choice([33, 129, 256, 257, 1000, 65536, 65600]))])
        num = r.choice([0, 1, 2, 255, 256, 65536, (1 << 31) - 1, (1 << 31) - 1, -1, -256, -(1 << 31)])
        k = r.choice(keys)
        sz = r.choice([0, 1, 2, 15, 16, 17, 100, 1000, 70000])
        put(blk_enc("b%d" % i, k, u, num, sz))
        if sz:
            made.append(("b%d" % i, k, u, num, sz))
        for _ in range(2):
            if not made:
                continue
            b, k2, u2, num2, sz2 = r.choice(made[-3:])
            put(blk_dec(r, ref(b), k2, u2, num2, cmp=sz2))
            put(blk_dec(r, ref(b), r.choice(keys), r.choice([u2, u2 + b"\x00", u2[1:], b"a"]),
                        r.choice([num2, num2 ^ 1, num2 ^ 256, 0]), cmp=sz2))
            if u2:      # everything right but one byte of the uid, or one bit of the number
                at = r.choice([0, len(u2) - 1, r.randrange(len(u2))])
                put(blk_dec(r, ref(b), k2, u2[:at] + bytes([u2[at] ^ r.choice([1, 128])]) + u2[at + 1:], num2, cmp=sz2))
            if num2 >= 0:
                put(blk_dec(r, ref(b), k2, u2, num2 ^ (1 << r.randrange(31)), cmp=sz2))
            o = r.choice(made)[0]
            rec = r.choice([xor(ref(b), S(r.randint(0, 27))), xor(ref(b), N(-r.randint(1, 16))), cut(ref(b), S(0), N(-1)),
                            cut(ref(b), S(0), S(r.randint(0, 28))), cat(ref(b), junk(1)), cut(ref(b), S(1), N(0)),
                            cat(cut(ref(b), S(0), S(12)), cut(ref(o), S(12), N(0))), cat(cut(ref(o), S(0), N(-16)), cut(ref(b), N(-16), N(0)))])
            put(blk_dec(r, rec, k2, u2, num2, cmp=sz2))
    return h


def part(ck, prop, hists, keep=lambda j: True):
    ck.put("interfaces", "Rust, C (with and without caches), Python, WebAssembly (with and without caches)")
    check_iface(ck, hists, prop + "-iface", keep)
