"""C23: what an operation gives depends on what it is given, not on what was done before or is
done meanwhile on other objects.  MCIndep.tla: calls that write different names commute in Abe.tla,
so that each of several threads may be judged as if it ran alone after the common preparation."""
from lib.iface import *  # noqa
from .access import size, ASSUME
from . import ifaces
from .ifaces import interop, policies


class World:
    """an authority or two, keys and ciphertexts much like those of the other worlds"""

    def __init__(self, r, n, forms=None):
        self.r, self.n = r, n
        self.p, self.ms = n + "p", [n + "m", n + "o"]
        self.g = PolGen(r, self.p)
        self.keys, self.cts, self.syms, self.hdrs = [], [], [], []
        self.pols = [self.p]
        self.made = 0

    def fresh(self, t):
        self.made += 1
        return "%s%s%d" % (self.n, t, self.made)

    def like(self, other):
        """the same axes and names as another world, declared in another order"""
        g, r = self.g, self.r
        g.axes = [(a, list(ns), h) for a, ns, h in other.g.axes]
        x = r.random()
        if x < 0.3:
            r.shuffle(g.axes)
        elif x < 0.6:
            g.axes = [(a, r.sample(ns, len(ns)), h) for a, ns, h in g.axes]
        elif x < 0.8:
            g.axes = [(a, ns, not h) for a, ns, h in g.axes]
        g.used = sum(len(ns) for _, ns, _ in g.axes)
        g.max = g.used + 4
        return [{"op": "policy", "p": self.p, "max": g.max}] + [
            {"op": "axis", "p": self.p, "name": a, "attrs": ns, "hier": h} for a, ns, h in g.axes]

    def setup(self, other=None, nkeys=4, forms=None):
        r, g = self.r, self.g
        h = self.like(other) if other else g.setup((1, 3), (1, 4), 0.4, slack=4)
        h += [{"op": "master", "m": m, "p": self.p} for m in self.ms]
        # the same policy with an attribute rotated
        q = self.n + "q"
        h += [{"op": "copy_policy", "p": self.p, "q": q},
              {"op": "rotate", "p": q, "attr": r.choice(g.attrs())}]
        self.pols.append(q)
        self.forms = forms or [g.formula(5, r.choice([0.3, 0.6])) for _ in range(nkeys)]
        for f in self.forms:
            for p, m in r.sample([(p, m) for p in self.pols for m in self.ms], 2):
                k = self.fresh("k")
                h.append({"op": "ukey", "k": k, "p": p, "m": m, "ap": f})
                self.keys.append(k)
        d = self.fresh("k")
        h.append({"op": "delegate", "k": d, "p": self.p, "m": self.ms[0], "src": self.keys[0], "ap": r.choice([["all"], self.forms[0]])})
        self.keys.append(d)
        self.sets = []
        for f in self.forms:
            try:
                self.sets += g.near(f)[:2]
            except ValueError:      # a formula of another world
                pass
        self.sets = self.sets or [[a] for a in g.attrs()[:2]]
        self.msgs = [self.fresh("g") for _ in range(2)]
        h += [{"op": "msg", "g": x} for x in self.msgs]
        for s in self.sets:
            c = self.fresh("c")
            h.append({"op": "encrypt", "c": c, "p": r.choice(self.pols), "m": r.choice(self.ms), "attrs": s, "g": r.choice(self.msgs)})
            self.cts.append(c)
        for i in range(2):
            c, hd = self.fresh("s"), self.fresh("h")
            h.append(symkey(c, r.choice(self.sets), 32, p=self.p, m=self.ms[i % 2]))
            h.append(hdr_enc(hd, r.choice(self.sets), b"uid " + hd.encode(), b"x" if i else None, p=self.p, m=self.ms[i % 2]))
            self.syms.append(c)
            self.hdrs.append(hd)
        return h

    def snapshots(self):
        ids = [(k, m) for m in self.ms for k in ("msk", "mpk", "mdk")]
        ids += [("key", k) for k in self.keys] + [("ct", c) for c in self.cts]
        return [{"op": "bytes", "kind": k, "id": i, "store": "was-%s-%s" % (k, i)} for k, i in ids]

    def kept(self):
        return [{"op": "kept", "kind": c["kind"], "id": c["id"], "was": c["store"]} for c in self.snapshots()]

    def some(self, t, own):
        """a random operation of thread (or time) t; own: the names it wrote itself"""
        r, g = self.r, self.g
        name = lambda x: "%s.%s" % (t, self.fresh(x))   # noqa
        keys, cts = self.keys + own["k"], self.cts + own["c"]
        pols = self.pols + own["p"]
        x = r.random()
        if x < 0.34:
            return [{"op": "decrypt", "c": r.choice(cts), "k": r.choice(keys)} for _ in range(r.randint(1, 4))]
        if x < 0.5:
            c, gg = name("c"), name("g")
            own["c"].append(c)
            return [{"op": "msg", "g": gg},
                    {"op": "encrypt", "c": c, "p": r.choice(pols), "m": r.choice(self.ms), "attrs": r.choice(self.sets), "g": gg}] + [
                   {"op": "decrypt", "c": c, "k": k} for k in r.sample(keys, 2)]
        if x < 0.62:
            k = name("k")
            own["k"].append(k)
            return [{"op": "ukey", "k": k, "p": r.choice(pols), "m": r.choice(self.ms), "ap": r.choice(self.forms)}] + [
                   {"op": "decrypt", "c": c, "k": k} for c in r.sample(cts, 2)]
        if x < 0.68:
            k = name("k")
            own["k"].append(k)
            return [{"op": "delegate", "k": k, "p": r.choice(pols), "m": r.choice(self.ms), "src": r.choice(keys),
                     "ap": r.choice([["all"], r.choice(self.forms)])}] + [{"op": "decrypt", "c": c, "k": k} for c in r.sample(cts, 2)]
        if x < 0.74:
            # refused, which changes nothing
            bad = ["Nope", "x"]
            return [r.choice([{"op": "ukey", "k": name("b"), "p": r.choice(pols), "m": r.choice(self.ms), "ap": ["and", attr(bad), r.choice(self.forms)]},
                              {"op": "ukey", "k": name("b"), "p": r.choice(pols), "m": r.choice(self.ms), "ap": ["or", self.forms[0], self.forms[0]]},
                              {"op": "encrypt", "c": name("b"), "p": r.choice(pols), "m": r.choice(self.ms), "attrs": r.choice(self.sets) + [bad], "g": r.choice(self.msgs)},
                              {"op": "rotate", "p": own["p"][0] if own["p"] else self.pols[1] + "none", "attr": bad},
                              symkey(name("b"), [bad], 16, p=self.p, m=self.ms[0])])]
        if x < 0.8:
            q = name("p")
            own["p"].append(q)
            return [{"op": "copy_policy", "p": r.choice(pols), "q": q}, {"op": "rotate", "p": q, "attr": r.choice(g.attrs())}]
        if x < 0.83 and own["p"]:
            return [{"op": "rotate", "p": r.choice(own["p"]), "attr": r.choice(g.attrs())}]
        if x < 0.88:
            c = name("s")
            return [symkey(c, r.choice(self.sets), 32, p=self.p, m=self.ms[0])] + [opensym(y, r.choice(keys), 32) for y in [c] + r.sample(self.syms, 2)]
        if x < 0.95:
            hd = name("h")
            return [hdr_enc(hd, r.choice(self.sets), b"u" + hd.encode(), p=self.p, m=r.choice(self.ms)),
                    hdr_dec(r, r.choice(keys), ref(hd))] + [
                    hdr_dec(r, r.choice(keys), r.choice([ref(y), cut(ref(y), S(0), E(r.choice([0, -1]))), xor(ref(y), E(2))])) for y in self.hdrs]
        return [{"op": "reload", "kind": r.choice(["key", "ct"]), "id": None}]

    def step(self, t, own):
        cs = self.some(t, own)
        for c in cs:
            if c["op"] == "reload":
                c["id"] = self.r.choice(self.keys if c["kind"] == "key" else self.cts)
        if self.r.random() < 0.06:
            c = cs[-1]
            if c["op"] in ("decrypt", "hdr_dec", "opensym"):
                cs[-1] = {"op": "again", "n": self.r.choice([3, 10, 40]), "cmd": c}
        return cs


def plain(h):
    return [c["cmd"] if c["op"] == "again" else c for c in h]


def worlds(r, n):
    """n worlds, the later ones like the first; their preparation interleaved"""
    ws = [World(r, chr(97 + i)) for i in range(n)]
    hs = [ws[0].setup()]
    for w in ws[1:]:
        hs.append(w.setup(ws[0], forms=ws[0].forms if r.random() < 0.7 else None))
    h, i = [], [0] * n
    while any(i[j] < len(hs[j]) for j in range(n)):
        j = r.choice([j for j in range(n) if i[j] < len(hs[j])])
        k = r.randint(1, 4)
        h += hs[j][i[j]:i[j] + k]
        i[j] += k
    return ws, h


def strand(r, ws, t, length):
    own = {w.n: {"k": [], "c": [], "p": []} for w in ws}
    h = []
    for _ in range(length):
        w = r.choice(ws)
        h += w.step(t, own[w.n])
    return h


def alternating(r, nw, length):
    """one thread, several worlds, the same things again and again"""
    ws, h = worlds(r, nw)
    for w in ws:
        h += w.snapshots()
    h += strand(r, ws, "t", length)
    for w in ws:
        h += w.kept()
    return h


def together(ck, r, count, nthreads, length, backend, name):
    """several threads on the same objects, each judged after the common preparation"""
    jobs = []
    for _ in range(count):
        ws, pre = worlds(r, r.randint(1, 3))
        for w in ws:
            pre += w.snapshots()
        if r.random() < 0.5:
            ths = [strand(r, ws, "t%d" % i, length) for i in range(nthreads)]
        else:       # all the same calls at the same time
            one = strand(r, ws, "t", length)
            ths = [one] * nthreads
        post = strand(r, ws, "z", 6)
        for w in ws:
            post += w.kept()
        jobs.append((pre, ths, post))
    rs = run_histories([pre + [{"op": "together", "threads": ths}] + post for pre, ths, post in jobs], backend, workers=3)
    hs, res = [], []
    for (pre, ths, post), out in zip(jobs, rs):
        n = len(pre)
        if out[n]["res"] != "ok":
            ck.violation("threads on the same objects ended in %s" % out[n]["res"],
                         {"backend": backend, "commands": pre + [{"op": "together", "threads": ths}], "result": out[n]})
            continue
        for th, o in zip(ths, out[n]["out"]):
            hs.append(plain(pre + th))
            res.append(out[:n] + o)
        hs.append(plain(pre + post))
        res.append(out[:n] + out[n + 1:])
    ck.add("threads_judged", sum(len(t) for _, t, _ in jobs))
    for i in range(0, len(hs), 300):
        check_hybrid(ck, hs[i:i + 300], backend, "C23-%s-%d" % (name, i), results=res[i:i + 300])


def lookalikes(r, n, reads=260):
    """keys which differ in one thing only - an operator, the place of a leaf, the authority, the
    parent - on ciphertexts which differ in one thing only, all of them again and again"""
    al = [A("D", "a%d" % i) for i in range(n + 1)]
    h = [{"op": "policy", "p": "p", "max": 2 * n + 4},
         {"op": "axis", "p": "p", "name": "D", "attrs": [a[1] for a in al], "hier": False},
         {"op": "copy_policy", "p": "p", "q": "q"}]
    h += [{"op": "rotate", "p": "q", "attr": a} for a in r.sample(al, 2)]
    h += [{"op": "master", "m": m, "p": "p"} for m in ("m", "o")] + [{"op": "msg", "g": "g%d" % i} for i in range(3)]
    fs = list(shapes(n))
    fs = [fill(sh, al[:n]) for sh in (fs if len(fs) < 12 else r.sample(fs, 12))]
    swapped = al[:n]
    i, j = r.sample(range(n), 2)
    swapped[i], swapped[j] = swapped[j], swapped[i]
    fs += [fill(sh, x) for x in (swapped, al[1:n + 1]) for sh in r.sample(list(shapes(n)), min(2, len(fs)))]
    keys = []
    for f in fs:
        for p, m in (("p", "m"), r.choice([("q", "m"), ("p", "o")])):
            keys.append("k%d" % len(keys))
            h.append({"op": "ukey", "k": keys[-1], "p": p, "m": m, "ap": f})
    for k in r.sample(keys, 3):
        keys.append("k%d" % len(keys))
        h.append({"op": "delegate", "k": keys[-1], "p": "p", "m": "m", "src": k, "ap": ["all"]})
    sets = [[al[i] for i in range(n) if b >> i & 1] for b in range(1, 1 << n)]
    if len(sets) > 12:
        sets = r.sample(sets, 12)
    cts = []
    for s in sets:
        for p, m in [("p", "m")] + ([r.choice([("q", "m"), ("p", "o")])] if r.random() < 0.4 else []):
            cts.append("c%d" % len(cts))
            h.append({"op": "encrypt", "c": cts[-1], "p": p, "m": m, "attrs": s, "g": "g%d" % r.randrange(3)})
    pairs = [(c, k) for c in cts for k in keys]
    r.shuffle(pairs)
    if r.random() < 0.5:        # the same ciphertext for one key after the other
        pairs.sort(key=lambda x: x[0])
    pairs = pairs[:reads]
    h += [{"op": "decrypt", "c": c, "k": k} for c, k in pairs + r.sample(pairs, len(pairs) // 4)]
    return h


def wearing(r, n, kinds=7):
    """the same operation very many times in one process"""
    ws, h = worlds(r, 2)
    a, b = ws
    ap = ["and", attr(["Nope", "x"]), a.forms[0]]
    many = [{"op": "ukey", "k": "wk", "p": a.p, "m": a.ms[0], "ap": a.forms[0]},
            {"op": "decrypt", "c": a.cts[0], "k": a.keys[0]},
            {"op": "encrypt", "c": "wc", "p": a.p, "m": a.ms[0], "attrs": a.sets[0], "g": a.msgs[0]},
            {"op": "ukey", "k": "wb", "p": a.p, "m": a.ms[0], "ap": ap},
            {"op": "delegate", "k": "wd", "p": a.p, "m": a.ms[0], "src": a.keys[0], "ap": ["all"]},
            {"op": "opensym", "c": a.syms[0], "k": a.keys[0], "len": 32},
            {"op": "master", "m": "wm", "p": a.p},
            hdr_dec(r, a.keys[0], ref(a.hdrs[0]))]
    r.shuffle(many)
    for c in many[:kinds]:
        h.append({"op": "again", "n": n, "cmd": c})
        h += strand(r, ws, "t%d" % len(h), 3)
    return h


# ---------------------------------------------------------------------------
# the C interface: several threads' calls at the same time


class Meet:
    """threads of one process whose calls of C functions all happen together"""

    def __init__(self, proc, n, plan=None):
        self.p, self.active, self.plan = proc, n, plan
        self.lock, self.cond = threading.Lock(), threading.Condition()
        self.wait, self.got = {}, {}
        self.met = self.events = self.most = 0
        self.broken = None

    def call(self, cmd, timeout=60):
        with self.lock:
            return self.p.call(cmd, timeout)

    def fire(self):
        ids = sorted(self.wait)
        cmds = [self.wait[i] for i in ids]
        c = {"op": "conc", "threads": [[x[0]] for x in cmds]}
        if self.plan:
            c["plan"] = self.plan(len(ids))
        x = self.call({"op": "batch", "cmds": [c] + [b for y in cmds for b in y[1:]]})
        self.met += len(ids) > 1
        res, rest = [{"res": x["res"]}] * len(ids), []
        if x["res"] == "ok":
            x, rest = x["out"][0], x["out"][1:]
            res = [{"res": x["res"]}] * len(ids)
            if x["res"] == "ok":
                self.events += sum(x.get("events", []))
                if x.get("events") and not cmds[0][0]["fn"].startswith("create_"):     # C14's
                    self.most = max(self.most, x["events"][0])
                res = [l[0] for l in x["out"]]
        for i, y, q in zip(ids, cmds, res):
            n = len(y) - 1
            self.got[i] = {"res": "ok", "out": [q] + rest[:n]} if rest else q
            if q["res"] == "ok" and not rest:
                self.got[i] = {"res": "ok", "out": [q]}
            rest = rest[n:]
        self.wait = {}
        self.cond.notify_all()

    def together(self, me, cmds):
        with self.cond:
            self.wait[me] = cmds
            if len(self.wait) == self.active:
                self.go()
            while me not in self.got and not self.broken:
                self.cond.wait()
            if self.broken:
                raise self.broken
            return self.got.pop(me)

    def go(self):
        try:
            self.fire()
        except BaseException as e:  # noqa
            self.broken = e
            self.cond.notify_all()

    def leave(self):
        with self.cond:
            self.active -= 1
            if self.wait and len(self.wait) == self.active and not self.broken:
                self.go()


class Side:
    """what a thread sees of the process"""

    def __init__(self, meet, me):
        self.meet, self.me = meet, me

    def call(self, cmd, timeout=60):
        if cmd["op"] != "batch" or cmd["cmds"][0]["op"] != "ffi":
            return self.meet.call(cmd, timeout)
        mine = lambda n: "%s-%d" % (n, self.me)     # noqa
        first, *rest = json.loads(json.dumps(cmd["cmds"]))
        for o in first["out"].values():
            o["store"] = mine(o["store"])
        for b in rest:
            b["id"] = mine(b["id"])
        return self.meet.together(self.me, [first] + rest)


def native(h):
    """the history through Rust and C only"""
    out = []
    for c in h:
        c = dict(c)
        v = c.get("via", "rust")
        if v in ("py", "wasm", "wasmc"):
            c["via"] = "rust" if c["op"] in ("declare", "delegate") else {"py": "c", "wasm": "c", "wasmc": "cc"}[v]
            if c["via"] == "c" and c["op"] in ("hdr_enc", "hdr_dec") and v == "py":
                c["via"] = "cc"
        out.append(c)
    return out


KINDS = ("rotate", "master", "ukey", "hdr_enc", "hdr_dec")


def lane(r, kind, n, tag):
    """one C function n times, on two policies in turn, with what tells whether it was right"""
    h, pols = [], []
    for p in ("p", "q"):
        axes = [{"name": "%s%s" % (x, r.choice("AB")), "attrs": ["%s%s%d" % (tag, p, i) for i in range(r.randint(2, 3))], "hier": r.random() < 0.4} for x in "XY"]
        al = [A(a["name"], n_) for a in axes for n_ in a["attrs"]]
        h += [{"op": "declare", "via": "rust", "p": p, "max": len(al) + r.randint(2, 9), "axes": axes},
              {"op": "master", "via": "rust", "p": p, "m": "m" + p}]
        fs = [attr(al[0]), ["and", attr(al[1]), attr(al[-1])], ["or", attr(al[0]), attr(al[-1])]]
        for i, f in enumerate(fs):
            h += [{"op": "ukey", "via": "rust", "p": p, "m": "m" + p, "k": "k%d%s" % (i, p), "ap": f},
                  dict(hdr_enc("h%d%s" % (i, p), [al[0]] if i == 1 else [al[1], al[-1]], b"%s %d" % (tag.encode(), i), p=p, m="m" + p), via="rust")]
        pols.append((p, al, fs))

    def dec(k, hh, via="rust"):
        return dict(hdr_dec(r, k, ref(hh)), via=via)
    step = r.choice([1, 2])
    for i in range(n):
        p, al, fs = pols[i * step % 2]
        c = r.choice(["c", "c", "cc"])
        j = r.randrange(3)
        if kind == "rotate":
            h += [{"op": "rotate_all", "via": "c", "p": p, "q": "%s%d" % (p, i), "attrs": [r.choice(al) for _ in range(r.choice([1, 1, 2]))]},
                  {"op": "policy_dump", "via": "rust", "p": "%s%d" % (p, i)}]
        elif kind == "master":
            m = "n%d" % i
            h += [{"op": "master", "via": "c", "p": p, "m": m},
                  {"op": "ukey", "via": "rust", "p": p, "m": m, "k": "y" + m, "ap": fs[j]},
                  dict(hdr_enc("x" + m, [al[0], al[-1]], p=p, m=m), via="rust"), dec("y" + m, "x" + m), dec("k%d%s" % (j, p), "x" + m)]
        elif kind == "ukey":
            k = "y%d" % i
            h += [{"op": "ukey", "via": "c", "p": p, "m": "m" + p, "k": k, "ap": fs[j]}] + [dec(k, "h%d%s" % (x, p)) for x in range(2)]
        elif kind == "hdr_enc":
            x = "x%d" % i
            h += [dict(hdr_enc(x, r.choice([[al[0]], [al[1], al[-1]]]), b"u%d" % i, p=p, m="m" + p), via=c)] + [dec("k%d%s" % (y, p), x) for y in range(2)]
        else:
            h.append(dec("k%d%s" % (j, p), "h%d%s" % (r.randrange(3), p), c))
    return h


def nested(ck, r, n, rounds):
    """for every two C functions A and B: B made to run inside A, after each of A's accesses to what
    threads share"""
    pairs = [(a, b) for a in KINDS for b in KINDS]
    most = crossing(ck, r, 0, 2, "nested", True, [within(r, a, b, range(n)) for a, b in pairs])
    more = [within(r, a, b, range(i, min(m, i + n - 1) + 1)) for (a, b), m in zip(pairs, most) for i in range(n, m + 1, n)]
    if more:
        log("%d more rounds of nested calls" % len(more))
        if len(more) > rounds:
            more = r.sample(more, rounds)
        crossing(ck, r, 0, 2, "nested2", True, more)


def within(r, a, b, points):
    """the plan given to each meeting: A runs to a point, B to its end, A on"""
    n = len(points)
    return [], [lane(r, a, n, "a"), lane(r, b, n, "b")], [[[0, i], [1, 1 << 20]] for i in points]


def crossing(ck, r, count, nthreads, name, sched=False, jobs=None):
    """threads with worlds of their own, or with common ones, meeting at each C call"""
    exe = harness_sched() if sched else harness()
    jobs = jobs or []
    for i in range(count):
        if i % 3 == 2:
            # policies, and whatever else is done with a policy
            some = [lambda: policies(r, 6), lambda: policies(r, 6), lambda: ifaces.admitted(r), lambda: ifaces.budgeted(r), lambda: ifaces.rotating(r)]
            jobs.append(([], [native(r.choice(some)()) for _ in range(nthreads)]))
        elif i % 3:
            jobs.append(([], [native(interop(r)) for _ in range(nthreads)]))
        else:
            h = native(interop(r))
            n = next(i for i, c in enumerate(h) if c["op"] == "hdr_enc")
            jobs.append((h[:n], [h[n:]] * nthreads))
    seeds = [r.random() for _ in jobs]
    met, events = [], []

    def one(item):
        (pre, ths, *given), seed = item
        q = random.Random(seed)
        p = Proc([exe, "bls"])
        given = list(given[0]) if given else []

        def plan(n):
            if given:
                return given.pop(0)
            return [[q.randrange(n), q.choice([1, 1, 2, 3, 5, 8])] for _ in range(q.randint(1, 6))]
        try:
            base = Iface()
            base.procs["rust"] = p
            first = [base.do(c) for c in pre]
            meet = Meet(p, len(ths), plan if sched else None)
            out, errs = [None] * len(ths), []

            def work(i):
                try:
                    f = Iface()
                    f.procs["rust"] = Side(meet, i)
                    f.B, f.caches = dict(base.B), dict(base.caches)
                    out[i] = [f.do(c) for c in ths[i]]
                except BaseException as e:  # noqa
                    errs.append(e)
                finally:
                    meet.leave()
            ts = [threading.Thread(target=work, args=(i,)) for i in range(len(ths))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs:
                raise errs[0]
            met.append(meet.met)
            events.append(meet.events)
            return meet.most, [(pre + h, first + o) for h, o in zip(ths, out)]
        finally:
            p.stop()
    done = in_order(one, list(zip(jobs, seeds)), 4)
    got = [x for _, l in done for x in l]
    ck.add("c_calls_made_together", sum(met))
    if sched:
        ck.add("scheduling_points_met", sum(events))
    check_hybrid(ck, [h for h, _ in got], "bls", "C23-" + name, results=[o for _, o in got])
    return [m for m, _ in done]


def in_order(fn, items, n):
    from .fresh import threaded
    got = dict(threaded(lambda x: (x[0], fn(x[1])), list(enumerate(items)), n))
    return [got[i] for i in range(len(items))]


def c23(ck):
    r = rng("C23")
    ck.assumptions = ASSUME + ["threads run freely; the schedules are those the machine chose",
                               "each thread is judged alone after the common preparation, which MCIndep.tla justifies for the specification"]
    ck.put("rule", "worlds of like names and shapes used alternately by one thread; keys and ciphertexts that differ in one operator, leaf, generation or authority used in turns; %d threads on the same objects; operations repeated up to %d times" % (8, size(300, 70000)))
    for cfg in ["MCIndep.cfg"] + size([], ["MCIndep_deep.cfg"]):
        d = tlc("MCIndep", cfg, timeout=3000)
        ck.add("states", d.distinct)
        ck.add("transitions", d.states)
        ck.add("model_states", d.distinct)
    refuted(ck, "MCIndep", ("memory",))

    def run(hs, backend, name):
        for i in range(0, len(hs), 400):
            part = hs[i:i + 400]
            rs = run_histories(part, backend)
            check_hybrid(ck, [plain(h) for h in part], backend, "C23-%s-%d" % (name, i), results=rs)
    run([alternating(r, r.randint(2, 4), r.randint(20, 60)) for _ in range(size(110, 1800))], "toyl", "alt")
    run([alternating(r, 2, r.randint(10, 20)) for _ in range(size(8, 80))], "bls", "altb")
    run([lookalikes(r, n) for n in size([2, 3, 3, 3, 4, 4], [2, 2] + [3] * 40 + [4] * 60 + [5] * 20)], "toyl", "like")
    run([lookalikes(r, 3, 60) for _ in range(size(1, 12))], "bls", "likeb")
    together(ck, r, size(24, 300), 8, size(30, 40), "toyl", "tog")
    together(ck, r, size(5, 40), 8, 8, "bls", "togb")
    run([wearing(r, n) for n in size([300, 1100], [300, 1100, 5000, 70000])], "toyl", "wear")
    crossing(ck, r, size(14, 120), 4, "c")
    crossing(ck, r, size(8, 80), 3, "csched", True)
    nested(ck, r, 12, size(60, 400))
    if THOROUGH:
        run([wearing(r, 300)], "bls", "wearb")
