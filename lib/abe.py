"""Histories of the attribute based encryption engine: generators, the events
handed to the trace specification, and what a rejected event means."""
import itertools

from .core import *  # noqa

KEEP = ("op", "p", "max", "name", "attrs", "hier", "attr", "q", "m", "k", "ap", "src",
        "from", "shape", "c", "g", "kind", "id", "axes")


def norm_ap(f):
    return f


def events_of(histories, results):
    """trace events; (event index -> (history, command index)) map"""
    ev, where = [], []
    for hi, (h, rs) in enumerate(zip(histories, results)):
        ev.append({"op": "begin"})
        where.append((hi, -1))
        for ci, (c, r) in enumerate(zip(h, rs)):
            if r["res"] == "skip" or c["op"] in ("msg", "msg_encode", "policy_json", "bytes"):
                continue
            e = {k: c[k] for k in KEEP if k in c}
            if c["op"] == "splice" and r["res"] == "err":
                continue        # the mixture is not even a key
            e["res"] = r["res"]
            if c["op"] == "decrypt" and r["res"] == "msg":
                e["g"] = r["g"]
            if c["op"] == "reload":
                e.update({k: bool(r.get(k)) for k in ("len", "len2", "same", "eq")})
            if c["op"] == "kept":
                e["same"] = bool(r.get("same"))
            if c["op"] == "policy_dump":
                e["op"] = "dump"
                if r["res"] == "ok":
                    e.update({k: r[k] for k in ("last", "max", "vals", "axes")})
                else:
                    e.update(last=0, max=0, vals=[], axes=[])
            ev.append(e)
            where.append((hi, ci))
    return ev, where


class Rej:
    pass


def check_histories(ck, histories, backend, name, module="AbeTrace", workers=None, keep=lambda rej: True):
    """run, validate, report; returns rejections"""
    results = run_histories(histories, backend, workers)
    ev, where = events_of(histories, results)
    rej, r = validate(module, module + ".cfg", ev, name, len(histories))
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.add("traces_validated_against_impl", len(histories))
    ck.add("events_checked", len(ev) - len(histories))
    for e in ev:
        if e["op"] == "decrypt":
            ck.add("decrypt_" + e["res"])
    out = []
    for x in rej:
        j = Rej()
        j.hi, j.ci = where[x["line"] - 1]
        j.spec = x["spec"]
        j.event = ev[x["line"] - 1]
        j.cmds = histories[j.hi][:j.ci + 1]
        j.result = results[j.hi][j.ci]
        j.backend = backend
        if keep(j):
            out.append(j)
    return out


def report(ck, rejs, ident=lambda j: None):
    for j in rejs:
        ck.violation("%s gave %s, the specification wants %s" %
                     (json.dumps({k: v for k, v in j.event.items() if k != "res"}), j.result.get("res"), j.spec),
                     {"backend": j.backend, "commands": j.cmds, "result": j.result, "spec": j.spec},
                     ident(j))


# ---------------------------------------------------------------------------
# generators


def A(axis, name):
    return [axis, name]


def attr(a):
    return ["attr", a]


def conj(*fs):
    r = fs[-1]
    for f in reversed(fs[:-1]):
        r = ["and", f, r]
    return r


def disj(*fs):
    r = fs[-1]
    for f in reversed(fs[:-1]):
        r = ["or", f, r]
    return r


def leaves(f):
    if f[0] == "attr":
        return [f[1]]
    if f[0] == "all":
        return []
    return leaves(f[1]) + leaves(f[2])


def shapes(n, ops=("and", "or")):
    """all binary trees with n leaves (placeholders numbered left to right)"""
    def go(lo, n):
        if n == 1:
            yield ("leaf", lo)
            return
        for k in range(1, n):
            for a in go(lo, k):
                for b in go(lo + k, n - k):
                    for o in ops:
                        yield (o, a, b)
    return go(0, n)


def fill(shape, ls):
    if shape[0] == "leaf":
        return attr(ls[shape[1]])
    return [shape[0], fill(shape[1], ls), fill(shape[2], ls)]


def random_tree(r, ls, bias=0.5):
    if len(ls) == 1:
        return attr(ls[0])
    k = r.choice([1, len(ls) - 1, r.randint(1, len(ls) - 1)])
    return ["and" if r.random() < bias else "or", random_tree(r, ls[:k], bias), random_tree(r, ls[k:], bias)]


def repeated(r, s, p=0.4):
    """the attributes with some of them repeated, the repetitions anywhere in the list"""
    s = list(s)
    if r.random() < p:
        for _ in range(r.choice([1, 1, 2, 3, len(s)])):
            s.insert(r.randint(0, len(s)), r.choice(s))
    return s


def naming(r, k, letters=None):
    """k different names: letters, or names that are easily taken for one another"""
    x = r.random()
    if x < 0.6:
        names = list(letters or ["n%d" % i for i in range(k)])[:k]
    elif x < 0.7:
        names = ["top", "Top", "TOP", "tOp", "toP", "TOp", "tOP", "ToP"][:k]
    elif x < 0.8:
        names = ["x" * (i + 1) for i in range(k)]
    elif x < 0.9:
        names = ["1", "10", "01", "100", "11", "0", "00", "110", "-1"][:k]
    else:
        names = ["Secret", "Top Secret", "Sec", "secret", "Secrets", "Top", "T", "\u015aecret"][:k]
    names += ["m%d" % i for i in range(k - len(names))]
    r.shuffle(names)
    return names


class PolGen:
    """a policy under construction, mirrored just enough to aim the generators"""

    def __init__(self, r, name="p"):
        self.r, self.name = r, name
        self.axes = []       # (axis, [names], hier)
        self.used = 0
        self.max = 0
        self.rot = {}

    def setup(self, naxes=(1, 4), nattrs=(1, 5), hier=0.5, slack=None):
        r = self.r
        n = r.randint(*naxes)
        if naxes[1] >= 4 and r.random() < 0.2:
            n = r.randint(5, 9)
            nattrs = (1, max(1, min(nattrs[1], 3)))
        shared = ["A", "B", "C", "D", "E", "F", "G"]
        alike = r.random() < 0.2
        for i in range(n):
            ax = ["Sec", "Dept", "Geo", "X y", "\u00e9t\u00e9"][i] if i < 5 and not alike else ["Sec", "sec", "Se", "Sec ret"][i] if i < 4 else "Ax%d" % i
            k = r.randint(*nattrs)
            # the same attribute names are used on several axes
            names = naming(r, k, [("%s" if r.random() < 0.5 else ax + "-%s") % x for x in shared[:k]])
            self.axes.append((ax, names, r.random() < hier))
        tot = sum(len(a[1]) for a in self.axes)
        self.max = tot + (r.choice([0, 1, 2, 3, 5, 10]) if slack is None else slack)
        self.used = tot
        cmds = [{"op": "policy", "p": self.name, "max": self.max}]
        for ax, names, h in self.axes:
            cmds.append({"op": "axis", "p": self.name, "name": ax, "attrs": names, "hier": h})
        return cmds

    def attrs(self):
        return [A(ax, n) for ax, ns, _ in self.axes for n in ns]

    def room(self):
        return self.max - self.used

    def rotate(self, a=None):
        a = a or self.r.choice(self.attrs())
        if self.room() > 0:
            self.used += 1
            self.rot[tuple(a)] = self.rot.get(tuple(a), 0) + 1
        return {"op": "rotate", "p": self.name, "attr": a}

    def covers(self, a):
        for ax, ns, h in self.axes:
            if ax == a[0]:
                return [A(ax, n) for n in ns[:ns.index(a[1]) + 1]] if h else [a]

    def formula(self, nmax=6, bias=0.5, allp=0.03):
        """an acceptable access policy: no attribute value reachable twice"""
        r = self.r
        if r.random() < allp:
            return ["all"]
        pool = self.attrs()
        r.shuffle(pool)
        want = r.randint(1, nmax)
        got, used = [], set()
        for a in pool:
            cv = {tuple(x) for x in self.covers(a)}
            if not (cv & used):
                got.append(a)
                used |= cv
                if len(got) == want:
                    break
        return random_tree(r, got, bias)

    def sat(self, f, have):
        if f[0] == "all":
            return bool(have)
        if f[0] == "attr":
            return any(tuple(x) in have for x in self.covers(f[1]))
        a, b = self.sat(f[1], have), self.sat(f[2], have)
        return (a and b) if f[0] == "and" else (a or b)

    def near(self, f):
        """attribute lists around the boundary of what f accepts"""
        r = self.r
        if f[0] == "all":
            return [[a] for a in r.sample(self.attrs(), min(2, len(self.attrs())))]
        # a minimal satisfying set
        have = {tuple(x) for l in leaves(f) for x in [r.choice(self.covers(l))]}
        for x in sorted(have, key=lambda _: r.random()):
            if self.sat(f, have - {x}):
                have = have - {x}
        have = sorted(have)
        out = []
        noise = [a for a in self.attrs() if tuple(a) not in have]
        full = [list(x) for x in have]
        ex = full + r.sample(noise, r.randint(0, min(3, len(noise))))
        r.shuffle(ex)
        out.append(repeated(r, ex))
        # one short of it, with noise that does not satisfy
        x = r.choice(have)
        less = set(have) - {x}
        for n in sorted(noise, key=lambda _: r.random())[:4]:
            if not self.sat(f, less | {tuple(n)}):
                less.add(tuple(n))
        if less:
            less = [list(y) for y in less]
            r.shuffle(less)
            out.append(repeated(r, less))
        k = r.randint(1, min(6, len(self.attrs())))
        out.append([list(a) for a in r.sample(self.attrs(), k)])
        return out
