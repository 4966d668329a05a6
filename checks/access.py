"""C01-C06, C10, C11: who can read what.  Abe.tla is explored exhaustively for small
constants, its random behaviours are replayed in the real engine, and histories of the
real engine aimed at each property are validated against it."""
from lib.abe import *
from . import ifaces

ASSUME = ["the toy group replaces BLS12-381 in the broad exploration; a sample runs on BLS12-381",
          "values outside the bounds given in the evidence are not explored"]


def size(quick, thorough):
    return thorough if THOROUGH else quick


def design(ck, *cfgs, broken=()):
    for c in cfgs:
        r = tlc("MCAbe", "MCAbe_%s.cfg" % c)
        ck.add("states", r.distinct)
        ck.add("transitions", r.states)
        ck.add("model_states", r.distinct)
    refuted(ck, "MCAbeBad", broken)


def behaviours(ck, profile, num, depth, backend="toyl", keep=lambda e, r: True):
    """replay random behaviours of the specification"""
    r = tlc("GenAbe", "GenAbe.cfg", env={"DEPTH": depth, "PROFILE": profile}, workers=1,
            args=["-simulate", "num=%d" % num, "-depth", str(depth + 20), "-seed", str(SEED + 1000)])
    hs = tagged(r, "HIST")
    if len(hs) < num * 0.9:
        raise ToolError("GenAbe wrote %d behaviours of %d" % (len(hs), num))
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    pre = [{"op": "msg", "g": "g1"}, {"op": "msg", "g": "g2"}]
    cmds = [pre + [{k: v for k, v in e.items() if k != "res" and not (e["op"] == "decrypt" and k == "g")}
                   for e in h] for h in hs]
    out = run_histories(cmds, backend)
    n = 0
    for h, cs, rs in zip(hs, cmds, out):
        for i, (e, x) in enumerate(zip(h, rs[2:])):
            n += 1
            got = x["res"]
            if e["op"] == "decrypt":
                seen = {"msg": "msg" if x.get("g") == e["g"] else "wrong", "none": "no", "err": "no",
                        "wrong": "wrong"}.get(got, "crash")
                okay = seen in e["res"]
            elif e["op"] == "reload":
                okay = got == "ok" and all(x.get(k) for k in ("len", "len2", "same", "eq"))
            else:
                okay = got == e["res"]
            if not okay:
                if keep(e, x):
                    ck.violation("%s gave %s" % (json.dumps(e), json.dumps(x)),
                                 {"backend": backend, "commands": cs[:i + 3], "expected": e["res"], "result": x})
                break
    ck.add("behaviours_replayed", len(hs))
    ck.add("steps_replayed", n)
    ck.add("traces_validated_against_impl", len(hs))
    ck.sample({"behaviour": hs[0][:12]})


def validated(ck, hs, backend="toyl", name=None, keep=lambda j: True, ident=lambda j: None):
    step = 400 if backend == "toyl" else 200
    for i in range(0, len(hs), 4000):
        part = hs[i:i + 4000]
        rej = check_histories(ck, part, backend, "%s-%s-%d" % (ck.prop, name or backend, i), keep=keep)
        report(ck, rej, ident)
    if hs:
        ck.sample({"history": hs[len(hs) // 2][:14]})


def wants(j, what):
    return "want |-> {%s}" % ", ".join('"%s"' % w for w in what) in j.spec


# ---------------------------------------------------------------------------


def flat_policy(n, extra=2, axes=1):
    """n attributes on flat axes, and some unrelated ones"""
    names = ["a%d" % i for i in range(n + extra)]
    if axes == 1:
        return [{"op": "policy", "p": "p", "max": n + extra},
                {"op": "axis", "p": "p", "name": "F", "attrs": names, "hier": False}], [A("F", x) for x in names]
    cmds = [{"op": "policy", "p": "p", "max": n + extra}]
    al = []
    for i in range(n + extra):      # one axis each
        cmds.append({"op": "axis", "p": "p", "name": "X%d" % i, "attrs": ["v"], "hier": bool(i % 2)})
        al.append(A("X%d" % i, "v"))
    return cmds, al


def all_subsets(r, n, axes=1, formulas=None, tag=""):
    """every shape with n leaves, every set of its attributes (order, repetition and
    unrelated attributes at random)"""
    hs = []
    for sh in (formulas or shapes(n)):
        pol, al = flat_policy(n, 2, axes)
        r.shuffle(al)
        use, rest = al[:n], al[n:]
        f = fill(sh, use)
        h = pol + [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g"},
                   {"op": "ukey", "k": "k", "p": "p", "m": "m", "ap": f}]
        c = 0
        for bits in range(0, 1 << n):
            s = [use[i] for i in range(n) if bits >> i & 1] + [x for x in rest if r.random() < 0.3]
            if not s:
                s = [rest[0]]
            r.shuffle(s)
            s = repeated(r, s)
            h += [{"op": "encrypt", "c": "c%d" % c, "p": "p", "m": "m", "attrs": s, "g": "g"},
                  {"op": "decrypt", "c": "c%d" % c, "k": "k"}]
            c += 1
        hs.append(h)
    return hs


def random_access(r, count, nmax=6, naxes=(1, 4), nattrs=(1, 5), hier=0.4, keys=5, rot=0.3, reload=0.1, bias=None):
    """policies, keys and ciphertexts at the boundary of what each key accepts"""
    hs = []
    for _ in range(count):
        g = PolGen(r)
        h = g.setup(naxes, nattrs, hier)
        h += [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g0"}, {"op": "msg", "g": "g1"}]
        c = 0
        kn = []
        for i in range(keys):
            f = g.formula(nmax, r.choice([0.2, 0.5, 0.8]) if bias is None else bias)
            h.append({"op": "ukey", "k": "k%d" % i, "p": "p", "m": "m", "ap": f})
            kn.append("k%d" % i)
            for s in g.near(f):
                h.append({"op": "encrypt", "c": "c%d" % c, "p": "p", "m": "m", "attrs": s, "g": "g%d" % r.randint(0, 1)})
                h.append({"op": "decrypt", "c": "c%d" % c, "k": "k%d" % i})
                h.append({"op": "decrypt", "c": "c%d" % r.randint(0, c), "k": r.choice(kn)})
                c += 1
            if r.random() < reload:
                h.append({"op": "reload", "kind": r.choice(["msk", "mpk"]), "id": "m"})
            if r.random() < rot:
                h.append(g.rotate())
        h.append({"op": "policy_dump", "p": "p"})
        hs.append(h)
    return hs


def balanced(fs, op):
    if len(fs) == 1:
        return fs[0]
    k = len(fs) // 2
    return [op(), balanced(fs[:k], op), balanced(fs[k:], op)]


def large(r, count, lo=8, hi=24, huge=None):
    """large formulas, combs and balanced ones, with the boundary sets"""
    hs = []
    sizes = [r.randint(lo, hi) for _ in range(count)] + list(huge or [])
    for n in sizes:
        pol, al = flat_policy(n, 3)
        g = PolGen(r)
        g.axes = [("F", [a[1] for a in al], False)]
        ls = al[:n]
        r.shuffle(ls)
        kind = r.randint(0, 3)
        if n > 60:          # the harness reads commands of limited depth
            f = balanced([attr(a) for a in ls], lambda: "and" if r.random() < 0.95 else "or")
        elif kind == 0:
            f = conj(*[attr(a) for a in ls])
        elif kind == 1:
            f = attr(ls[0])
            for i, a in enumerate(ls[1:]):
                f = ["and" if i % 2 else "or", f, attr(a)]
        else:
            f = random_tree(r, ls, r.choice([0.3, 0.5, 0.7, 0.9]))
        h = pol + [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g"},
                   {"op": "ukey", "k": "k", "p": "p", "m": "m", "ap": f}]
        c = 0
        for _ in range(4 if n < 60 else 1):
            for s in g.near(f):
                h += [{"op": "encrypt", "c": "c%d" % c, "p": "p", "m": "m", "attrs": s, "g": "g"},
                      {"op": "decrypt", "c": "c%d" % c, "k": "k"}]
                c += 1
        hs.append(h)
    return hs


def crowded(r, sizes):
    """ciphertexts that list very many attributes, those a key needs anywhere among them"""
    hs = []
    for i, n in enumerate(sizes):
        few = i % 2         # of few attributes, each repeated, or of as many different ones
        pol, al = flat_policy(8 if few else n, 2)
        use = r.sample(al, 5)
        f = random_tree(r, use[:4], 0.6)
        g = PolGen(r)
        g.axes = [("F", [a[1] for a in al], False)]
        h = pol + [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g"},
                   {"op": "ukey", "k": "k", "p": "p", "m": "m", "ap": f},
                   {"op": "ukey", "k": "all", "p": "p", "m": "m", "ap": ["all"]}]
        for c, s in enumerate(g.near(f)):
            rest = [a for a in al if a not in use]
            s = [a for a in s if a in use] or [use[4]]
            s = (r.choices(rest, k=n - len(s)) if few else r.sample(rest, min(len(rest), n - len(s)))) + s
            if r.random() < 0.5:
                r.shuffle(s)
            h += [{"op": "encrypt", "c": "c%d" % c, "p": "p", "m": "m", "attrs": s, "g": "g"},
                  {"op": "decrypt", "c": "c%d" % c, "k": "k"},
                  {"op": "reload", "kind": "ct", "id": "c%d" % c},
                  {"op": "decrypt", "c": "c%d" % c, "k": "k"}, {"op": "decrypt", "c": "c%d" % c, "k": "all"}]
        for j, a in enumerate(r.sample(al, min(8, len(al)))):
            h += [{"op": "encrypt", "c": "s%d" % j, "p": "p", "m": "m", "attrs": [a], "g": "g"},
                  {"op": "decrypt", "c": "s%d" % j, "k": "all"}, {"op": "decrypt", "c": "s%d" % j, "k": "k"}]
        hs.append(h)
    return hs


def granted(j):      # a read that should have succeeded
    return j.event["op"] != "decrypt" or wants(j, ["msg"])


def denied(j):
    return j.event["op"] != "decrypt" or wants(j, ["no"])


def c01(ck):
    r = rng("C01")
    ck.assumptions = ASSUME
    ck.put("rule", "every And/Or formula of up to %d leaves with every attribute subset, random formulas of up to 24 leaves, formulas of 65 and 129; attributes repeated anywhere in a third of the lists" % size(5, 6))
    design(ck, *size(["access"], ["access", "access_deep"]), broken=("newest", "both"))
    behaviours(ck, "access", size(150, 1500), size(40, 60), keep=lambda e, x: e["res"] in (["msg"], "ok"))
    hs = [h for n in range(1, size(6, 7)) for h in all_subsets(r, n, axes=1 + n % 2)]
    hs += random_access(r, size(120, 1500))
    hs += large(r, size(40, 300), huge=size([65, 129], [64, 65, 66, 127, 128, 129, 130, 200, 256, 257]) * 2)
    hs += crowded(r, size([40, 100, 270, 300], [60, 65, 100, 129, 200, 250, 257, 300, 520, 600, 1030, 1100]))
    validated(ck, hs, keep=granted)
    hb = r.sample(all_subsets(r, 3), size(4, 8)) + r.sample(all_subsets(r, 4), size(3, 40))
    hb += random_access(r, size(10, 120), keys=3) + large(r, size(2, 20), 8, 14, huge=size([50, 70], [50, 70, 100, 130]))
    validated(ck, hb, "bls", keep=granted)
    ifaces.part(ck, "C01", [ifaces.accesses(r) for _ in range(size(16, 300))], ifaces.granted)


def c02(ck):
    r = rng("C02")
    ck.assumptions = ASSUME
    ck.put("rule", "every And/Or formula of up to %d leaves with every attribute subset, random formulas with sets one attribute short of satisfying, formulas of 65 and 129 leaves" % size(5, 6))
    design(ck, *size(["access"], ["access", "access_deep"]), broken=("steep", "either", "firstonly"))
    behaviours(ck, "access", size(150, 1500), size(40, 60), keep=lambda e, x: e["res"] == ["no"])
    hs = [h for n in range(1, size(6, 7)) for h in all_subsets(r, n, axes=2 - n % 2)]
    hs += random_access(r, size(120, 1500), bias=0.75)
    hs += large(r, size(40, 300), huge=size([65, 129], [64, 65, 66, 127, 128, 129, 130, 200, 256, 257]) * 2)
    hs += crowded(r, size([40, 100, 270, 300], [60, 65, 100, 129, 200, 250, 257, 300, 520, 600, 1030, 1100]))
    validated(ck, hs, keep=denied)
    hb = r.sample(all_subsets(r, 3), size(4, 8)) + r.sample(all_subsets(r, 4), size(3, 40))
    hb += random_access(r, size(10, 120), keys=3, bias=0.75) + large(r, size(2, 20), 8, 14)
    validated(ck, hb, "bls", keep=denied)
    ifaces.part(ck, "C02", [ifaces.accesses(r) for _ in range(size(16, 300))], ifaces.denied)


def hierarchies(r, count, rots=True, tall=()):
    """rights at every level of hierarchical axes, in several positions, against every level"""
    hs = []
    plans = [r.choice([[1], [2], [3], [4], [5], [2, 3], [3, 3], [4, 2], [2, 2, 2], [1, 2, 1, 2, 1, 1], [2] * 8]) for _ in range(count)]
    for sizes in plans + [list(t) for t in tall]:
        slack = r.choice([0, 2, 4])
        h = [{"op": "policy", "p": "p", "max": sum(sizes) + 3 + slack}]
        axes = []
        order = list(range(len(sizes) + 1))
        r.shuffle(order)
        for o in order:
            if o == len(sizes):
                h.append({"op": "axis", "p": "p", "name": "Flat", "attrs": ["u", "v", "w"], "hier": False})
                continue
            # attribute names whose alphabetical order is not the declared order
            names = naming(r, sizes[o])
            axes.append(("H%d" % o, names))
            h.append({"op": "axis", "p": "p", "name": "H%d" % o, "attrs": names, "hier": True})
        h += [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g"}]
        c = 0

        def rotate():
            ax, ns = r.choice(axes)
            return {"op": "rotate", "p": "p", "attr": A(ax, r.choice(ns))}
        while rots and slack and r.random() < 0.6:
            h.append(rotate())
            slack -= 1
        ks = []
        for ax, ns in axes:
            for x in ns:
                fs = [attr(A(ax, x)), ["and", attr(A("Flat", "u")), attr(A(ax, x))], ["or", attr(A("Flat", "v")), attr(A(ax, x))]]
                if len(axes) > 1:
                    o, os_ = r.choice([a for a in axes if a[0] != ax])
                    fs.append([r.choice(["and", "or"]), attr(A(ax, x)), attr(A(o, r.choice(os_)))])
                for f in r.sample(fs, 2):
                    k = "k%d" % len(ks)
                    ks.append(k)
                    h.append({"op": "ukey", "k": k, "p": "p", "m": "m", "ap": f})
            if rots and slack and r.random() < 0.3:
                h.append(rotate())
                slack -= 1
        for ax, ns in axes:
            for x in ns:
                for s in ([A(ax, x)], [A(ax, x), A("Flat", r.choice("uvw"))], [A("Flat", "u"), A(ax, x)]):
                    if len(axes) > 1 and r.random() < 0.4:
                        o, os_ = r.choice([a for a in axes if a[0] != ax])
                        s = s + [A(o, r.choice(os_))]
                    h.append({"op": "encrypt", "c": "c%d" % c, "p": "p", "m": "m", "attrs": s, "g": "g"})
                    c += 1
        for k in ks:
            for i in range(c):
                if c * len(ks) < 150 or r.random() < (150.0 if max(sizes) < 8 else 500.0) / (c * len(ks)):
                    h.append({"op": "decrypt", "c": "c%d" % i, "k": k})
        hs.append(h)
    return hs


def c03(ck):
    r = rng("C03")
    ck.assumptions = ASSUME
    ck.put("rule", "policies with 1-3 hierarchical axes of 1-5 attributes (a few of 9 to 33) and a flat one, rotated or not; every right alone, under And and under Or, against every level")
    design(ck, *size(["access"], ["access", "access_deep"]), broken=("upward", "flat", "steep"))
    behaviours(ck, "rotate", size(120, 1500), size(40, 60))
    hs = hierarchies(r, size(120, 1500), tall=size([[9], [17, 2], [33]], [[8], [9, 9], [16], [17, 3], [32], [33], [65], [129]]))
    hs += random_access(r, size(60, 800), hier=0.9, nattrs=(2, 6))
    validated(ck, hs)
    validated(ck, hierarchies(r, size(6, 60)), "bls")
    ifaces.part(ck, "C03", [ifaces.levels(r) for _ in range(size(16, 250))])


def rotations(r, count, keys=(3, 7), steps=24):
    """rotations, issues and encryptions interleaved; at the end every key meets every ciphertext"""
    hs = []
    for _ in range(count):
        g = PolGen(r)
        h = g.setup((1, 3), (1, 4), 0.4, slack=r.choice([1, 3, 6, 12]))
        h += [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g0"}, {"op": "msg", "g": "g1"}]
        ks, cs = [], []
        hot = r.sample(g.attrs(), min(2, len(g.attrs())))
        last = g.formula(4)
        for _ in range(r.randint(8, steps)):
            x = r.random()
            if x < 0.3 and g.room():
                h.append(g.rotate(r.choice(hot) if r.random() < 0.7 else None))
            elif x < 0.55 and len(ks) < 7:
                # often the same rights again: a refreshed key
                last = last if r.random() < 0.5 else g.formula(4)
                k = "k%d" % len(ks)
                ks.append(k)
                h.append({"op": "ukey", "k": k, "p": "p", "m": "m", "ap": last})
            elif x < 0.62:
                h.append({"op": "policy_json", "p": "p", "store": "pj"})
                h.append({"op": "policy_load", "p": "p", "from": {"ref": "pj"}})
            elif x < 0.66 and ks:
                h.append({"op": "reload", "kind": "key", "id": r.choice(ks)})
            elif len(cs) < 9:
                s = r.choice(g.near(last)) if r.random() < 0.6 else [r.choice(hot)]
                c = "c%d" % len(cs)
                cs.append(c)
                h.append({"op": "encrypt", "c": c, "p": "p", "m": "m", "attrs": s, "g": "g%d" % r.randint(0, 1)})
            if ks and cs and r.random() < 0.4:
                h.append({"op": "decrypt", "c": r.choice(cs), "k": r.choice(ks)})
        h += [{"op": "decrypt", "c": c, "k": k} for k in ks for c in cs]
        h.append({"op": "policy_dump", "p": "p"})
        hs.append(h)
    return hs


def generations(r, count, many=()):
    """one attribute rotated again and again: a key and a ciphertext of every generation"""
    hs = []
    for n in [r.randint(1, 8) for _ in range(count)] + list(many):
        hier = r.random() < 0.5
        names = ["a", "b", "c"][:r.randint(1, 3)]
        h = [{"op": "policy", "p": "p", "max": len(names) + 1 + n},
             {"op": "axis", "p": "p", "name": "H", "attrs": names, "hier": hier},
             {"op": "axis", "p": "p", "name": "F", "attrs": ["x"], "hier": False},
             {"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g"}]
        a = A("H", r.choice(names))
        right = A("H", names[-1]) if hier else a
        f = r.choice([attr(right), ["and", attr(right), attr(A("F", "x"))], ["or", attr(A("F", "x")), attr(right)]])
        at = set(range(n + 1)) if n < 20 else {0, 1, n - 1, n} | set(r.sample(range(n), 12))
        for i in range(n + 1):
            if i not in at:
                h.append({"op": "rotate", "p": "p", "attr": a})
                continue
            h.append({"op": "ukey", "k": "k%d" % i, "p": "p", "m": "m", "ap": f})
            s = [a] + ([A("F", "x")] if f[0] == "and" else [])
            h.append({"op": "encrypt", "c": "c%d" % i, "p": "p", "m": "m", "attrs": s, "g": "g"})
            if i < n:
                h.append({"op": "rotate", "p": "p", "attr": a})
        h += [{"op": "decrypt", "c": "c%d" % i, "k": "k%d" % j} for i in sorted(at) for j in sorted(at)]
        hs.append(h)
    return hs


def c04(ck):
    r = rng("C04")
    ck.assumptions = ASSUME
    ck.put("rule", "interleavings of rotations, key issues and encryptions, every key against every ciphertext; up to 9 generations of one attribute, some of 17 to 70")
    design(ck, *size(["access"], ["access", "access_deep"]), broken=("newest", "older", "first", "reuse", "replaced"))
    behaviours(ck, "rotate", size(150, 2000), size(50, 80))
    validated(ck, rotations(r, size(160, 2500)) + generations(r, size(40, 300), size([17, 33, 70], [15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 256, 257])))
    validated(ck, rotations(r, size(8, 80)) + generations(r, size(3, 20)), "bls")
    ifaces.part(ck, "C04", [ifaces.rotating(r, r.randint(2, 4)) for _ in range(size(16, 250))])


# ---------------------------------------------------------------------------


def narrower(r, f):
    """drop alternatives, exchange operands"""
    if f[0] in ("attr", "all"):
        return f
    x = r.random()
    if f[0] == "or" and x < 0.35:
        return narrower(r, f[r.choice([1, 2])])
    a, b = narrower(r, f[1]), narrower(r, f[2])
    return [f[0], b, a] if x > 0.65 else [f[0], a, b]


def or_to_and(f):
    return f[0] in ("and", "or") and (f[0] == "or" or or_to_and(f[1]) or or_to_and(f[2]))


def wider(r, f, others):
    """an attempt to get more: Or for And, attributes of others, single leaves of an And"""
    x = r.random()
    ls = leaves(f)
    if f[0] == "all" or x < 0.2:
        return attr(r.choice(others or ls))
    if x < 0.4:
        return attr(r.choice(ls))
    if x < 0.6 and f[0] == "and":
        return ["or", f[1], f[2]]
    if x < 0.8 and others:
        return ["or", f, attr(r.choice(others))]
    s = r.sample(ls, r.randint(1, len(ls)))
    return random_tree(r, s, 0.2)


def is_or_to_and(c, p):
    """child obtained from the parent with at least one Or turned into And (outside the
    implementation's guarantee: known finding)"""
    def narrows(c, p):
        if p[0] == "attr":
            return c == p, False
        both = []
        if c[0] in ("and", "or"):
            for x, y in ((1, 2), (2, 1)):
                (a, s), (b, t) = narrows(c[1], p[x]), narrows(c[2], p[y])
                both.append((a and b, s or t))
        if p[0] == "and":
            for a, s in both:
                if a and c[0] == "and":
                    return True, s
            return False, False
        for a, s in both:
            if a:
                return True, s or c[0] == "and"
        for i in (1, 2):
            a, s = narrows(c, p[i])
            if a:
                return a, s
        return False, False
    a, s = narrows(c, p)
    return a and s


def delegations(r, count, depth=3, subsets=True, nmax=5):
    hs = []
    for _ in range(count):
        g = PolGen(r)
        h = g.setup((1, 3), (2, 4), 0.25, slack=2)
        h += [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g"}]
        if r.random() < 0.3:
            h.append(g.rotate())
        f = g.formula(nmax, allp=0.05)
        h.append({"op": "ukey", "k": "k0", "p": "p", "m": "m", "ap": f})
        keys = [("k0", f)]
        fam = {"k0": None}
        for i in range(1, depth + 2):
            src, pf = r.choice(keys)
            x = r.random()
            if x < 0.25:
                ch = ["all"]
            elif x < 0.75:
                ch = narrower(r, pf)
            else:
                ch = wider(r, pf, [a for a in g.attrs() if a not in leaves(pf)])
            k = "k%d" % i
            if g.room() and r.random() < 0.1:
                h.append(g.rotate())
            h.append({"op": "delegate", "k": k, "p": "p", "m": "m", "src": src, "ap": ch})
            if r.random() < 0.2:
                h.append({"op": "reload", "kind": "key", "id": k})
            keys.append((k, pf if ch[0] == "all" else ch))
        ls = leaves(f) or g.attrs()
        pool = [tuple(x) for l in ls for x in g.covers(l)]
        pool = sorted(set(pool))
        sets = []
        if len(pool) <= 4:
            sets = [[list(pool[i]) for i in range(len(pool)) if b >> i & 1] for b in range(1, 1 << len(pool))]
        else:
            sets = [[list(x) for x in r.sample(pool, r.randint(1, len(pool)))] for _ in range(10)]
            for _, kf in keys:
                sets += g.near(kf)[:2]
        for i, s in enumerate(sets):
            h.append({"op": "encrypt", "c": "c%d" % i, "p": "p", "m": "m", "attrs": s, "g": "g"})
            h += [{"op": "decrypt", "c": "c%d" % i, "k": k} for k, _ in keys]
        hs.append(h)
    return hs


OR_TO_AND = {
    "or-to-and: (F::a0 | F::a1) delegated as (F::a0 & F::a1)":
        (["or", 0, 1], ["and", 0, 1]),
    "or-to-and: ((F::a0 | F::a1) & F::a2) delegated as ((F::a0 & F::a1) & F::a2)":
        (["and", ["or", 0, 1], 2], ["and", ["and", 0, 1], 2]),
    "or-to-and: (F::a0 | (F::a1 | F::a2)) delegated as (F::a0 & (F::a1 | F::a2))":
        (["or", 0, ["or", 1, 2]], ["and", 0, ["or", 1, 2]]),
}


def or_to_and_probes(ck):
    """the part of the property the implementation is known not to give"""
    def lf(t):
        return attr(A("F", "a%d" % t)) if isinstance(t, int) else [t[0], lf(t[1]), lf(t[2])]
    hs = []
    names = sorted(OR_TO_AND)
    for n in names:
        p, c = OR_TO_AND[n]
        pol, al = flat_policy(3, 0)
        h = pol + [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g"},
                   {"op": "ukey", "k": "k", "p": "p", "m": "m", "ap": lf(p)},
                   {"op": "delegate", "k": "d", "p": "p", "m": "m", "src": "k", "ap": lf(c)}]
        for b in range(1, 8):
            s = [al[i] for i in range(3) if b >> i & 1]
            h += [{"op": "encrypt", "c": "c%d" % b, "p": "p", "m": "m", "attrs": s, "g": "g"},
                  {"op": "decrypt", "c": "c%d" % b, "k": "d"}]
        hs.append(h)
    results = run_histories(hs, "toyl")
    ev, where = events_of(hs, results)
    rej, r = validate("AbeTrace", "AbeStrict.cfg", ev, "C05-strict", len(hs))
    for x in rej:
        hi, ci = where[x["line"] - 1]
        res = results[hi][ci]
        # the finding is: a delegation that is accepted, and whose key reads garbage
        # where its policy is satisfied
        known = hs[hi][ci]["op"] == "decrypt" and res["res"] == "wrong" and 'want |-> {"msg"}' in x["spec"]
        ck.violation("%s: %s gave %s, want %s" % (names[hi], json.dumps(hs[hi][ci]), res["res"], x["spec"]),
                     {"backend": "toyl", "commands": hs[hi][:ci + 1], "result": res},
                     names[hi] if known else None)
    ck.add("or_to_and_probes", len(hs))


def c05(ck):
    r = rng("C05")
    ck.assumptions = ASSUME + ["Or turned into And: only the listed probes (known finding)"]
    ck.put("rule", "parents of up to 5 leaves, children by dropping, exchanging, randomizing or widening, chains up to 4 (a few up to 10), every attribute subset of small parents")
    design(ck, *size(["delegate"], ["delegate", "delegate_deep"]), broken=("unbounded", "everything", "useless"))
    behaviours(ck, "delegate", size(150, 2000), size(45, 70))
    validated(ck, delegations(r, size(220, 3000)) + delegations(r, size(12, 200), depth=9, nmax=10))
    validated(ck, delegations(r, size(10, 120), depth=2, nmax=4), "bls")
    or_to_and_probes(ck)
    ifaces.part(ck, "C05", [ifaces.delegating(r) for _ in range(size(24, 400))])


def relabel(f):
    return ("leaf", f[1]) if f[0] == "attr" else (f[0], relabel(f[1]), relabel(f[2]))


def splices(r, count, es, foreign, nmax=4):
    """keys of equal shape for different attributes (and authorities), their shares mixed"""
    hs = []
    for _ in range(count):
        n = r.randint(2, 4) if nmax == 4 else r.randint(5, nmax)
        per = 3
        h = [{"op": "policy", "p": "p", "max": n * per}]
        for i in range(n):
            h.append({"op": "axis", "p": "p", "name": "X%d" % i, "attrs": ["u", "v", "w"], "hier": False})
        ms = ["m1", "m2"] if foreign else ["m1"]
        h += [{"op": "master", "m": m, "p": "p"} for m in ms] + [{"op": "msg", "g": "g"}]
        sh = r.choice([s for s in shapes(n) if s[0] == "and"] if r.random() < 0.8 else list(shapes(n))) if n < 6 else None
        nk = r.randint(2, 3)
        keys = []
        for j in range(nk):
            ls = [A("X%d" % i, "uvw"[j]) for i in range(n)]
            m = r.choice(ms)
            k = "k%d" % j
            if sh is None:
                sh = relabel(random_tree(r, list(range(n)), 0.7))
            h.append({"op": "ukey", "k": k, "p": "p", "m": m, "ap": fill(sh, ls)})
            keys.append((k, m))
        x = r.random()
        if x < 0.35:     # derived keys join the pool
            s, m = r.choice(keys)
            # delegation material of either authority
            h.append({"op": "delegate", "k": "kd", "p": "p", "m": r.choice(ms), "src": s, "ap": ["all"]})
            keys.append(("kd", m))
        names = [k for k, _ in keys]
        c = 0
        for t in range(3):
            base = r.choice(names)
            rows = [[r.choice(names), i] for i in range(n)]
            if len({a for a, _ in rows} | {base}) < 2:
                continue
            k = "s%d" % t
            h.append({"op": "splice", "k": k, "base": base, "rows": rows, "es": es, "from": sorted({a for a, _ in rows} | {base}),
                      "shape": ["v", 1]})
            # what the mixture would be for, in attribute names; derived keys keep their source's attributes
            def nm(a, i):
                j = names.index(a) if a != "kd" else names.index(s)
                return A("X%d" % i, "uvw"[j])
            want = [nm(a, i) for a, i in rows]
            for at_ in (want, [w for w in want if r.random() < 0.7] or want[:1], want + [A("X0", r.choice("uvw"))]):
                m = r.choice(ms)
                h += [{"op": "encrypt", "c": "c%d" % c, "p": "p", "m": m, "attrs": at_, "g": "g"},
                      {"op": "decrypt", "c": "c%d" % c, "k": k}]
                h += [{"op": "decrypt", "c": "c%d" % c, "k": x} for x in names[:2]]
                c += 1
        hs.append(h)
    return hs


def exchanges(r, count, es, lo=3, hi=7):
    """two keys of one authority for the same formula of other attributes; each share alone, and each
    run of shares, put into the other key"""
    hs = []
    for _ in range(count):
        n = r.randint(lo, hi)
        h = [{"op": "policy", "p": "p", "max": 2 * n}]
        for i in range(n):
            h.append({"op": "axis", "p": "p", "name": "X%d" % i, "attrs": ["u", "v"], "hier": False})
        h += [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g"}]
        sh = relabel(random_tree(r, list(range(n)), r.choice([0.8, 1, 1])))
        names = ["k0", "k1"]
        for k, v in (("k0", "u"), ("k1", "v")):
            h.append({"op": "ukey", "k": k, "p": "p", "m": "m", "ap": fill(sh, [A("X%d" % i, v) for i in range(n)])})
        if r.random() < 0.4:
            h.append({"op": "delegate", "k": "kd", "p": "p", "m": "m", "src": "k0", "ap": ["all"]})
            names[0] = "kd"
        runs = [(i, i + 1) for i in range(n)] + [tuple(sorted(r.sample(range(n + 1), 2))) for _ in range(2)]
        for c, (lo_, hi_) in enumerate(runs):
            rows = [[names[lo_ <= i < hi_], i] for i in range(n)]
            if len({a for a, _ in rows}) < 2:
                continue
            h.append({"op": "splice", "k": "s%d" % c, "base": names[0], "rows": rows, "es": es, "from": sorted(names), "shape": ["v", 1]})
            want = [A("X%d" % i, "uv"[lo_ <= i < hi_]) for i in range(n)]
            h += [{"op": "encrypt", "c": "c%d" % c, "p": "p", "m": "m", "attrs": want, "g": "g"},
                  {"op": "decrypt", "c": "c%d" % c, "k": "s%d" % c}]
        hs.append(h)
    return hs


def authorities(r, count):
    """two authorities: keys, delegation material and ciphertexts crossed"""
    hs = []
    for _ in range(count):
        g = PolGen(r)
        h = g.setup((1, 3), (1, 4), 0.3)
        h += [{"op": "master", "m": "m1", "p": "p"}, {"op": "master", "m": "m2", "p": "p"},
              {"op": "msg", "g": "g0"}, {"op": "msg", "g": "g1"}]
        c = 0
        ks = []
        for i in range(4):
            f = g.formula(4, allp=0.1)
            h.append({"op": "ukey", "k": "k%d" % i, "p": "p", "m": "m%d" % r.randint(1, 2), "ap": f})
            ks.append(("k%d" % i, f))
            if r.random() < 0.5:
                s, sf = r.choice(ks)
                ch = ["all"] if r.random() < 0.5 else narrower(r, sf)
                h.append({"op": "delegate", "k": "d%d" % i, "p": "p", "m": "m%d" % r.randint(1, 2), "src": s, "ap": ch})
                ks.append(("d%d" % i, sf if ch == ["all"] else ch))
            for s in g.near(ks[-1][1])[:2]:
                h.append({"op": "encrypt", "c": "c%d" % c, "p": "p", "m": "m%d" % r.randint(1, 2), "attrs": s,
                          "g": "g%d" % r.randint(0, 1)})
                h += [{"op": "decrypt", "c": "c%d" % c, "k": k} for k, _ in ks]
                c += 1
        hs.append(h)
    return hs


def unentitled(j):
    """C06 is about reading too much"""
    return j.event["op"] == "decrypt" and j.event["res"] in ("msg", "wrong", "panic", "crash", "hang")


def c06(ck):
    r = rng("C06")
    ck.assumptions = ASSUME + ["recombinations: share rows of keys of equal shape exchanged within one span program"]
    ck.put("rule", "2-3 keys of equal shape and a derived one, their shares exchanged row by row; two authorities with keys, delegation and ciphertexts crossed")
    design(ck, *size(["collude"], ["collude", "collude_deep"]), broken=("anyauthority", "pooled"))
    behaviours(ck, "foreign", size(120, 1500), size(45, 70), keep=lambda e, x: e["op"] == "decrypt")
    validated(ck, splices(r, size(150, 2000), 8, False) + splices(r, size(80, 1000), 8, True) + splices(r, size(12, 200), 8, False, 9) + exchanges(r, size(50, 800), 8) + authorities(r, size(80, 1000)), keep=unentitled)
    validated(ck, splices(r, size(8, 80), 96, False) + splices(r, size(4, 40), 96, True) + exchanges(r, size(4, 60), 96, 4, 5) + authorities(r, size(6, 60)), "bls", keep=unentitled)
    ifaces.part(ck, "C06", [ifaces.foreign(r) for _ in range(size(14, 200))], lambda j: j.event["op"] == "hdr_dec" and j.event["res"] != "err")


# ---------------------------------------------------------------------------


def budgets(r, count, lo=1, hi=8, many=()):
    hs = []
    for n in [lo + i % (hi - lo + 1) for i in range(count)] + list(many):
        h = [{"op": "policy", "p": "p", "max": n}]
        early = r.random() < 0.3      # the master key may come before the attributes
        if early:
            h.append({"op": "master", "m": "m", "p": "p"})
        left, ax, al = n, 0, []

        def dump():
            return {"op": "policy_dump", "p": "p"}
        while left > 0:
            x = r.random()
            if al and x < 0.4:
                h.append({"op": "rotate", "p": "p", "attr": r.choice(al)})
                left -= 1
            elif x < 0.55:
                # too many at once: refused, nothing changes
                h.append({"op": "axis", "p": "p", "name": "B%d" % len(h), "hier": False,
                          "attrs": ["z%d" % j for j in range(left + r.randint(1, 3))]})
                h.append(dump())
            elif x < 0.6 and al:
                h.append({"op": "rotate", "p": "p", "attr": A("nope", "z")})
                h.append(dump())
            else:
                k = r.randint(1, min(left, 4 if n < 30 else n // 5))
                names = ["a%d" % j for j in range(k)]
                h.append({"op": "axis", "p": "p", "name": "A%d" % ax, "attrs": names, "hier": r.random() < 0.4})
                al += [A("A%d" % ax, x) for x in names]
                ax += 1
                left -= k
            if n not in many and r.random() < 0.15:
                break
        if not early:
            h.append({"op": "master", "m": "m", "p": "p"})
        h.append({"op": "msg", "g": "g"})
        if left == 0:
            h.append({"op": "rotate", "p": "p", "attr": r.choice(al)})
            h.append({"op": "axis", "p": "p", "name": "late", "attrs": ["one"], "hier": False})
            h.append(dump())
        if r.random() < 0.4 and n > 1:
            # an authority for a smaller or larger budget
            n2 = r.choice([x for x in (1, n - 1, n + 1, n + 3) if x > 0])
            h += [{"op": "policy", "p": "q", "max": n2}, {"op": "master", "m": "other", "p": "q"}]
        use = al[-3:] + r.sample(al, min(3, len(al)))
        c = 0
        for a in use:
            for m in ("m", "other"):
                k = "k%d" % c
                f = attr(a) if r.random() < 0.6 else ["or", attr(a), attr(r.choice(al))]
                h += [{"op": "ukey", "k": k, "p": "p", "m": m, "ap": f},
                      {"op": "encrypt", "c": "c%d" % c, "p": "p", "m": m, "attrs": [a], "g": "g"},
                      {"op": "decrypt", "c": "c%d" % c, "k": k},
                      {"op": "delegate", "k": "d%d" % c, "p": "p", "m": m, "src": k, "ap": ["all"]},
                      {"op": "decrypt", "c": "c%d" % c, "k": "d%d" % c}]
                # a key of the first authority with another's material, which may end before the attribute
                h += [{"op": "delegate", "k": "x%d" % c, "p": "p", "m": "other" if m == "m" else "m", "src": k, "ap": r.choice([["all"], f, attr(a)])},
                      {"op": "decrypt", "c": "c%d" % c, "k": "x%d" % c}]
                c += 1
        h.append({"op": "ukey", "k": "kall", "p": "p", "m": "m", "ap": ["all"]})
        h.append({"op": "encrypt", "c": "call", "p": "p", "m": "m", "attrs": al, "g": "g"})
        h.append({"op": "decrypt", "c": "call", "k": "kall"})
        h += [{"op": "decrypt", "c": "c%d" % i, "k": "kall"} for i in range(c)]
        h.append(dump())
        hs.append(h)
    return hs


def c10(ck):
    r = rng("C10")
    ck.assumptions = ASSUME
    ck.put("rule", "budgets 1..12 (and a few up to 520, 260 in the real group) spent through axes and rotations down to the last creation, then beyond; authorities of other budgets")
    design(ck, *size(["access"], ["access", "access_deep"]), broken=("short", "recycled"))
    behaviours(ck, "budget", size(150, 2000), size(45, 60))
    validated(ck, budgets(r, size(240, 3000), 1, 12, size([16, 33, 65, 130, 256, 258, 300, 520], [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] * 3 + [512, 1000, 1030])))
    validated(ck, budgets(r, size(16, 160), 1, 8, size([70, 260], [70, 130, 260, 300, 520])), "bls")
    ifaces.part(ck, "C10", [ifaces.budgeted(r) for _ in range(size(20, 300))])


def wild(r, al, n):
    """formulas with unknown names, nested All, repeated attributes"""
    def leaf():
        x = r.random()
        if x < 0.06:
            return ["all"]
        a = list(r.choice(al))
        if x < 0.12:
            return attr(["Nope", a[1]])
        if x < 0.18:
            return attr([a[0], "nope"])
        if x < 0.22:
            return attr([a[1], a[0]])
        if x < 0.25:
            return attr([a[0].lower() + " ", a[1]])
        return attr(a)
    if n == 1:
        return leaf()
    k = r.randint(1, n - 1)
    return [r.choice(["and", "or"]), wild(r, al, k), wild(r, al, n - k)]


def admissions(r, count):
    hs = []
    for _ in range(count):
        g = PolGen(r)
        h = g.setup((1, 4), (1, 5), 0.5)
        h += [{"op": "master", "m": "m", "p": "p"}, {"op": "msg", "g": "g"}]
        al = g.attrs()
        h.append({"op": "ukey", "k": "par", "p": "p", "m": "m", "ap": ["all"]})
        f0 = g.formula(5)
        h.append({"op": "ukey", "k": "par2", "p": "p", "m": "m", "ap": f0})
        for i in range(14):
            if g.room() and r.random() < 0.15:
                h.append(g.rotate())
            x = r.random()
            if x < 0.35:
                f = wild(r, al, r.randint(1, 4))
            elif x < 0.7:
                f = g.formula(6)
            elif x < 0.85:
                # one attribute twice, far apart, or two levels of one hierarchy
                ls = leaves(g.formula(5)) or [al[0]]
                a = r.choice(ls)
                same = [b for b in al if b[0] == a[0]]
                f = random_tree(r, ls + [r.choice(same)])
            else:
                f = random_tree(r, r.sample(al, r.randint(1, min(5, len(al)))))
            op = {"op": "ukey", "k": "k%d" % i, "p": "p", "m": "m", "ap": f}
            if r.random() < 0.3:
                op = {"op": "delegate", "k": "k%d" % i, "p": "p", "m": "m", "src": r.choice(["par", "par2"]), "ap": f}
                if len(leaves(f)) > 5:
                    continue
            h.append(op)
            if r.random() < 0.5:
                s = [list(a) for a in r.sample(al, r.randint(1, min(4, len(al))))]
                if r.random() < 0.5:
                    bad = r.choice([["Nope", "x"], [al[0][0], "nope"], [al[0][1], al[0][0]], [al[0][0] + "x", al[0][1]]])
                    s.insert(r.randint(0, len(s)), bad)
                h.append({"op": "encrypt", "c": "c%d" % i, "p": "p", "m": "m", "attrs": s, "g": "g"})
        hs.append(h)
    for n in size([12, 24, 40], [8, 9, 12, 16, 17, 24, 31, 32, 33, 40, 64, 65, 100] * 2):
        # large formulas: good as they are, refused with one attribute twice
        pol, al = flat_policy(n, 2, r.choice([1, 2]))
        r.shuffle(al)
        h = pol + [{"op": "master", "m": "m", "p": "p"}]
        for i in range(6):
            ls = list(al[:n])
            if i % 2:
                x, y = r.sample(range(n), 2)
                ls[x] = ls[y]
            f = balanced([attr(a) for a in ls], lambda: r.choice(["and", "or"])) if n > 30 or i % 3 == 0 else random_tree(r, ls)
            h.append({"op": "ukey", "k": "k%d" % i, "p": "p", "m": "m", "ap": f})
        hs.append(h)
    # a policy without attributes: nothing at all is acceptable
    hs.append([{"op": "policy", "p": "p", "max": 3}, {"op": "master", "m": "m", "p": "p"},
               {"op": "msg", "g": "g"},
               {"op": "ukey", "k": "k", "p": "p", "m": "m", "ap": ["all"]},
               {"op": "ukey", "k": "k", "p": "p", "m": "m", "ap": attr(["A", "b"])},
               {"op": "encrypt", "c": "c", "p": "p", "m": "m", "attrs": [["A", "b"]], "g": "g"}])
    return hs


def exhaustive_admission(r):
    """every formula of up to three leaves over two hierarchical, two flat, an unknown
    attribute and All: accepted exactly when the specification accepts it"""
    al = [attr(A("H", "a")), attr(A("H", "b")), attr(A("F", "a")), attr(A("F", "b")), attr(A("F", "no")), attr(A("No", "a")), ["all"]]
    fs = list(al)
    fs += [[o, x, y] for o in ("and", "or") for x in al for y in al]
    for o in ("and", "or"):
        for q in ("and", "or"):
            for x in al:
                for y in al:
                    for z in al:
                        if r.random() < (1.0 if THOROUGH else 0.5):
                            fs.append([o, x, [q, y, z]] if r.random() < 0.5 else [o, [q, x, y], z])
    hs = []
    for i in range(0, len(fs), 60):
        h = [{"op": "policy", "p": "p", "max": 5},
             {"op": "axis", "p": "p", "name": "H", "attrs": ["a", "b"], "hier": True},
             {"op": "axis", "p": "p", "name": "F", "attrs": ["b", "a"], "hier": False},
             {"op": "master", "m": "m", "p": "p"}]
        if i % 120:
            h.append({"op": "rotate", "p": "p", "attr": A("H", "a")})
        h += [{"op": "ukey", "k": "k%d" % j, "p": "p", "m": "m", "ap": f} for j, f in enumerate(fs[i:i + 60])]
        hs.append(h)
    return hs


def not_reading(j):
    return j.event["op"] != "decrypt"


def c11(ck):
    r = rng("C11")
    ck.assumptions = ASSUME
    ck.put("rule", "formulas of up to 3 leaves over known, unknown and All; random formulas with repeated, overlapping and unknown attributes (and of up to 40 leaves with one repeated), for issue and delegation; attribute lists with unknown names")
    design(ck, *size(["access"], ["access", "access_deep"]), broken=("repeated", "unknown"))
    behaviours(ck, "refuse", size(150, 2000), size(45, 60), keep=lambda e, x: e["op"] != "decrypt")
    validated(ck, admissions(r, size(150, 2500)) + exhaustive_admission(r), keep=not_reading)
    validated(ck, admissions(r, size(5, 60)), "bls", keep=not_reading)
    ifaces.part(ck, "C11", [ifaces.admitted(r) for _ in range(size(20, 300))], lambda j: j.event["op"] != "hdr_dec")


