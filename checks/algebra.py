"""C18 span programs and solver, C19 formula texts, C22 the pairing group."""
import itertools

from lib.abe import *
from .access import size


def chunks(cmds, n=400):
    return [cmds[i:i + n] for i in range(0, len(cmds), n)]


def run_flat(cmds, backend="toyl"):
    out = run_histories(chunks(cmds), backend)
    return [x for o in out for x in o]


def node_of(sh, ls):
    if sh[0] == "leaf":
        return ["v", ls[sh[1]]]
    return [sh[0], node_of(sh[1], ls), node_of(sh[2], ls)]


def random_node(r, ls, bias):
    if len(ls) == 1:
        return ["v", ls[0]]
    k = r.choice([1, len(ls) - 1, r.randint(1, len(ls) - 1)])
    return ["and" if r.random() < bias else "or", random_node(r, ls[:k], bias), random_node(r, ls[k:], bias)]


def even_node(r, ls, bias):
    if len(ls) == 1:
        return ["v", ls[0]]
    k = len(ls) // 2
    return ["and" if r.random() < bias else "or", even_node(r, ls[:k], bias), even_node(r, ls[k:], bias)]


def holds(t, s):
    if t[0] == "v":
        return t[1] in s
    return (all if t[0] == "and" else any)(holds(x, s) for x in t[1:])


def near_sets(r, t, ls, n):
    """sets at the boundary of what the formula accepts: minimal ones, maximal refused ones"""
    out = []
    for _ in range(n):
        s = set(ls)
        for x in r.sample(ls, len(ls)):
            if holds(t, s - {x}):
                s.remove(x)
        out.append(sorted(s))
        if r.random() < 0.5:
            s = {x for x in s if r.random() < 0.5}
        s.discard(r.choice(out[-1]))
        for x in r.sample(ls, len(ls)):
            if not holds(t, s | {x}):
                s.add(x)
        out.append(sorted(s))
    return out


def mat(r, rows, cols, vals, rank=None):
    if rank is None:
        return [[r.choice(vals) for _ in range(cols)] for _ in range(rows)]
    base = [[r.choice(vals) for _ in range(cols)] for _ in range(rank)]
    out = []
    for _ in range(rows):
        v = [0] * cols
        for b in base:
            c = r.choice([-1, 0, 1, 1, 2])
            v = [x + c * y for x, y in zip(v, b)]
        out.append(v)
    return out


def c18(ck):
    r = rng("C18")
    ck.put("rule", "every formula of up to %d leaves (attribute numbers at random), larger and repeated ones; every small matrix over GF(2), GF(3), random ones up to 7x7 over GF(2..32749) and the BLS12-381 scalars; a sample of formulas of 10 to %d leaves at boundary sets and of matrices up to 72x72 (24x24 for BLS12-381)" % (size(5, 6), size(110, 160)))
    ck.assumptions = ["span programs checked over GF(32749): their entries are too small to tell it from the scalar field",
                      "BLS12-381 solvability compared for matrices with entries in -2..2"]
    d = tlc("MCSpan", "MCSpan.cfg")
    ck.add("states", d.distinct)
    ck.add("transitions", d.states)
    ck.add("model_states", d.distinct)
    refuted(ck, "MCSpanBad", ("short", "shared", "orfirst", "unbased"))
    cmds = []
    for n in range(1, size(6, 7)):
        for sh in shapes(n):
            cmds.append({"op": "msp", "node": node_of(sh, r.sample(range(0, 40), n))})
    for _ in range(size(150, 1500)):
        n = r.randint(4, 9)
        ls = r.sample(range(0, 100), n)
        if r.random() < 0.2:
            ls[r.randrange(n)] = r.choice(ls)
        if r.random() < 0.1:
            ls[0] = r.choice([0, 2147483647, 65536])
        cmds.append({"op": "msp", "node": random_node(r, ls, r.choice([0.3, 0.5, 0.8]))})
    large = {}
    for n in [r.randint(10, 30) for _ in range(size(40, 300))] + size([45, 70, 80, 90, 110], [45, 64, 65, 70, 80, 90, 100, 110, 130, 160]):
        ls = r.sample(range(0, 400), n)
        bias = r.choice([0.2, 0.5, 0.8, 0.95]) if n <= 70 else r.choice([0.9, 0.97])
        t = random_node(r, ls, bias) if n <= 60 else even_node(r, ls, bias)
        large[len(cmds)] = near_sets(r, t, ls, size(6, 12))
        cmds.append({"op": "msp", "node": t})
    # matrices
    for rows, cols in itertools.product((1, 2, 3), (1, 2, 3)):
        allm = list(itertools.product((0, 1), repeat=rows * cols))
        for v in allm:
            cmds.append({"op": "span_s", "q": 2, "m": [list(v[i * cols:(i + 1) * cols]) for i in range(rows)]})
        if rows * cols <= 6:
            allm = list(itertools.product((0, 1, 2), repeat=rows * cols))
            for v in allm if THOROUGH else r.sample(allm, min(len(allm), 300)):
                cmds.append({"op": "span_s", "q": 3, "m": [list(v[i * cols:(i + 1) * cols]) for i in range(rows)]})
    for _ in range(size(3000, 40000)):
        q = r.choice([2, 3, 5, 7, 32749])
        a, b = r.randint(1, 7), r.randint(1, 7)
        vals = list(range(-2, 3)) if r.random() < 0.6 else [0, 0, 0, 1, r.randrange(q), r.randrange(q)]
        m = mat(r, a, b, vals, r.choice([None, None, 1, 2, max(1, min(a, b) - 1)]))
        if r.random() < 0.2:
            m[r.randrange(a)] = [0] * b
        if r.random() < 0.2:
            m[r.randrange(a)] = list(r.choice(m))
        if r.random() < 0.15:
            for row in m:
                row[r.randrange(b)] = 0
        cmds.append({"op": "span_s", "q": q, "m": m})
    for n in [r.randint(8, 20) for _ in range(size(150, 1500))] + [r.randint(24, 40) for _ in range(size(12, 120))] + [r.randint(56, 72) for _ in range(size(4, 40))]:
        q = r.choice([2, 3, 7, 32749])
        a, b = n, max(1, n + r.choice([-3, -2, -1, 0, 0, 0, 1, 2]))
        if r.random() < 0.5:
            a, b = b, a
        vals = r.choice([[-1, 0, 0, 0, 1], [-2, -1, 0, 1, 2], [0, 0, 0, 0, 0, 0, 0, 0, 1], [0, 1, r.randrange(q), r.randrange(q)]])
        cmds.append({"op": "span_s", "q": q, "m": mat(r, a, b, vals, r.choice([None, None, min(a, b), min(a, b) - 1, min(a, b) // 2]))})
    for n in [r.randint(78, 100), r.randint(101, 128), r.randint(129, 140)] * size(1, 4):
        cmds.append({"op": "span_s", "q": r.choice([2, 7, 32749]), "m": mat(r, n, n, [-1] + [0] * (n // 2) + [1], r.choice([None, n, n - 1]))})
    for n in (90, 128, 150, 257):   # chains of differences: sparse, and solvable in exactly one way, or in none
        for last in (1, 0):
            m = [[1 if j == i else -1 if j == i + 1 else 0 for j in range(n)] for i in range(n - 1)] + [[last if j == n - 1 else 0 for j in range(n)]]
            r.shuffle(m)
            cmds.append({"op": "span_s", "q": 32749, "m": m})
    for n in (70, 130, 260, 300):   # tall and wide
        cmds.append({"op": "span_s", "q": r.choice([3, 32749]), "m": mat(r, n, 4, [-1, 0, 0, 1], None)})
        cmds.append({"op": "span_s", "q": r.choice([3, 32749]), "m": mat(r, n, 4, [0, 1], 3)})
        cmds.append({"op": "span_s", "q": r.choice([2, 32749]), "m": mat(r, 4, n, [0, 1], None)})
        cmds.append({"op": "span_s", "q": r.choice([3, 32749]), "m": [[1 if j % 4 == i else 0 for j in range(n)] for i in range(4)]})
        # many rows that say nothing, and then those that count
        k = r.randint(2, 4)
        cmds.append({"op": "span_s", "q": 32749, "m": [[0] * k for _ in range(n - k)] + [[1 if j <= i else 0 for j in range(k)] for i in range(k)]})
    cmds += [{"op": "span_s", "q": 7, "m": []}, {"op": "span_s", "q": 7, "m": [[]]}]
    for _ in range(size(500, 6000)):
        a, b = r.randint(1, 5), r.randint(1, 5)
        m = mat(r, a, b, [-2, -1, 0, 0, 1, 2])
        if r.random() < 0.3:
            m[r.randrange(a)] = [0] * b
        cmds.append({"op": "span_b", "m": m})
    for n in [r.randint(6, 14) for _ in range(size(40, 400))] + [r.randint(16, 24) for _ in range(size(3, 30))]:
        a, b = n, n + r.choice([-2, -1, 0, 0, 1])
        cmds.append({"op": "span_b", "m": mat(r, a, b, r.choice([[-1, 0, 0, 0, 1], [-2, -1, 0, 0, 1, 2]]), r.choice([None, a - 1, a - 2]))})
    res = run_flat(cmds)
    ev = []
    for i, (c, x) in enumerate(zip(cmds, res)):
        e = dict(c)
        e["res"] = x["res"]
        if c["op"] == "msp":
            e["sets"] = large.get(i, [])
        for k in ("rows", "cols", "matrix", "attrs", "back", "a", "n"):
            if k in x:
                e[k] = x[k]
        if "residual" in x:
            e["zero"] = [set(w) == {"0"} for w in x["residual"]]
        ev.append(e)
    ck.add("programs", sum(c["op"] == "msp" for c in cmds))
    ck.add("matrices", sum(c["op"] != "msp" for c in cmds))
    ck.add("solved", sum(e["res"] == "some" for e in ev))
    ck.add("unsolvable", sum(e["res"] == "none" for e in ev))
    ck.sample(ev[30])
    ck.sample(ev[-600])
    for i, _ in validate_pure(ck, "SpanTrace", ev, "C18"):
        ck.violation("%s" % json.dumps(ev[i]), {"commands": [cmds[i]], "result": res[i]})


# ---------------------------------------------------------------------------
# C19


def digits(t):
    return ["v", list(str(t[1]))] if t[0] == "v" else [t[0], digits(t[1]), digits(t[2])]


def write_formula(r, n):
    """a text of the grammar, with needless parentheses and blanks"""
    def sp():
        return " " * r.choice([0, 0, 0, 1, 2])

    def num():
        x = r.random()
        if x < 0.7:
            return str(r.randint(0, 30))
        return r.choice(["4294967295", "4294967294", "007", "000000000012", "0", "00", "2147483648", "1234567890",
                         "1 2", "4294967296" if r.random() < 0.3 else "9"])

    def e(n):
        if n <= 1:
            x = r.random()
            t = num()
            while x < 0.25:
                t = "(" + sp() + t + sp() + ")"
                x = r.random()
            return t
        k = r.choice([1, r.randint(1, n - 1)])
        a = e(k)
        if k > 1:
            a = "(" + a + ")"
        b = e(n - k)
        if r.random() < 0.3:
            b = "(" + sp() + b + ")"
        return sp() + a + sp() + r.choice("&|") + sp() + b
    return e(n)


def mutate_text(r, t):
    t = list(t)
    for _ in range(r.randint(1, 3)):
        x = r.random()
        i = r.randrange(len(t) + 1)
        if x < 0.35 and t:
            del t[min(i, len(t) - 1)]
        elif x < 0.75:
            t.insert(i, r.choice("0123456789()()&|&| "))
        elif x < 0.85:
            t.insert(i, r.choice(["a", "-", "+", "\t", "\n", ".", "\u00e9", "\u2227", "!", "&&", "\u0661", "x", "\u00a0", "\uff11"]))
        elif t and i < len(t):
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
    return "".join(t)


LONG = "parse: 12000 operands joined by & on a thread with a 2 MB stack"


def c19(ck):
    r = rng("C19")
    ck.put("rule", "every text of up to %d characters over digits, parentheses, operators and blanks (from the specification); random formulas, their mutations, foreign characters, number boundaries" % size(5, 6))
    ck.assumptions = ["texts of up to about 2000 operands; deeper ones exhaust the stack (known finding)"]
    if THOROUGH:
        env_cfg = "MCParseDeep.cfg"
    else:
        env_cfg = "MCParse.cfg"
    d = tlc("MCParse", env_cfg)
    ck.add("states", d.distinct)
    ck.add("transitions", d.states)
    ck.add("model_states", d.distinct)
    refuted(ck, "MCParseBad", ("trailing", "blanks", "left", "closer", "forgiving", "mirrored", "digit"))
    fromspec = tagged(d, "TEXT")
    if len(fromspec) < 10000:
        raise ToolError("MCParse wrote %d texts" % len(fromspec))
    cmds = [{"op": "parse", "text": "".join(x["c"])} for x in fromspec]
    res = run_flat(cmds)
    for x, c, y in zip(fromspec, cmds, res):
        want = "ok" if x["ok"] else "err"
        got = y["res"] == want and (want == "err" or digits(y["tree"]) == x["t"])
        if not got:
            ck.violation("%r: got %s, denotes %s" % (c["text"], json.dumps(y), json.dumps(x["t"])), {"commands": [c], "result": y})
    ck.add("texts_of_the_specification", len(cmds))
    ck.add("accepted", sum(x["ok"] for x in fromspec))
    ck.add("traces_validated_against_impl", len(cmds))
    texts = ["", " ", "   ", "()", "(1)", "((1))", "1)", "(1", "1&", "&1", "(1)(2)", "1 2", "1(2)", "(1)2", "((1)&(2))|3", ")1(", "1&2)", "(1&2"]
    for _ in range(size(2500, 30000)):
        t = write_formula(r, r.randint(1, 9))
        if r.random() < 0.55:
            t = mutate_text(r, t)
        texts.append(t)
    for n in (40, 200):
        texts += ["&".join(str(i) for i in range(n)), "(" * n + "1" + ")" * n, "(" * n + "1" + ")" * (n - 1), "|".join("(%d" % i for i in range(n)) + ")" * n]
    cmds = [{"op": "parse", "text": t} for t in texts]
    nodes = []
    for _ in range(size(200, 2000)):
        n = r.randint(1, 8)
        nodes.append({"op": "msp", "node": random_node(r, r.sample(range(1000), n), 0.5)})
    res = run_flat(cmds + nodes)
    ev = []
    for c, y in zip(cmds + nodes, res):
        if c["op"] == "msp":
            ev.append({"op": "show", "tree": digits(c["node"]), "res": y["res"], "shown": y.get("shown", "")})
        else:
            ev.append({"op": "parse", "chars": list(c["text"]), "res": y["res"], "shown": y.get("shown", ""),
                       "tree": digits(y["tree"]) if "tree" in y else ["no"], "msp": bool(y.get("msp"))})
    ck.add("random_texts", len(cmds))
    ck.sample(texts[40])
    ck.sample(texts[41])
    for i, sp in validate_pure(ck, "ParseTrace", ev, "C19"):
        ck.violation("%s got %s, want %s" % (json.dumps((cmds + nodes)[i]), json.dumps(res[i]), sp), {"commands": [(cmds + nodes)[i]], "result": res[i]})
    # known: the parser recurses once per operand
    p = Proc([harness(), "toyl"])
    y = p.call({"op": "parse", "text": "&".join(["1"] * 12000), "quiet": True, "stack": 2}, 120)
    p.stop()
    if y["res"] not in ("ok", "err"):
        ck.violation("%s: %s" % (LONG, json.dumps(y)), {"text": "1&1&... (12000 operands)", "result": y}, LONG if y["res"] == "crash" else None)


# ---------------------------------------------------------------------------
# the pairing group

ORDER = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
FIRST = [("int", "z", 0), ("int", "o", 1), ("int", "m", -1), ("int", "t", 2)]


def le(n, k=32):
    return list(n.to_bytes(k, "little"))


def odd_scalars(r):
    """numbers around everything an implementation could trip over"""
    out = [0, 1, 2, ORDER - 1, ORDER - 2, (ORDER + 1) // 2, (ORDER - 1) // 2, 2 ** 254, 2 ** 64 - 1, 2 ** 64, 2 ** 128 - 1, 2 ** 128, 2 ** 192,
           2 ** 31, 2 ** 32, 255, 256]
    return [r.choice(out), r.randrange(ORDER), ORDER - r.randint(1, 300), 2 ** r.randint(1, 254) % ORDER]


class Group:
    """a program running on the backend, and its events"""

    def __init__(self, p):
        self.p = p
        self.ev, self.cmds = [], []
        self.w = {}
        self.dead = None

    def call(self, c):
        c = dict(c, op="g")
        self.cmds.append(c)
        r = self.p.call(c, 60)
        if r["res"] not in ("ok", "err"):
            self.dead = (c, r["res"])
        return r

    def op(self, f, d, **k):
        """k: a, x, b, ds/es/xs, i, msg"""
        c = {"f": f, "d": d}
        e = {"op": "op", "f": f, "d": d}
        for n in ("a", "x", "ds", "es", "xs", "at"):
            if n in k:
                c[n] = e[n] = k[n]
        if "i" in k:
            c["i"] = k["i"]
            e["neg"], e["mag"] = k["i"] < 0, le(abs(k["i"]), 5)
        if "msg" in k:
            c["data"] = {"hex": bytes(k["msg"]).hex()}
            e["msg"] = list(k["msg"])
        if "b" in k:
            e["b"] = k["b"]
        r = self.call(c)
        if self.dead:
            return None
        e["res"] = r["res"]
        sc = f in SCOPS
        w = r.get("w", "")
        if "n" in r:
            e["n"] = r["n"]
        e["w"] = list(bytes.fromhex(w)) if sc and not w.startswith("err") else w
        self.w[("sc" if sc else kind_of(f)), d] = w
        self.ev.append(e)
        return e["res"] == "ok"

    def eq(self, t, a, x):
        r = self.call({"f": "eq", "t": t, "a": a, "x": x})
        if not self.dead:
            self.ev.append({"op": "eq", "t": t, "a": a, "x": x, "eq": r["eq"]})

    def codec(self, t, a):
        r = self.call({"f": "codec", "t": t, "a": a})
        if self.dead:
            return
        e = {"op": "codec", "t": t, "a": a, "res": r["res"]}
        for n in ("w", "w2", "w3", "eq", "len", "short"):
            v = r.get(n, "")
            e[n] = list(bytes.fromhex(v)) if t == "sc" and n[0] == "w" and isinstance(v, str) else v
        self.ev.append(e)

    def decode(self, t, d, b):
        r = self.call({"f": "decode", "t": t, "d": d, "data": {"hex": bytes(b).hex()}})
        if self.dead:
            return
        w = r.get("w", "")
        self.ev.append({"op": "decode", "t": t, "d": d, "in": list(b) if t == "sc" else bytes(b).hex(), "res": r["res"],
                        "w": list(bytes.fromhex(w)) if t == "sc" else w})
        self.w[t, d] = w

    def start(self, big, msg=True):
        for f, d, i in FIRST:
            self.op(f, d, i=i)
        if msg:
            self.op("msg_to_sc", "b", msg=le(big))
        else:
            self.decode("sc", "b", le(big))
        self.op("g2_gen", "P", x="o")
        self.op("g1_gen", "Q", x="o")
        self.op("gt_rand", "T", b="u1")

    def run(self, prog):
        for e in prog:
            if self.dead:
                return
            if e["f"] == "sc_div" and self.w["sc", e["x"]].strip("0") == "":
                return      # nothing is promised for a division by zero
            self.op(e["f"], e["d"], **{k: v for k, v in e.items() if k not in ("f", "d")})


SCOPS = {"sc_zero", "sc_one", "int", "sc_add", "sc_sub", "sc_mul", "sc_div", "sc_neg", "sc_rand", "msg_to_sc"}


def kind_of(f):
    return "g2" if f in ("g2_gen", "g2_gen_vec", "g2_gens", "g2_exp") else "gt" if f.startswith("gt") or f in ("pair", "msg_to_gt") else "g3"


def edges(g, r):
    """scalar arithmetic, integers and messages around the order"""
    for i in (-2147483648, 2147483647, -2147483647, 3, -3, 65536, -65536, r.randint(-2 ** 31, 2 ** 31 - 1)):
        g.op("int", "i%d" % i, i=i)
    g.op("sc_zero", "Z")
    g.op("sc_one", "O")
    names = ["z", "o", "m", "t", "b", "i-2147483648", "i2147483647", "i3"]
    for n, v in enumerate(odd_scalars(r)):
        g.op("msg_to_sc", "q%d" % n, msg=le(v))
        names.append("q%d" % n)
    for n in range(12):
        a, x = r.choice(names), r.choice(names)
        f = r.choice(["sc_add", "sc_sub", "sc_mul", "sc_neg", "sc_div"])
        if f == "sc_div" and g.w["sc", x].strip("0") == "":
            continue
        g.op(f, "e%d" % n, a=a, x=x)
        names.append("e%d" % n)
    for a in names:
        g.eq("sc", a, r.choice(names))
    for a in r.sample(names, 4):
        g.codec("sc", a)
    for _ in range(3):
        g.op("sc_rand", "rnd%d" % r.randrange(3))


def special_exponents():
    """small ones, powers of two and their neighbours, runs of ones, and their opposites"""
    out = set(range(size(200, 1100)))
    for k in range(255):
        out |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    for k in range(0, 248, 8):
        out |= {255 << k, (2 ** 248 - 1) ^ (255 << k), 0x55 << k, 3 << (k + 7)}
    out = {n % ORDER for n in out}
    return sorted(out | {ORDER - n for n in sorted(out)[1:size(40, 4000)]})


def ladder(g, r, ns):
    """every way to raise an element to the given exponents; their agreement is the specification's"""
    g.op("g3_gen", "R", x="o")
    g.op("gt_gen", "G", x="o")
    for n in ns:
        if g.dead:
            return
        g.op("msg_to_sc", "n", msg=le(n))
        g.op("g2_gen", "a", x="n")
        g.op("g2_exp", "b", a="P", x="n")
        g.op("g3_gen", "a", x="n")
        g.op("g3_exp", "b", a="R", x="n")
        g.op("gt_gen", "a", x="n")
        g.op("gt_exp", "b", a="G", x="n")
        if r.random() < 0.2:
            g.op("gt_exp", "c", a="T", x="n")
            g.op("g1_gen", "c", x="n")
            g.op("pair", "d", ds=["c"], es=["P"], xs=["o"])
            g.op("pair", "d", ds=["Q"], es=["P"], xs=["n"])


def vectors(g, r, more=()):
    """vectors of elements and long products of pairings"""
    names = ["z", "o", "m", "t", "b"]
    for i in range(6):
        g.op("msg_to_sc", "v%d" % i, msg=le(r.choice([r.randrange(ORDER), r.randrange(1000), r.choice(odd_scalars(r)) % ORDER])))
        names.append("v%d" % i)
    for f in ("g2_gens", "g3_gens"):
        xs = [r.choice(names) for _ in range(r.choice([1, 2, 3, 7, 16, 17, 33]))]
        for at in sorted({1, len(xs), r.randint(1, len(xs)), r.randint(1, len(xs))}):
            g.op(f, "s%d" % at, xs=xs, at=at)
    ds, es = [], []
    for i, x in enumerate(r.sample(names, 5)):
        g.op("g1_gen", "d%d" % i, x=x)
        ds.append("d%d" % i)
    for i, x in enumerate(r.sample(names, 5)):
        g.op("g2_gen", "e%d" % i, x=x)
        es.append("e%d" % i)
    if more:        # the specification multiplies and adds numbers of 255 bits: mostly short ones here
        names = ["o"] * 12 + ["z"] + names
        g.op("g1_gen", "d9", x="o")
        g.op("g2_gen", "e9", x="o")
        ds, es = ["d9"] * 12 + ds, ["e9"] * 12 + es
    for n in list(more) or [0, r.randint(3, 6), r.randint(5, 20)]:
        q = [[r.choice(l) for _ in range(n)] for l in (ds, es, names)]
        g.op("pair", "p", ds=q[0], es=q[1], xs=q[2])
        # the same in parts
        k = r.choice([3, 8, 16]) if n > 20 else 1
        for i in range(0, n, k):
            g.op("pair", "q" if i else "r", ds=q[0][i:i + k], es=q[1][i:i + k], xs=q[2][i:i + k])
            if i:
                g.op("gt_mul", "r", a="r", x="q")


def alike(g, r):
    """elements that are easily taken for each other, one right after the other: opposites, equal ones made differently, neighbours, none"""
    for i in range(2):
        g.op("msg_to_sc", "x", msg=le(r.choice([r.randrange(ORDER), r.randrange(2, 2 ** 31), ORDER - r.randrange(2, 1000)])))
        g.op("sc_neg", "y", a="x")
        g.op("sc_add", "n", a="x", x="o")
        xs = ["x", "y", "n", "o", "m", "z"]
        for x in xs:
            g.op("g3_gen", "k" + x, x=x)
            g.op("g2_gen", "e" + x, x=x)
        seq = ["x", "y", "x", "x", "y", "y", "o", "m", "o", "z", "x"] + [r.choice(xs) for _ in range(4)]
        for j, x in enumerate(seq):
            f = ("g1_gen", "g3_to_g1", "g3_mul")[(i + (j if j > 10 else 0)) % 3 if r.random() < 0.7 else r.randrange(3)]
            if f == "g1_gen":
                g.op(f, "d" + x, x=x)
            elif f == "g3_to_g1":
                g.op(f, "d" + x, a="k" + x)
            else:
                g.op(f, "d" + x, a="k" + x, x="kz")
            g.op("pair", "p", ds=["d" + x], es=["ex" if r.random() < 0.5 else "eo"], xs=["o"])
        for _ in range(4):
            g.op("pair", "p", ds=[r.choice(["dx", "dy"])], es=[r.choice(["ex", "ey"])], xs=[r.choice(["o", "m", "z", "x"])])
        g.op("pair", "p", ds=["dx", "dy"], es=["ex", "ex"], xs=["o", "o"])
        g.op("pair", "p", ds=["dx", "dx", "dy"], es=["ex", "ey", "ex"], xs=["o", "m", "m"])
        for a, x in (("kx", "ky"), ("kx", "kx"), ("kx", "kn"), ("kx", "kz"), ("kz", "kz"), ("ky", "kx")):
            g.op("g3_mul", "s", a=a, x=x)
            g.op("pair", "p", ds=["s"], es=["eo"], xs=["o"])
        g.op("gt_gen", "u", x="x")
        g.op("gt_gen", "v", x="y")
        for f in ("gt_mul", "gt_div"):
            for a, x in (("u", "u"), ("u", "v"), ("v", "u")):
                g.op(f, "w", a=a, x=x)


def messages(g, r):
    """messages of all lengths; equal ones, ones that differ a little"""
    base = [r.randrange(256) for _ in range(32)]
    base[31] = r.choice([0, 0x20, 0x73, 0x72, r.randrange(0x70)])
    cands = [[], [0], [1], base, base[:31], base[:31] + [base[31] ^ 1], [base[0] ^ 1] + base[1:], base[:16], base[:15], base[:16] + [0] * 16,
             [0] * 31 + [1], [0] * 32, base + [0], base + [1], le(ORDER), le(ORDER - 1), le(ORDER + 1), [255] * 32, [255] * 31, le(ORDER - 1)[:31] + [0x74],
             base + [r.randrange(256)] * 30]
    for i, m in enumerate(r.sample(cands, 12)):
        g.op(r.choice(["msg_to_gt", "msg_to_gt", "msg_to_sc"]), "m%d" % i, msg=m)


def codecs(g, r):
    """encodings read back, other bytes refused"""
    for t in ("sc", "g2", "g3", "gt"):
        regs = [d for k, d in g.w if k == t and g.w[k, d] and not g.w[k, d].startswith("err")]
        for d in r.sample(regs, min(2, len(regs))):
            g.codec(t, d)
            b = bytearray(bytes.fromhex(g.w[t, d]))
            for n in range(3):
                c = bytearray(b)
                k = r.randrange(7)
                if k == 0:
                    c[0] ^= r.choice([0x80, 0x40, 0x20, 0x10])
                elif k == 1:
                    c[r.randrange(len(c))] ^= 1 << r.randrange(8)
                elif k == 2:
                    c = c[:r.choice([0, 1, len(c) - 1])]
                elif k == 3:
                    c += bytes([r.randrange(256)])
                elif k == 4:
                    c = bytearray(r.randrange(256) for _ in c)
                    c[0] |= 0x80
                elif k == 5 and t == "sc":
                    v = int.from_bytes(b, "little") + ORDER
                    c = bytearray(v.to_bytes(33, "little")[:32])
                elif k == 5:
                    c = bytearray([b[0]]) + bytes(len(b) - 1)
                g.decode(t, "d%s%s%d" % (t, d, n), c)
        if t != "gt":
            a = [d for k, d in g.w if k == t and g.w[k, d] and not g.w[k, d].startswith("err")]
            for _ in range(2):
                g.eq(t, r.choice(a), r.choice(a))


def judge_group(ck, name, about, hists):
    """hists: [(events, commands, dead)]"""
    ok = [h for h in hists if not h[2]]
    for e, c, dead in hists:
        if dead:
            ck.violation("%s: %s ended with %s" % (about, json.dumps(dead[0])[:200], dead[1]), {"commands": c})
    ref = {"g2": [None] * 3, "g3": [None] * 3, "gt": [None] * 3}
    if SEEN.get("ref") is None:
        SEEN["ref"] = True
        p = Proc([harness(), "bls"])
        g = Group(p)
        g.start(5)
        for i, x in enumerate(("z", "o", "m")):
            for k, f in (("g2", "g2_gen"), ("g3", "g3_gen"), ("gt", "gt_gen")):
                g.op(f, "ref", x=x)
                SEEN.setdefault(k, []).append(g.w[k, "ref"])
        p.stop()
    ref = {k: SEEN[k] for k in ref}
    ev, src = [], []
    for n, (e, c, _) in enumerate(ok):
        ev += [{"op": "begin", "seen": ref}] + e
        src += [n] * (len(e) + 1)
    rej, r = complete("GroupTrace", "GroupTrace.cfg", ev, "%s-%s" % (ck.prop, name))
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.add("operations", len(ev) - len(ok))
    ck.add("traces_validated_against_impl", len(ok))
    for x in rej[:20]:
        i = x["line"] - 1
        n = src[i]
        k = i - src.index(n)
        ck.violation("%s: %s does not agree with the exponents computed so far" % (about, json.dumps(ev[i])[:400]), {"commands": ok[n][1][:k + 5], "event": ev[i]})
    if len(rej) > 20:
        ck.violation("%s: %d more" % (about, len(rej) - 20), {})
    if ok:
        ck.sample({"about": about, "events": [{k: v for k, v in e.items() if not isinstance(v, list)} for e in ok[0][0][:6]]})


SEEN = {}


def c22(ck):
    from .access import harness as _  # noqa: F401
    r = rng("C22")
    ck.assumptions = ["no division by zero; as many scalars as elements in a product of pairings",
                      "messages differing only by zero bytes at their end are the same number (they are padded to 32 bytes)"]
    for c in ("MCBigMod_37", "MCBigMod_53", "MCBigMod_61", "MCBigMod_131"):
        m = tlc("MCBigMod", c + ".cfg")
        ck.add("states", m.distinct)
        ck.add("transitions", m.states)
        ck.add("model_states", m.distinct)
    g = tlc("MCGroup", "MCGroup.cfg", env={"DEPTH": 2})
    ck.add("states", g.distinct)
    ck.add("transitions", g.states)
    ck.add("model_states", g.distinct)
    refuted(ck, "MCGroupBad", ("single", "unscaled", "added", "powered", "unsigned", "half"), env={"DEPTH": 2})
    progs = tagged(g, "SEQ")
    progs.sort(key=json.dumps)
    ck.add("programs_enumerated", len(progs))
    by = {}
    for q in progs:
        by.setdefault((q[0]["f"], q[1]["f"]), []).append(q)
    pick = []
    for k in sorted(by):
        pick += r.sample(by[k], min(len(by[k]), size(2, 40)))
    long = tagged(tlc("MCGroup", "MCGroupLong.cfg", env={"DEPTH": 14},
                      args=["-simulate", "num=%d" % size(150, 2000), "-depth", "15", "-seed", str(SEED + 7)], workers=1), "SEQ")
    # the last step is printed with every choice there is
    tails = {}
    for q in long:
        tails.setdefault(json.dumps(q[:-1]), []).append(q)
    long = [r.choice(tails[k]) for k in sorted(tails)]
    ck.add("programs_simulated", len(long))
    harness()

    def one(_, item):
        seed, part, what = item
        q = random.Random(seed)
        out = []
        p = Proc([harness(), "bls"])
        try:
            for prog in part:
                p.call({"op": "g", "f": "reset"})
                g = Group(p)
                big = q.choice(odd_scalars(q)[1:])
                g.start(big, q.random() < 0.5)
                if what == "edges":
                    edges(g, q)
                elif what == "messages":
                    messages(g, q)
                elif what == "ladder":
                    ladder(g, q, prog)
                elif what == "alike":
                    alike(g, q)
                elif what == "vectors":
                    vectors(g, q, prog)
                else:
                    g.run(prog)
                    if what != "short" or q.random() < 0.2:
                        codecs(g, q)
                out.append((g.ev, g.cmds, g.dead))
        finally:
            p.stop()
        return out

    def go(name, about, progs, what):
        # short programs share a process
        parts = [(SEED * 1000 + i, progs[i::24], what) for i in range(24)]
        hists = [h for x in pool_map(one, [x for x in parts if x[1]], [harness(), "bls"]) for h in x]
        judge_group(ck, name, about, hists)

    go("short", "programs of two operations", pick, "short")
    go("long", "programs of fourteen operations", long, "long")
    go("edges", "scalar arithmetic", [[]] * size(60, 600), "edges")
    go("messages", "messages", [[]] * size(60, 600), "messages")
    go("alike", "opposite and equal elements in turn", [[]] * size(16, 160), "alike")
    ns = special_exponents()
    ck.add("special_exponents", len(ns))
    go("ladder", "special exponents", [ns[i::24] for i in range(24)], "ladder")
    go("vectors", "vectors and long products", [[]] * size(20, 240) + size([[33, 65], [50], [130]], [[33, 65], [50], [64], [100], [128], [129], [200], [257], [300]]), "vectors")


c22.level = "model_checking"
