"""Histories of the hybrid layer: recipes for what is presented to it, and the events
HybridTrace checks.  A command's "x" carries what the specification is told."""
from .abe import *
from .core import _built  # noqa

OVER = 28


def ref(s):
    return ["ref", s]


def cat(*rs):
    return ["cat", list(rs)]


def cut(r, a, b):
    return ["cut", r, a, b]


def S(i):
    return ["s", i]


def N(i=0):
    return ["n", i]


def E(i=0):
    return ["e", i]


def xor(r, p):
    return ["xor", r, p]


_j = [0]


def junk(n):
    _j[0] += 1
    return ["junk", n, "j%d" % _j[0]]


def realize(rec, r, blob=lambda s: s):
    """the harness' description of the bytes of a recipe"""
    def pos(p):
        if p[0] == "s":
            return p[1]
        if p[0] == "e":
            return "e%+d" % p[1]
        return p[1] if p[1] else None

    def go(x):
        if x[0] == "ref":
            return {"ref": blob(x[1])}
        if x[0] == "cat":
            return {"cat": [go(y) for y in x[1]]}
        if x[0] == "junk":
            return {"hex": bytes(r.randrange(256) for _ in range(x[1])).hex()}
        inner = go(x[1])
        if "from" in inner or "to" in inner or "xor" in inner:
            inner = {"cat": [inner]}
        if x[0] == "cut":
            if x[2] == ["n", 0]:        # nothing
                return {"hex": ""}
            inner["from"] = pos(x[2])
            inner["to"] = pos(x[3])
            return inner
        if x[2] == ["n", 0]:
            return inner
        inner["xor"] = [[pos(x[2]), r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255, r.randint(1, 255)])]]
        return inner
    return go(rec)


def hdr(s):
    return s + ".hdr"


def hdr_enc(h, attrs, uid=None, ad=None, p="p", m="m"):
    """uid None: no metadata at all; ad None: no additional data"""
    meta = None if uid is None else {"uid": {"hex": uid.hex()}, "ad": None if ad is None else {"hex": ad.hex()}}
    return {"op": "hdr_enc", "h": h, "p": p, "m": m, "attrs": attrs, "meta": meta,
            "x": {"h": h, "p": p, "m": m, "attrs": attrs, "meta": meta is not None,
                  "uid": (uid or b"").hex(), "ad": (ad or b"").hex()}}


def hdr_dec(r, k, rec):
    return {"op": "hdr_dec", "k": k, "from": realize(rec, r, hdr), "x": {"k": k, "from": rec}}


def fill_bytes(n):
    return bytes(i * 7 % 251 for i in range(n))


MAXES = {16: 16, 100: 100}


def blk_enc(b, key, uid, num, data, mx=0):
    d = {"fill": data} if isinstance(data, int) else {"hex": data.hex()}
    n = data if isinstance(data, int) else len(data)
    return {"op": "blk_enc", "store": b, "key": key, "uid": {"hex": uid.hex()}, "num": num, "data": d,
            "max": mx or 1 << 30,
            "x": {"b": b, "key": kname(key), "uid": uid.hex(), "num": str(num), "size": n,
                  "max": MAXES.get(mx, 1 << 30), "over": OVER}, "plain": data if isinstance(data, int) else data.hex()}


def kname(key):
    return key["ref"][:-4] if "ref" in key else "hex" + key["hex"]


def blk_dec(r, rec, key, uid, num, mx=0, cmp=None):
    c = {"op": "blk_dec", "key": key, "uid": {"hex": uid.hex()}, "num": num, "data": realize(rec, r),
         "max": mx or 1 << 30,
         "x": {"from": rec, "key": kname(key), "uid": uid.hex(), "num": str(num), "max": MAXES.get(mx, 1 << 30)}}
    if cmp is not None:
        c["cmp"] = {"fill": cmp} if isinstance(cmp, int) else {"hex": cmp.hex()}
        c["cmpx"] = cmp if isinstance(cmp, int) else cmp.hex()
    return c


def symkey(c, attrs, n, p="p", m="m"):
    return {"op": "symkey", "c": c, "p": p, "m": m, "attrs": attrs, "len": n}


def opensym(c, k, n):
    return {"op": "opensym", "c": c, "k": k, "len": n}


def hyb_event(c, r, blobs):
    """blobs: plaintexts of the blocks made so far"""
    e = dict(c.get("x") or {k: c[k] for k in KEEP + ("len",) if k in c})
    e["op"] = c["op"]
    e["res"] = r["res"] if r["res"] in ("ok", "err") else "crash"
    ok = r["res"] == "ok"
    if c["op"] == "symkey":
        e["n"], e["w"] = (r["len"], r["w"][:32]) if ok else (0, "")
    elif c["op"] == "opensym":
        e["n"], e["agree"] = (r["len"], r["agree"]) if ok else (0, 0)
    elif c["op"] == "hdr_enc":
        e["w"], e["n"], e["e"] = (r["w"][:32], r["n"], r["e"]) if ok else ("", 0, 0)
    elif c["op"] == "hdr_dec":
        e["w"] = r["w"][:32] if ok else ""
        e["uid"] = r["uid"] if ok else ""
        e["ad"] = (r["ad"] or "") if ok else ""
    elif c["op"] in ("msg_enc", "hdr_size"):
        e["n"] = r["n"] if ok else 0
    elif c["op"] == "msg_dec":
        e["data"] = r["hex"] if ok else ""
    elif c["op"] == "blk_enc":
        e["n"] = r["n"] if ok else 0
        if ok:
            blobs[c["store"]] = c["plain"]
    elif c["op"] == "blk_dec":
        e["of"] = ""
        if ok:
            got = bytes.fromhex(r["hex"]) if r["n"] <= 4096 else None
            names = []
            for b, d in blobs.items():
                if got is None:
                    good = r.get("same") and c.get("cmpx") == d
                else:
                    good = (fill_bytes(d) if isinstance(d, int) else bytes.fromhex(d)) == got
                if good:
                    names.append(b)
            # several blocks may hold the same plaintext: name the presented one when it fits
            cand = str(c["x"]["from"])
            names.sort(key=lambda b: "'%s'" % b not in cand)
            e["of"] = names[0] if names else "?"
    return e


HOPS = ("symkey", "opensym", "hdr_enc", "hdr_dec", "blk_enc", "blk_dec", "msg_enc", "msg_dec", "hdr_size")


def msg_enc(c, attrs, uid, ad, data, p="p", m="m"):
    """a complete message"""
    return {"op": "msg_enc", "c": c, "p": p, "m": m, "attrs": attrs, "data": {"hex": data.hex()},
            "meta": {"uid": {"hex": uid.hex()}, "ad": None if ad is None else {"hex": ad.hex()}},
            "x": {"c": c, "p": p, "m": m, "attrs": attrs, "data": data.hex(), "size": len(data), "over": OVER}}


def msg_dec(r, k, rec):
    return {"op": "msg_dec", "k": k, "from": realize(rec, r), "x": {"k": k, "from": rec}}


def hdr_size(r, rec):
    return {"op": "hdr_size", "from": realize(rec, r), "x": {"from": rec}}


def check_hybrid(ck, histories, backend, name, keep=lambda rej: True, results=None):
    """run, validate against HybridTrace, report"""
    if results is None:
        results = run_histories(histories, backend)
    ev, where = [], []
    for hi, (h, rs) in enumerate(zip(histories, results)):
        blobs = {}
        one, pos = events_of([h], [rs])
        byci = {ci: e for e, (_, ci) in zip(one, pos) if e["op"] not in HOPS}
        ev.append({"op": "begin"})
        where.append((hi, -1))
        for ci, (c, r) in enumerate(zip(h, rs)):
            if r["res"] == "skip":
                continue
            if c["op"] in HOPS:
                ev.append(hyb_event(c, r, blobs))
                where.append((hi, ci))
            elif ci in byci and c["op"] not in ("blob", "overhead"):
                ev.append(byci[ci])
                where.append((hi, ci))
    rej, r = validate("HybridTrace", "HybridTrace.cfg", ev, name, len(histories))
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.add("traces_validated_against_impl", len(histories))
    ck.add("events_checked", len(ev) - len(histories))
    for e in ev:
        if e["op"] in ("opensym", "hdr_dec", "blk_dec"):
            ck.add("%s_%s" % (e["op"], e["res"]))
    out = []
    for x in rej:
        j = Rej()
        j.hi, j.ci = where[x["line"] - 1]
        j.spec, j.event = x["spec"], ev[x["line"] - 1]
        j.cmds, j.result, j.backend = histories[j.hi][:j.ci + 1], results[j.hi][j.ci], backend
        if keep(j):
            out.append(j)
    if histories:
        ck.sample({"history": [{k: v for k, v in c.items() if k != "x"} for c in histories[len(histories) // 2][:12]]})
    report(ck, out)
    return out
