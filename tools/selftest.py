#!/usr/bin/env python3
"""Do the trace specifications bind?  Takes the traces the last runs of the checks recorded
(work/traces), changes one value of one event in each history, and has the specification judge
them: a table of (module, event, value) with how many of the changes were refused.  Also runs
every model of a broken design, which TLC has to refute.  Not a registered check."""
import copy
import glob
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import *  # noqa

HIST = {"AbeTrace": ["C0[1-6]-toyl-0", "C1[01]-toyl-0", "C08-toyl"], "HybridTrace": ["C12t", "C13", "C17", "C20", "C20b", "C21", "C0?-iface", "C1?-iface"],
        "FfiErrTrace": ["C15-*"], "FreshTrace": ["C07-*"], "GroupTrace": ["C22-*"]}
PURE = {"SpanTrace": ["C18"], "ParseTrace": ["C19"], "FfiBufTrace": ["C16-*"], "WireTraceToy": ["C0[89]-toys"], "WireTraceBls": ["C0[89]-bls"]}
BROKEN = [("MCFfiCache", "MCFfiCache_split"), ("MCFfiCache", "MCFfiCache_size"), ("MCFfiErr", "MCFfiErr_clear"), ("MCFfiErr", "MCFfiErr_first"),
          ("MCFfiErr", "MCFfiErr_global"), ("MCFfiErr", "MCFfiErr_keep")] + [("MCFresh", "MCFresh_" + x) for x in ("racy", "constant", "forked", "derived", "copied", "stored")]


def paths(v, at=()):
    if isinstance(v, dict):
        for k in v:
            if not (at == () and k == "op"):
                yield from paths(v[k], at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, at + (i,))
    elif at:
        yield at


OUT = {"AbeTrace": {"res", "g", "len", "len2", "same", "eq", "last", "max", "vals", "axes"},
       "HybridTrace": {"res", "g", "w", "n", "uid", "ad", "of", "agree", "data", "last", "max", "vals", "axes", "e"},
       "FfiErrTrace": {"len", "got", "zero"}, "FreshTrace": {"y", "t", "g", "d", "u", "e", "ep", "s", "w", "bits", "odd"},
       "GroupTrace": {"res", "w", "back", "n"}, "SpanTrace": {"res", "rows", "cols", "matrix", "attrs", "back", "a"},
       "ParseTrace": {"res", "shown", "tree", "msp"}, "FfiBufTrace": {"rc", "len", "over", "touched", "tail", "right", "err"},
       "WireTraceToy": {"res", "n", "bytes", "same", "eq"}, "WireTraceBls": {"res", "n", "bytes", "same", "eq"}}
INPUT = {("AbeTrace", "policy"): {"max"}, ("AbeTrace", "encrypt"): {"g"}, ("AbeTrace", "axis"): {"last"}, ("AbeTrace", "declare"): {"max", "axes"},
         ("HybridTrace", "policy"): {"max"}, ("HybridTrace", "encrypt"): {"g"}, ("HybridTrace", "declare"): {"max", "axes"},
         ("HybridTrace", "blk_enc"): {"uid", "data"}, ("HybridTrace", "blk_dec"): {"uid", "max"}, ("HybridTrace", "hdr_enc"): {"uid", "ad"},
         ("HybridTrace", "msg_enc"): {"data"}}
RES = {"ok": "err", "err": "ok", "msg": "none", "none": "msg", "some": "none", "wrong": "msg"}


def changed(r, v, name):
    if name == "res":
        return RES.get(v, "ok")
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, -1]) if v > 0 else v + 1
    if v and all(c in "0123456789abcdef" for c in v):
        i = r.randrange(len(v))
        return v[:i] + r.choice([c for c in "0123456789abcdef" if c != v[i]]) + v[i + 1:]
    return v + "x"


def corrupt(r, e, mod, like={}):
    drop = INPUT.get((mod, e.get("op")), set())
    ps = [p for p in paths(e) if [x for x in p if not isinstance(x, int)][-1] in OUT[mod] - drop or p[0] in OUT[mod] - drop]
    if not ps:
        return None
    names = {}
    for p in ps:
        names.setdefault(".".join(str(x) for x in p if not isinstance(x, int)), []).append(p)
    n = r.choice(sorted(names))
    p = r.choice(names[n])
    e = copy.deepcopy(e)
    o = e
    for k in p[:-1]:
        o = o[k]
    o[p[-1]] = changed(r, o[p[-1]], p[0] if len(p) == 1 else p[-1])
    if n == "res" and e["res"] in like.get(e["op"], {}):
        for k, v in like[e["op"]][e["res"]].items():
            e.setdefault(k, v)
    if e.get("op") == "decrypt" and e.get("res") == "msg" and "g" not in e:
        e["g"] = "g0"
    return e, n


def files(pats):
    return sorted({f for p in pats for f in glob.glob(os.path.join(WORK, "traces", p + ".ndjson")) if not f.endswith("-pool.ndjson")})


def main():
    r = rng("selftest", *sys.argv[1:])
    table = {}
    only = sys.argv[1:]
    for mod, pats in HIST.items():
        if only and mod not in only:
            continue
        for f in files(pats):
            evs = [json.loads(x) for x in open(f)]
            like = {}
            for e in evs:
                like.setdefault(e["op"], {}).setdefault(e.get("res"), e)
            starts = [i for i, e in enumerate(evs) if e["op"] == "begin"] + [len(evs)]
            hs = [evs[a:b] for a, b in zip(starts, starts[1:]) if b - a > 1]
            hs = sorted(hs, key=len)[:max(60, len(hs) // 2)]
            for _ in range(3):
                sub, what = [], {}
                for h in r.sample(hs, min(len(hs), 60)):
                    h = list(h)
                    i = r.randrange(1, len(h))
                    # outcomes matter most
                    c = corrupt(r, h[i], mod, like)
                    if c is None:
                        continue
                    what[len(sub)] = (len(sub) + i, h[i]["op"], c[1], h[i], c[0])
                    h[i] = c[0]
                    sub += h
                path = os.path.join(scratch("selftest"), "t.ndjson")
                write_ndjson(path, sub)
                try:
                    t = tlc(mod, mod + ".cfg", env={"TRACE": path}, ok_codes=(0,))
                except ToolError:
                    print("TLC error on", f, {w[1:3] for w in what.values()})
                    continue
                bad = [x["line"] - 1 for x in tagged(t, "REJECT")]
                at = sorted(what)
                for j, s in enumerate(at):
                    end = at[j + 1] if j + 1 < len(at) else len(sub)
                    hit = any(s <= b < end for b in bad)
                    k = (mod, what[s][1], what[s][2])
                    table.setdefault(k, [0, 0])
                    table[k][0] += hit
                    table[k][1] += 1
                    if not hit and os.environ.get("MISSED"):
                        print("MISSED", k, json.dumps(what[s][3])[:500], "->", {x: y for x, y in what[s][4].items() if y != what[s][3].get(x)})
    for mod, pats in PURE.items():
        if only and mod not in only:
            continue
        for f in files(pats):
            evs = [json.loads(x) for x in open(f)]
            like = {}
            for e in evs:
                like.setdefault(e["op"], {}).setdefault(e.get("res"), e)
            sub, what, both = [], [], []
            for e in r.sample(evs, min(len(evs), 500)):
                c = corrupt(r, e, mod, like)
                if c is None:
                    continue
                sub.append(c[0])
                what.append((e["op"], c[1]))
                both.append((e, c[0]))
            path = os.path.join(scratch("selftest"), "t.ndjson")
            write_ndjson(path, sub)
            env = {"TRACE": path}
            if mod.startswith("WireTrace"):
                env["POOL"] = f.replace(".ndjson", "-pool.ndjson")
            try:
                t = tlc(mod[:9] if mod.startswith("WireTrace") else mod, mod + ".cfg", env=env)
            except ToolError:
                print("TLC error on", f)
                continue
            bad = {x["line"] - 1 for x in tagged(t, "REJECT")}
            for i, w in enumerate(what):
                k = (mod,) + w
                table.setdefault(k, [0, 0])
                table[k][0] += i in bad
                if i not in bad and os.environ.get("MISSED"):
                    print("MISSED", k, json.dumps(both[i][0])[:500], "->", {x: y for x, y in both[i][1].items() if y != both[i][0].get(x)})
                table[k][1] += 1
    for k in sorted(table):
        print("%-14s %-12s %-22s %d/%d" % (k + tuple(table[k])))
    if not only:
        for m, c in BROKEN:
            t = tlc(m, c + ".cfg", ok_codes=(0, 12))
            print("%-20s %s" % (c, "refuted" if t.code == 12 else "NOT REFUTED"))


main()
