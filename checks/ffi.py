"""C14 cache handles, C15 last errors, C16 output buffers of the C interface.  FfiCache.tla,
FfiErr.tla and FfiBuf.tla are explored on their own; scripts of calls run on real threads
against the exported C functions and what was observed is validated against them."""
from lib.iface import *  # noqa
from lib.core import Proc


def size(q, t):
    return t if THOROUGH else q


_mat = {}


def material():
    """byte strings to make caches of: {"p0": policy text, "m0.mpk": .., "A": key, "A.hdr": .., "A.sk": ..}
    A, B, C, D open disjoint sets of headers"""
    if _mat:
        return _mat
    h = []
    for i in (0, 1):
        h += [{"op": "policy", "p": "p%d" % i, "max": 8 if i == 0 else 2},
              {"op": "axis", "p": "p%d" % i, "name": "F", "attrs": ["a", "b", "c"] if i == 0 else ["a"], "hier": False},
              {"op": "policy_json", "p": "p%d" % i, "store": "p%d" % i}]
    h += [{"op": "master", "p": "p0", "m": "m0"}, {"op": "master", "p": "p0", "m": "m1"}, {"op": "master", "p": "p1", "m": "m2"},
          {"op": "copy_policy", "p": "p0", "q": "p0r"}, {"op": "rotate", "p": "p0r", "attr": A("F", "a")},
          {"op": "policy_json", "p": "p0r", "store": "p0r"}]
    keys = [("A", "p0", "m0", "a"), ("B", "p0", "m0", "b"), ("C", "p0", "m1", "a"), ("D", "p1", "m2", "a"), ("R", "p0r", "m0", "a")]
    for k, p, m, a in keys:
        h.append({"op": "ukey", "k": k, "p": p, "m": m, "ap": attr(A("F", a))})
        h.append({"op": "hdr_enc", "p": p, "m": m, "h": k, "attrs": [A("F", a)], "meta": {"uid": {"text": "uid " + k}, "ad": {"text": "data"}}})
    get = [("p0", "blob", "p0"), ("p1", "blob", "p1"), ("p0r", "blob", "p0r")]
    get += [(m + ".mpk", "mpk", m) for m in ("m0", "m1", "m2")] + [(m + ".msk", "msk", m) for m in ("m0", "m1", "m2")]
    get += [(k, "key", k) for k, _, _, _ in keys]
    get += [(k + ".hdr", "blob", k + ".hdr") for k, _, _, _ in keys] + [(k + ".sk", "blob", k + ".key") for k, _, _, _ in keys]
    h += [{"op": "bytes", "kind": kind, "id": i} for _, kind, i in get]
    rs = run_histories([h], "bls")[0]
    bad = [(c, x) for c, x in zip(h, rs) if x["res"] != "ok"]
    if bad:
        raise ToolError("material: %s" % str(bad[:2])[:600])
    for (n, _, _), x in zip(get, rs[-len(get):]):
        _mat[n] = bytes.fromhex(x["hex"])
    return _mat


def blobs(*names):
    m = material()
    return [{"op": "blob", "id": n, "from": hx(m[n])} for n in names]


# encryption caches: content -> policy, public key, the keys opening what it makes for F::a
ENC = {"A": ("p0", "m0.mpk", {"A", "R"}), "C": ("p0", "m1.mpk", {"C"}), "D": ("p1", "m2.mpk", {"D"}), "R": ("p0r", "m0.mpk", {"R"})}
DEC = ("A", "B", "C", "D")


def opened_by(keys):
    """the encryption cache whose headers exactly these keys open (R opens what was made before the rotation too)"""
    for c in ENC:
        if set(keys) == ENC[c][2]:
            return c
    return "wrong"


BUF = {"cap": 4096}


def step_create(kind, what, good=True, var=None, how=0):
    c = {"fn": "create_" + kind, "x": {"op": "create", "kind": kind, "what": what, "good": good}}
    if kind == "enc":
        p, k, _ = ENC[what]
        c["in"] = {"policy": {"ref": p}, "pk": {"ref": k}}
    else:
        c["in"] = {"key": {"ref": what}}
    if not good:
        n = {"enc": "pk", "dec": "key"}[kind]
        if how == 0:
            c["in"][n] = {"hex": "00000003aabbcc"}
        elif how == 1:
            c["in"][n] = {"null": True}
        elif how == 2:
            c["in"][n] = {"hex": "", "len": 0}
        elif how == 3:
            c["nohandle"] = True
        elif how == 4 and kind == "enc":
            c["in"]["policy"] = {"text": "{\"nonsense\":1}"}
        else:
            c["in"][n] = {"cat": [c["in"][n]], "to": "e-1"}
    if var:
        c["set"] = var
    return c


def step_use(kind, handle, fit, store=None):
    """fit: a content, or how the call is misused"""
    c = {"handle": handle, "x": {"op": "use", "kind": kind}}
    ok = fit in ENC or fit in DEC
    if kind == "enc":
        at = {"R": ["a"], "bad": ["zz"]}.get(fit, ["a"])
        c["fn"] = "enc_header_cache"
        c["in"] = {"attrs": cstr(jattrs([A("F", a) for a in at])), "uid": {"text": "u"}, "ad": {"null": True}}
        c["out"] = {"sk": dict(BUF), "hdr": dict(BUF)}
        c["x"]["fits"] = sorted(ENC) if ok else []
        if store:
            c["out"]["hdr"]["store"] = store
        if fit == "text":
            c["in"]["attrs"] = {"text": "[{\"axis\":"}
        if fit == "small":
            c["out"]["hdr"] = {"cap": 10}
        if fit == "null":
            c["out"]["sk"] = {"cap": 40, "null": True}
        if fit.startswith("x:"):
            c["in"]["attrs"] = {"text": ["", "[", "null", "[1]", "{}", "[\"F\"]", "[\"F::zz\"]", "[\"zz::a\"]"][int(fit[2:]) % 8]}
        if fit.startswith("cap:"):
            c["out"]["sk" if int(fit[4:]) % 2 else "hdr"] = {"cap": int(fit[4:]) % 24}
    else:
        c["fn"] = "dec_header_cache"
        hd = fit if fit in DEC else "A"
        c["in"] = {"hdr": {"ref": hd + ".hdr"}}
        c["out"] = {"sk": dict(BUF), "uid": dict(BUF), "ad": dict(BUF)}
        c["x"]["fits"] = [hd] if ok else []
        if fit == "bad":
            c["in"]["hdr"] = {"hex": "0000000400000000"}
        if fit == "text":
            c["in"]["hdr"] = {"cat": [{"ref": "A.hdr"}], "to": 150}
        if fit == "small":
            c["out"]["sk"] = {"cap": 10}
        if fit == "null":
            c["in"]["hdr"] = {"null": True}
        if fit.startswith("x:"):
            c["in"]["hdr"] = {"cat": [{"ref": "A.hdr"}], "to": int(fit[2:])}
        if fit.startswith("cap:"):
            n = int(fit[4:])
            k = ["sk", "uid", "ad"][n % 3]
            c["out"][k] = {"cap": 1 + n // 3 % {"sk": 31, "uid": 4, "ad": 3}[k]}   # of 0: not asked for
    return c


MISUSE = ("bad", "text", "small", "null")


def misfit(r):
    x = r.random()
    if x < 0.3:
        return r.choice(MISUSE)
    return "x:%d" % r.choice([0, 1, 2, 3, 4, 5, 7, 8, 20, 52, 100, r.randrange(150)]) if x < 0.7 else "cap:%d" % r.randrange(96)


def step_destroy(kind, handle):
    return {"fn": "destroy_" + kind, "handle": handle, "x": {"op": "destroy", "kind": kind}}


def strip(threads):
    return {"op": "conc", "threads": [[{k: v for k, v in s.items() if k != "x"} for s in t] for t in threads]}


ALLB = ("p0", "p1", "p0r", "m0.mpk", "m1.mpk", "m2.mpk", "A", "B", "C", "D", "R", "A.hdr", "B.hdr", "C.hdr", "D.hdr")


def seen(what, r, opened):
    """the content a use showed"""
    x = what["x"]
    if r["rc"] != 0:
        return "err"
    if x["kind"] == "dec":
        j = what["in"]["hdr"].get("ref", "?")[:1]
        m = material()
        o = r["out"]
        ok = o["sk"].get("hex") == m[j + ".sk"].hex() and o["uid"].get("hex") == ("uid " + j).encode().hex() and o["ad"].get("hex") == b"data".hex() if j in DEC else False
        return j if ok else "wrong"
    return opened


def run_threads(p, threads, timeout=120, plan=None, at=0):
    """runs a script; (how it ended, [(ticket, event)], result)"""
    c = strip(threads)
    if plan is not None:
        c["plan"] = plan
    r = p.call(c, timeout)
    if r["res"] != "ok":
        return r["res"], [], r
    ev, tests = [], []
    for t, (steps, rs) in enumerate(zip(threads, r["out"])):
        for i, (s, x) in enumerate(zip(steps, rs)):
            st = s.get("out", {}).get("hdr", {}).get("store")
            if st and x["rc"] == 0:
                tests.append((t, i, st))
    # which keys open the headers made with encryption caches
    cmds, key = [], {}
    for t, i, st in tests:
        for k in ("A", "C", "D", "R"):
            cmds.append({"op": "ffi", "fn": "dec_header", "in": {"hdr": {"ref": st}, "key": {"ref": k}},
                         "out": {"sk": {"cap": 64}, "uid": {"cap": 64}, "ad": {"cap": 64}}})
    res = p.call({"op": "batch", "cmds": cmds}, timeout)["out"] if cmds else []
    for m, (t, i, st) in enumerate(tests):
        op = [k for k, x in zip(("A", "C", "D", "R"), res[4 * m:4 * m + 4]) if x.get("rc") == 0]
        key[t, i] = opened_by(op)
    for t, (steps, rs) in enumerate(zip(threads, r["out"])):
        for i, (s, x) in enumerate(zip(steps, rs)):
            e = dict(s["x"], t=t)
            if e["op"] != "create":
                e["h"] = x["used"]
            ev.append((at + x["s"], e))
            if e["op"] == "create":
                b = {"op": "created", "t": t, "res": "ok" if x["rc"] == 0 else "err", "h": x["handle"]}
            elif e["op"] == "destroy":
                b = {"op": "destroyed", "t": t, "res": "ok" if x["rc"] == 0 else "err"}
            else:
                b = {"op": "used", "t": t, "got": seen(s, x, key.get((t, i), "made"))}
            ev.append((at + x["e"], b))
    ev.sort(key=lambda y: y[0])
    return "ok", ev, r


def run_scripts(scripts, timeout=120):
    """each script: threads of steps; events of each, None when the process died"""
    out = [None] * len(scripts)

    def one(_, item):
        n, threads = item
        p = Proc([harness(), "bls"])
        try:
            p.call({"op": "batch", "cmds": blobs(*ALLB)}, timeout)
            how, ev, _ = run_threads(p, threads, timeout)
            return n, how, [e for _, e in ev]
        finally:
            p.stop()
    for n, how, ev in pool_map(one, list(enumerate(scripts)), [harness(), "bls"]):
        out[n] = (how, ev)
    return out


def judge_caches(ck, name, about, res, script):
    """res: (how it ended, events) of each history; script(n): what to run again"""
    ev, starts, calls = [], {}, 0
    for n, (how, es) in enumerate(res):
        if how != "ok":
            ck.violation("%s: the process ended with %s" % (about, {"stuck": "threads waiting for each other for ever"}.get(how, how)), script(n))
            continue
        ev.append({"op": "begin"})
        starts[len(ev)] = n
        ev += es
        calls += len(es) // 2
    if not ev:
        return
    ev.append({"op": "begin"})
    path = os.path.join(scratch("traces"), "%s-%s.ndjson" % (ck.prop, name))
    write_ndjson(path, ev)
    r = tlc("FfiCacheTrace", "FfiCacheTrace.cfg", env={"TRACE": path})
    done = {x["start"] for x in tagged(r, "DONE")}
    if any(s not in done for s in starts):      # nothing is held against the library because TLC ended early
        again = tlc("FfiCacheTrace", "FfiCacheTrace.cfg", env={"TRACE": path})
        done |= {x["start"] for x in tagged(again, "DONE")}
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.add("traces_validated_against_impl", len(starts))
    ck.add("calls", calls)
    bad = [s for s in starts if s not in done]
    if bad:
        sub, at = [], {}
        for s in bad[:20]:
            at[len(sub) + 1] = s
            sub += [ev[s - 1]] + res[starts[s]][1]
        write_ndjson(path, sub + [{"op": "begin"}])
        far = {}
        for x in tagged(tlc("FfiCacheTrace", "FfiCacheTraceFar.cfg", env={"TRACE": path}), "FAR"):
            far[x["start"]] = max(far.get(x["start"], 0), x["now"])
        for a, s in at.items():
            es = res[starts[s]][1]
            i = far[a] - a - 1
            ck.violation("%s: %s is not an answer the specification allows (call %s)" % (about, json.dumps(es[i]), json.dumps(
                [e for e in es[:i] if e["t"] == es[i]["t"]][-1:])), {"events": es[:i + 1], "script": script(starts[s])})
        for s in bad[20:]:
            ck.violation("%s: another history is not allowed" % about, {"script": script(starts[s])})
    ck.sample({"about": about, "events": res[0][1][:8]})


def play(ck, scripts, name, about):
    judge_caches(ck, name, about, run_scripts(scripts), lambda n: strip(scripts[n]))


def explore(ck, r, kind, plans, name, about):
    """pairs and triples of calls on the instrumented library, stopped where the plans say.
    plans: [(ops of the threads, plan)]; an op is "create", "bad", "use0", "destroy0", "use1", "none".."""
    groups = [plans[i::16] for i in range(16)]
    groups = [g for g in groups if g]
    first, second = {"enc": ("D", "A"), "dec": ("A", "B")}[kind]

    def one(_, item):
        n, todo = item
        p = Proc([harness_sched(), "bls"])
        es, at, did, ended = [], 0, [], "ok"
        live = {}

        def go(threads, plan=None):
            nonlocal at, ended
            did.append({"threads": strip(threads)["threads"], "plan": plan})
            how, ev, res = run_threads(p, threads, 60, plan, at)
            if how != "ok":
                ended = how
                return None
            es.extend(e for _, e in ev)
            at = max([at] + [x for x, _ in ev])
            return res["out"]
        try:
            p.call({"op": "batch", "cmds": blobs(*ALLB)}, 60)
            gone = [9999]
            for m, (ops, plan) in enumerate(todo):
                for i, w in enumerate((first, second)):
                    if i not in live:
                        o = go([[step_create(kind, w)]])
                        if o is None:
                            return n, ended, es, did
                        live[i] = o[0][0]["handle"]
                threads, after = [], []
                for t, op in enumerate(ops):
                    i = int(op[-1]) if op[-1].isdigit() else None
                    w = (first, second)[i] if i is not None else second
                    h = live[i] if i is not None else gone[-1]
                    if op == "create":
                        threads.append([step_create(kind, (first, second)[t % 2])])
                    elif op == "bad":
                        threads.append([step_create(kind, first, False, how=r.randrange(6))])
                    elif op.startswith("destroy") or op == "destroynone":
                        threads.append([step_destroy(kind, h)])
                    elif op == "wrong0":
                        threads.append([step_use(kind, h, r.choice(MISUSE))])
                    else:
                        threads.append([step_use(kind, h, w, "s%d_%d" % (m, t))])
                out = go(threads, plan)
                if out is None:
                    return n, ended, es, did
                for t, op in enumerate(ops):
                    if op.startswith("destroy") and op[-1].isdigit():
                        i = int(op[-1])
                        if i in live:
                            gone.append(live[i])
                            after.append((live.pop(i), first if i == 0 else second))
                    if op == "create" and out[t][0]["rc"] == 0:
                        after.append((out[t][0]["handle"], (first, second)[t % 2]))
                if m % (3 if kind == "dec" else 10) == 0:
                    after += [(live[i], (first, second)[i]) for i in live]
                    if go([[step_use(kind, h, w, "a%d_%d" % (m, j)) for j, (h, w) in enumerate(after)]]) is None:
                        return n, ended, es, did
            return n, ended, es, did
        finally:
            p.stop()
    res, did = [None] * len(groups), {}
    for n, how, es, d in pool_map(one, list(enumerate(groups)), [harness(), "bls"]):
        res[n], did[n] = (how, es), d
    ck.add("schedules_explored", len(plans))
    judge_caches(ck, name, about, res, lambda n: {"runs": did[n][-3:], "before": len(did[n]) - 3})


OPS = ("create", "bad", "use0", "use1", "destroy0", "destroy1", "none", "destroynone", "wrong0")


def plans_of(r, two, three):
    """every pair of calls with the first stopped once anywhere; samples of two stops and of three threads"""
    out = []
    for a in OPS:
        for b in OPS:
            for k in range(0, 19):
                if k == 0 and OPS.index(a) > OPS.index(b):
                    continue
                out.append(([a, b], [[0, k], [1, 99999]]))
    double = [(["create", "create"], [[0, k], [1, j], [0, 99999]]) for k in range(1, 19) for j in range(1, 19)]
    more = []
    for _ in range(two):
        a, b = r.choice(OPS), r.choice(OPS)
        more.append(([a, b], [[0, r.randint(1, 18)], [1, r.randint(1, 18)], [0, r.choice([1, 2, 3, 5, 8, 99])]]))
    for _ in range(three):
        ops = [r.choice(OPS) for _ in range(3)]
        if r.random() < 0.3:
            ops = ["create"] * 3
        more.append((ops, [[r.randrange(3), r.randint(1, 12)] for _ in range(r.randint(2, 7))]))
    return out, double, more


def from_spec(ck, depth, num, r):
    """sequences of GenCache as scripts of one thread"""
    g = tlc("GenCache", "GenCache.cfg", env={"DEPTH": depth})
    ck.add("states", g.distinct)
    ck.add("transitions", g.states)
    seqs = tagged(g, "SEQ")
    seqs.sort(key=json.dumps)
    ck.add("sequences_enumerated", len(seqs))
    if len(seqs) > num:
        seqs = r.sample(seqs, num)
    out = []
    for q in seqs:
        th, n = [], {"enc": 0, "dec": 0}
        for e in q:
            k = e["kind"]
            if e["op"] == "create":
                w = {"A": "A", "B": "C"}[e["what"]]
                if e["good"]:
                    n[k] += 1
                    th.append(step_create(k, w, var="%s%d" % (k, n[k])))
                else:
                    th.append(step_create(k, w, False, how=r.randrange(6)))
                continue
            o = {"enc": "dec", "dec": "enc"}[k]
            h = {"var": "%s%d" % (k if e["h"] <= n[k] else o, e["h"])} if e["h"] else r.choice([-1, -7, 99, 2147483647, -2147483648, 7])
            if e["op"] == "destroy":
                th.append(step_destroy(k, h))
            else:
                w = {"A": "A", "B": "C"}[e["fits"][0]]
                th.append(step_use(k, h, w, "s%d" % len(th)))
        out.append([th])
    return out


def race_create(r, kind, threads, rounds, each=0.0):
    """all threads create at once, again and again"""
    out = []
    for t in range(threads):
        th = []
        for i in range(rounds):
            v = "v%d_%d" % (t, i)
            w = r.choice(sorted(ENC) if kind == "enc" else DEC)
            s = step_create(kind, w, var=v)
            s["bar"] = True
            th.append(s)
            if r.random() < each:
                th.append(step_use(kind, {"var": v}, w, "s%s" % v))
            if r.random() < 0.5:
                th.append(step_destroy(kind, {"var": v}))
                if r.random() < each:
                    th.append(step_use(kind, {"var": v}, w, "t%s" % v))
        out.append(th)
    return out


def mixed(r, threads, steps, misuse=0.15):
    """threads creating, using and destroying each other's handles"""
    out = []
    names = ["v%d_%d" % (t, i) for t in range(threads) for i in range(steps)]
    shared = r.sample(names, min(len(names), 6 + threads))
    for t in range(threads):
        th = []
        mine = [v for v in shared if v.startswith("v%d_" % t)]
        for i in range(steps):
            kind = r.choice(["enc", "dec"])
            x = r.random()
            v = "v%d_%d" % (t, i)
            if v in mine or x < 0.2:
                s = step_create(kind, r.choice(sorted(ENC) if kind == "enc" else DEC), var=v)
            elif x < 0.26:
                s = step_create(kind, "A", False, how=r.randrange(6))
            else:
                h = r.choice(shared) if r.random() < 0.75 else "v%d_%d" % (t, r.randrange(max(1, i)))
                h = {"var": h} if r.random() > 0.05 else r.choice([-1, 12345, -2147483648])
                if x < 0.42:
                    s = step_destroy(kind, h)
                else:
                    fit = misfit(r) if r.random() < misuse else r.choice(DEC if kind == "dec" else sorted(ENC))
                    s = step_use(kind, h, fit, "s" + v)
            if r.random() < 0.15 and t % 2 == 0:
                pass
            th.append(s)
        out.append(th)
    return out


def crowd(r, n, misused=0.3):
    """many handles alive at once, used from the oldest to the newest; calls that fail on handles that stay good"""
    th, live, gone = [], [], []

    def use(v, k, w, tag):
        for _ in range(2 if r.random() < misused else 0):
            th.append(step_use(k, {"var": v}, misfit(r)))
        th.append(step_use(k, {"var": v}, w, "s%s%s" % (tag, v) if tag else None) if tag or k == "dec"
                  else step_use(k, {"var": v}, w, "s%d%s" % (len(th), v)))
    for i in range(n):
        kind = r.choice(["enc", "dec"])
        w = r.choice(sorted(ENC) if kind == "enc" else DEC)
        v = "v%d" % i
        th.append(step_create(kind, w, var=v))
        live.append((v, kind, w))
    for v, k, w in live[:6] + r.sample(live, min(n, 12)) + live[-3:]:
        use(v, k, w, None)
    for i in sorted(r.sample(range(n), min(n, 12)), reverse=True):
        v, k, w = live.pop(i)
        th.append(step_destroy(k, {"var": v}))
        gone.append((v, k, w))
    for v, k, w in r.sample(gone, min(4, len(gone))):
        use(v, k, w, None)
    for i in range(6):
        kind = r.choice(["enc", "dec"])
        w = r.choice(sorted(ENC) if kind == "enc" else DEC)
        th.append(step_create(kind, w, var="w%d" % i))
        live.append(("w%d" % i, kind, w))
    for v, k, w in live[:4] + r.sample(live, min(len(live), 10)) + live[-8:]:
        use(v, k, w, None)
    return [th]


def lifecycles(r, threads, rounds):
    """a handle per thread goes through its life while others die around it"""
    out = []
    for t in range(threads):
        th = []
        for i in range(rounds):
            kind = r.choice(["enc", "dec"])
            v = "v%d_%d" % (t, i)
            w = r.choice(sorted(ENC) if kind == "enc" else DEC)
            th += [step_create(kind, w, var=v)]
            for _ in range(r.randint(1, 3)):
                th.append(step_use(kind, {"var": v}, w if kind == "enc" or r.random() < 0.6 else r.choice(DEC), "s%s_%d" % (v, len(th))))
            if i and r.random() < 0.7:      # its earlier ones, twice
                o = {"var": "v%d_%d" % (t, r.randrange(i))}
                for _ in range(r.randint(1, 2)):
                    th.append(step_destroy(r.choice(["enc", "dec"]), o))
            if r.random() < 0.5:
                o = {"var": "v%d_%d" % (t, r.randrange(i + 1))}
                k = r.choice(["enc", "dec"])
                th.append(step_use(k, o, "A", "x%s_%d" % (v, len(th))))
        out.append(th)
    return out


def wasm_lives(ck, r, count):
    """handles of the WebAssembly module, one call after the other"""
    wasmmod()
    m = material()

    def one(_, n):
        rr = rng("C14", "wasm", n)
        f = Iface()
        es = []
        live = {"enc": {}, "dec": {}}
        gone = []
        try:
            first = {3: 80, 7: 760}.get(n % 8, 0)        # many handles first
            for i in range(first + (50 if first else 30)):
                kind = rr.choice(["enc", "dec"])
                x = rr.random() if i >= first else 0
                if x < 0.3:
                    w = rr.choice(sorted(ENC) if kind == "enc" else DEC)
                    good = rr.random() < 0.8
                    if kind == "enc":
                        b = m[ENC[w][1]]
                        a = f.wasm("create_encryption_cache", hx(m[ENC[w][0]]), hx(b if good else b[:-1]))
                    else:
                        a = f.wasm("create_decryption_cache", hx(m[w] if good else m[w][:-1]))
                    es.append({"op": "create", "t": 0, "kind": kind, "what": w, "good": good})
                    es.append({"op": "created", "t": 0, "res": a["res"], "h": a["out"] if a["res"] == "ok" else 0})
                    if a["res"] == "ok":
                        live[kind][a["out"]] = w
                        gone.append(a["out"])
                    continue
                h = rr.choice(gone + [77, -1]) if rr.random() < 0.9 else 1000
                if x < 0.45:
                    a = f.wasm("destroy_%scryption_cache" % ("en" if kind == "enc" else "de"), h)
                    es.append({"op": "destroy", "t": 0, "kind": kind, "h": h})
                    es.append({"op": "destroyed", "t": 0, "res": a["res"]})
                    continue
                if kind == "enc":
                    bad = rr.random() < 0.2
                    a = f.wasm("encrypt_hybrid_header_using_cache", h, lattrs([A("F", "a" if not bad else rr.choice(["zz", ""]))]), hx(b"u"))
                    fits, got = [] if bad else sorted(ENC), "err" if a["res"] == "err" else a["res"]
                    if a["res"] == "ok":
                        whole = bytes.fromhex(a["out"]["hex"])
                        hd = whole[4 + int.from_bytes(whole[:4], "big"):]
                        op = [k for k in ("A", "C", "D", "R") if f.wasm("decrypt_hybrid_header", hx(m[k]), hx(hd))["res"] == "ok"]
                        got = opened_by(op)
                else:
                    j = rr.choice(DEC)
                    bad = rr.random() < 0.25
                    a = f.wasm("decrypt_hybrid_header_using_cache", h, hx(m[j + ".hdr"][:rr.choice([0, 1, 3, 4, 8, 20, rr.randrange(150)])] if bad else m[j + ".hdr"]))
                    fits, got = [] if bad else [j], "err" if a["res"] == "err" else a["res"]
                    if a["res"] == "ok":
                        got = j if m[j + ".sk"].hex() in a["out"]["hex"] else "wrong"
                es.append({"op": "use", "t": 0, "kind": kind, "h": h, "fits": fits})
                es.append({"op": "used", "t": 0, "got": got})
            return n, es
        finally:
            f.stop()
    judge_caches(ck, "wasm", "WebAssembly handles", [("ok", es) for _, es in pool_map(one, list(range(count)), [harness(), "bls"])],
                 lambda n: {"seed": n})


def c14(ck):
    r = rng("C14")
    ck.assumptions += ["threads of the real code are stopped at their accesses to atomics and statics (every point once, samples of several stops and three threads; sequentially consistent); elsewhere schedules are those the machine produced. The design is explored for every interleaving"]
    for cfg in size(["MCFfiCache.cfg"], ["MCFfiCache.cfg", "MCFfiCache_deep.cfg"]):
        m = tlc("MCFfiCache", cfg)
        ck.add("states", m.distinct)
        ck.add("transitions", m.states)
        ck.add("model_states", m.distinct)
    refuted(ck, "MCFfiCache", ("split", "size"))
    if THOROUGH:
        prove(ck, "FfiCacheProof")
    harness()
    material()
    harness_sched()
    one, double, more = plans_of(r, size(200, 6000), size(200, 6000))
    explore(ck, r, "dec", one, "sched1", "one stop, decryption caches")
    explore(ck, r, "enc", one if THOROUGH else r.sample([x for x in one if not any("use" in o for o in x[0])], 300) + r.sample(one, 150), "sched1e", "one stop, encryption caches")
    for k in ("dec", "enc"):
        explore(ck, r, k, (double if THOROUGH else r.sample(double, 120)) + more[:size(60, len(more))] if k == "enc" else double + more, "sched2" + k, "several stops, " + k)
    play(ck, from_spec(ck, 3, 2000, r), "seq3", "one thread, three calls")
    play(ck, from_spec(ck, size(4, 5), size(300, 12000), r), "seq4", "one thread")
    play(ck, [mixed(r, r.choice([2, 3, 4, 8]), size(16, 30)) for _ in range(size(30, 1500))], "mixed", "threads sharing handles")
    play(ck, [lifecycles(r, r.choice([2, 4, 8]), size(6, 12)) for _ in range(size(16, 600))], "lives", "threads with their own handles")
    play(ck, [crowd(r, n) for n in size([20] * 10 + [70, 140, 300, 600], [20] * 300 + [70, 140, 300, 600, 1100, 2200] * 5)], "crowd", "many handles alive at once")
    play(ck, [race_create(r, k, 8, size(40, 200), 0.1) for k in ("dec", "enc") for _ in range(size(2, 40))], "race", "threads creating and using at once")
    wasm_lives(ck, r, size(16, 200))


c14.level = "model_checking"


# ---------------------------------------------------------------------------
# calls with buffers, and everything that can be wrong with them

OUTS = {"enc_header": ["sk", "hdr"], "enc_header_cache": ["sk", "hdr"], "dec_header": ["sk", "uid", "ad"], "dec_header_cache": ["sk", "uid", "ad"],
        "enc_block": ["out"], "dec_block": ["out"], "master": ["out"], "ukey": ["out"], "rotate": ["out"], "create_enc": [], "create_dec": []}
# required inputs: texts, or bytes with a length
INS = {"enc_header": {"policy": "t", "pk": "b", "attrs": "t"}, "enc_header_cache": {"attrs": "t"},
       "dec_header": {"hdr": "b", "key": "b"}, "dec_header_cache": {"hdr": "b"}, "enc_block": {"key": "b", "data": "b"},
       "dec_block": {"key": "b", "data": "b"}, "master": {"policy": "t"}, "ukey": {"msk": "b", "ap": "t", "policy": "t"},
       "rotate": {"attrs": "t", "policy": "t"}, "create_enc": {"policy": "t", "pk": "b"}, "create_dec": {"key": "b"}}
METAS = [None, {"uid": {"text": ""}, "ad": None}, {"uid": {"text": "u"}, "ad": None}, {"uid": {"fill": 300}, "ad": {"text": "d"}},
         {"uid": {"text": ""}, "ad": {"fill": 70}}, {"uid": {"text": "u"}, "ad": {"fill": 1300}}, {"uid": {"text": "uid"}, "ad": {"text": "data"}}]
BIG = [{"uid": {"fill": 300}, "ad": {"fill": 5000}}, {"uid": {"fill": 65536}, "ad": {"fill": 65536}}, {"uid": {"text": "u"}, "ad": {"fill": 65536}}, {"uid": {"fill": 66000}, "ad": {"fill": 70000}}]
LONG = [4096, 65535, 65536, 70000]
_bufs = {}


def mlen(m, k):
    v = m and m[k]
    return -1 if not v else v["fill"] if "fill" in v else len(v["text"])


def bufs():
    """good calls: [{"fn","in","a" (shape),"want" (contents, if they are determined)}], and the blobs they need"""
    if _bufs:
        return _bufs
    m = material()
    h = [{"op": "load", "kind": "msk", "id": "m0", "from": hx(m["m0.msk"])}, {"op": "load", "kind": "mpk", "id": "m0", "from": hx(m["m0.mpk"])},
         {"op": "policy_load", "p": "p0", "from": hx(m["p0"])}, {"op": "policy_load", "p": "p0r", "from": hx(m["p0r"])}]
    for i, x in enumerate(METAS):
        h.append({"op": "hdr_enc", "p": "p0", "m": "m0", "h": "x%d" % i, "attrs": [A("F", "a")], "meta": x})
    key = bytes(range(32))
    for i, n in enumerate((1, 2, 100, 5000)):
        h.append({"op": "blk_enc", "key": hx(key), "uid": {"text": "u"}, "num": 7, "data": {"fill": n}, "max": 1 << 30, "store": "b%d" % i})
    aps = [attr(A("F", "a")), ["or", attr(A("F", "a")), attr(A("F", "b"))], ["and", attr(A("F", "a")), ["or", attr(A("F", "b")), attr(A("F", "c"))]], ["all"]]
    h += [{"op": "ap_json", "ap": x} for x in aps]
    rots = [["a"], ["b", "b"], ["a", "c", "a"]]
    for i, x in enumerate(rots):
        h.append({"op": "copy_policy", "p": "p0", "q": "q%d" % i})
        h += [{"op": "rotate", "p": "q%d" % i, "attr": A("F", y)} for y in x]
        h.append({"op": "policy_json", "p": "q%d" % i, "store": "q%d" % i})
    # and large ones
    many = ["n%d" % i for i in range(70)]
    spin = ["n%d" % (i % 70) for i in range(200)]
    h += [{"op": "policy", "p": "pb", "max": 300}, {"op": "axis", "p": "pb", "name": "F", "attrs": many, "hier": False},
          {"op": "axis", "p": "pb", "name": "G", "attrs": ["u"], "hier": False}, {"op": "policy_json", "p": "pb", "store": "pb"},
          {"op": "master", "p": "pb", "m": "mb"}, {"op": "ukey", "k": "kb", "p": "pb", "m": "mb", "ap": attr(A("F", "n3"))},
          {"op": "copy_policy", "p": "pb", "q": "pbr"}]
    h += [{"op": "rotate", "p": "pbr", "attr": A("F", y)} for y in spin] + [{"op": "policy_json", "p": "pbr", "store": "pbr"}]
    # policies whose own text is long
    long_names = {n: ["%d" % i + "y" * n for i in range(70)] for n in (100, 1000)}
    for n, ys in long_names.items():
        h += [{"op": "policy", "p": "pl%d" % n, "max": 300}, {"op": "axis", "p": "pl%d" % n, "name": "F", "attrs": ys, "hier": False},
              {"op": "policy_json", "p": "pl%d" % n, "store": "pl%d" % n}, {"op": "copy_policy", "p": "pl%d" % n, "q": "plr%d" % n}]
        h += [{"op": "rotate", "p": "plr%d" % n, "attr": A("F", y)} for y in ys[:3]] + [{"op": "policy_json", "p": "plr%d" % n, "store": "plr%d" % n}]
    h += [{"op": "hdr_enc", "p": "pb", "m": "mb", "h": "xb%d" % i, "attrs": [A("F", y) for y in many], "meta": x} for i, x in enumerate(BIG)]
    h += [{"op": "blk_enc", "key": hx(key), "uid": {"text": "u"}, "num": 7, "data": {"fill": n}, "max": 1 << 30, "store": "bb%d" % i} for i, n in enumerate(LONG)]
    wide = ["and", attr(A("G", "u")), attr(A("F", "n0"))]
    for y in many[1:30]:
        wide = ["or", wide, attr(A("F", y))]
    h.append({"op": "ap_json", "ap": wide})
    get = ["x%d.hdr" % i for i in range(len(METAS))] + ["x%d.key" % i for i in range(len(METAS))] + ["b%d" % i for i in range(4)] + ["q%d" % i for i in range(len(rots))]
    get += ["pb", "pbr"] + [x % n for n in long_names for x in ("pl%d", "plr%d")] + ["xb%d.%s" % (i, k) for i in range(len(BIG)) for k in ("hdr", "key")] + ["bb%d" % i for i in range(len(LONG))]
    h += [{"op": "bytes", "kind": k, "id": i} for k, i in (("msk", "mb"), ("mpk", "mb"), ("key", "kb"))]
    h += [{"op": "bytes", "kind": "blob", "id": n} for n in get]
    get = ["mb.msk", "mb.mpk", "kb"] + get
    rs = run_histories([h], "bls")[0]
    bad = [(c, x) for c, x in zip(h, rs) if x["res"] != "ok"]
    if bad:
        raise ToolError("bufs: %s" % str(bad[:2])[:600])
    b = {n: bytes.fromhex(x["hex"]) for n, x in zip(get, rs[-len(get):])}
    texts = [x["text"] for c, x in zip(h, rs) if c["op"] == "ap_json"]
    good = []
    n_mpk = {p: int.from_bytes(m[k][:4], "big") for p, k in (("p0", "m0.mpk"), ("p1", "m2.mpk"), ("p0r", "m0.mpk"))}
    for n, at in ((1, ["a"]), (2, ["a", "b"]), (3, ["c", "a", "b"])):
        for x in METAS[1:]:
            a = {"n": n, "uid": max(0, mlen(x, "uid")), "ad": mlen(x, "ad")}
            ins = {"attrs": cstr(jattrs([A("F", y) for y in at])), "uid": x["uid"] if mlen(x, "uid") else {"null": True}, "ad": x["ad"] or {"null": True}}
            good.append({"fn": "enc_header", "in": dict(ins, policy={"ref": "p0"}, pk={"ref": "m0.mpk"}), "a": a})
            good.append({"fn": "enc_header_cache", "in": ins, "a": a, "cache": "enc"})
    for i, x in enumerate(METAS):
        a = {"uid": max(0, mlen(x, "uid")), "ad": mlen(x, "ad")}
        for f in ("dec_header", "dec_header_cache"):
            ins = {"hdr": {"ref": "x%d.hdr" % i}}
            if f == "dec_header":
                ins["key"] = {"ref": "A"}
            good.append({"fn": f, "in": ins, "a": a, "cache": "dec" if f != "dec_header" else None,
                         "want": {"sk": b["x%d.key" % i], "uid": fillof(x and x["uid"]), "ad": fillof(x and x["ad"])}})
    for i, n in enumerate((1, 2, 100, 5000)):
        good.append({"fn": "enc_block", "in": {"key": hx(key), "uid": {"text": "u"}, "data": {"fill": n}}, "num": 7, "a": {"n": n}})
        good.append({"fn": "dec_block", "in": {"key": hx(key), "uid": {"text": "u"}, "data": {"ref": "b%d" % i}}, "num": 7, "a": {"n": n},
                     "want": {"out": fillof({"fill": n})}})
    good.append({"fn": "enc_block", "in": {"key": hx(key), "uid": {"null": True}, "data": {"fill": 10}}, "num": 0, "a": {"n": 10}})
    for p in ("p0", "p1", "p0r"):
        good.append({"fn": "master", "in": {"policy": {"ref": p}}, "a": {"n": n_mpk[p]}})
    for i, (rows, cols) in enumerate(((1, 1), (2, 1), (3, 2), (1, 1))):
        if i < 3:
            good.append({"fn": "ukey", "in": {"msk": {"ref": "m0.msk"}, "ap": {"text": texts[i]}, "policy": {"ref": "p0"}}, "a": {"rows": rows, "cols": cols}})
    good.append({"fn": "ukey", "in": {"msk": {"ref": "m0.msk"}, "ap": {"text": texts[0]}, "policy": {"ref": "p0r"}}, "a": {"rows": 2, "cols": 1}})
    for i, x in enumerate(rots):
        good.append({"fn": "rotate", "in": {"attrs": cstr(jattrs([A("F", y) for y in x])), "policy": {"ref": "p0"}}, "a": {"n": len(b["q%d" % i])},
                     "want": {"out": b["q%d" % i]}, "json": True})
    good.append({"fn": "create_enc", "in": {"policy": {"ref": "p0"}, "pk": {"ref": "m0.mpk"}}, "a": {}})
    good.append({"fn": "create_dec", "in": {"key": {"ref": "A"}}, "a": {}})
    large = [{"fn": "enc_header", "in": {"attrs": cstr(jattrs([A("F", y) for y in many])), "uid": x["uid"], "ad": x["ad"], "policy": {"ref": "pb"}, "pk": {"ref": "mb.mpk"}},
              "a": {"n": 70, "uid": mlen(x, "uid"), "ad": mlen(x, "ad")}, "key": "kb"} for x in BIG]
    large += [{"fn": "dec_header", "in": {"hdr": {"ref": "xb%d.hdr" % i}, "key": {"ref": "kb"}}, "a": {"uid": mlen(x, "uid"), "ad": mlen(x, "ad")},
               "want": {"sk": b["xb%d.key" % i], "uid": fillof(x["uid"]), "ad": fillof(x["ad"])}} for i, x in enumerate(BIG)]
    for x in BIG[1:3]:
        large.append({"fn": "enc_header_cache", "in": {"attrs": cstr(jattrs([A("F", "a")])), "uid": x["uid"], "ad": x["ad"]},
                      "a": {"n": 1, "uid": mlen(x, "uid"), "ad": mlen(x, "ad")}, "cache": "enc"})
    for i, n in enumerate(LONG):
        large.append({"fn": "enc_block", "in": {"key": hx(key), "uid": {"text": "u"}, "data": {"fill": n}}, "num": 7, "a": {"n": n}})
        large.append({"fn": "dec_block", "in": {"key": hx(key), "uid": {"text": "u"}, "data": {"ref": "bb%d" % i}}, "num": 7, "a": {"n": n}, "want": {"out": fillof({"fill": n})}})
    large.append({"fn": "master", "in": {"policy": {"ref": "pb"}}, "a": {"n": int.from_bytes(b["mb.mpk"][:4], "big")}})
    large.append({"fn": "ukey", "in": {"msk": {"ref": "mb.msk"}, "ap": {"text": texts[-1]}, "policy": {"ref": "pb"}}, "a": {"rows": 31, "cols": 2}, "opens": "xb0.hdr"})
    large.append({"fn": "rotate", "in": {"attrs": cstr(jattrs([A("F", y) for y in spin])), "policy": {"ref": "pb"}}, "a": {"n": len(b["pbr"])},
                  "want": {"out": b["pbr"]}, "json": True})
    for n, ys in long_names.items():
        large.append({"fn": "rotate", "in": {"attrs": cstr(jattrs([A("F", y) for y in ys[:3]])), "policy": {"ref": "pl%d" % n}},
                      "a": {"n": len(b["plr%d" % n])}, "want": {"out": b["plr%d" % n]}, "json": True})
    _bufs.update(large=large)
    _bufs.update(good=good, blobs=b)
    return _bufs


def fillof(v):
    return b"" if not v else bytes(i * 7 % 251 for i in range(v["fill"])) if "fill" in v else v["text"].encode()


def needs(g):
    """the lengths, for choosing sizes around them (the verdict recomputes them in FfiBuf's terms)"""
    a, f = g["a"], g["fn"]
    if f.startswith("enc_header"):
        data = 4 + a["uid"] + max(0, a["ad"]) if a["uid"] or a["ad"] >= 0 else 0
        return [32, 4 + (4 + 4 * a["n"] + 4 + 48 * a["n"] + 288) + 12 + 4 + data + 16]
    if f.startswith("dec_header"):
        return [32, a["uid"], max(0, a["ad"])]
    if f == "enc_block":
        return [a["n"] + 28]
    if f == "master":
        n = a["n"]
        return [4 + 4 + 32 * n + 32 + 4 + 48 * n + 288]
    if f == "ukey":
        r, c = a["rows"], a["cols"]
        return [4 + 96 * r + 8 + 4 * r + 32 * r * c]
    return [a["n"]] if OUTS[f] else []


def given(g, caps, null=(), nolen=()):
    return [{"cap": c, "null": o in null, "nolen": o in nolen, "opt": o in ("uid", "ad")} for o, c in zip(OUTS[g["fn"]], caps)]


def a_call(g, outs, what="ok", **ch):
    """a command for the harness with its description"""
    c = {"op": "ffi", "fn": g["fn"], "in": dict(g["in"]), "out": {}, "num": g.get("num", 0)}
    if g.get("cache"):
        c["handle"] = {"cache": g["cache"]}
    for o, x in zip(OUTS[g["fn"]], outs):
        c["out"][o] = {"cap": x["cap"], "null": x["null"], "nolen": x["nolen"], "store": "_" + o}
    for k, v in ch.items():
        if k in ("handle", "nohandle"):
            c[k] = v
        else:
            c["in"][k] = v
    return {"cmd": c, "g": g, "outs": outs, "in": what}


def misuses(g):
    """the same call with one thing wrong; what: "void" or "bad" """
    f = g["fn"]
    ns = needs(g)
    big = given(g, [n + 40 for n in ns])
    out = []
    for o in OUTS[f]:
        for kw in ({"null": [o]}, {"nolen": [o]}, {"null": [o], "nolen": [o]}):
            out.append(a_call(g, given(g, [n + 40 for n in ns], **kw)))
        out.append(a_call(g, [dict(x, cap=0) if y == o else x for x, y in zip(big, OUTS[f])]))
    for n, how in INS[f].items():
        v = g["in"][n]
        out.append(a_call(g, big, "void", **{n: {"null": True}}))
        if how == "b":
            out.append(a_call(g, big, "void", **{n: {"null": True, "len": 0}}))
            out.append(a_call(g, big, "void", **{n: {"hex": "", "len": 0}}))
            out.append(a_call(g, big, "void", **{n: dict(v, len=0)}))
            if f != "enc_block" or n != "data":
                out.append(a_call(g, big, "bad", **{n: {"hex": "000102"}}))
                out.append(a_call(g, big, "bad", **{n: {"cat": [v], "to": -1}}))
        else:
            out.append(a_call(g, big, "bad", **{n: {"text": ""}}))
            out.append(a_call(g, big, "bad", **{n: {"hex": "ff22"}}))
            out.append(a_call(g, big, "bad", **{n: {"text": "[{"}}))
            out.append(a_call(g, big, "bad", **{n: {"cat": [v], "to": -1}}))
            if n == "attrs":
                out.append(a_call(g, big, "bad", attrs={"text": "[\"F::zz\"]"}))
                out.append(a_call(g, big, "bad", attrs={"text": "[\"F::z\\u0000z\"]"}))
    if g.get("cache"):
        for h in (-1, 424242):
            out.append(a_call(g, big, "bad", handle=h))
    if f.startswith("create"):
        out.append(a_call(g, big, "void", nohandle=True))
    if f.startswith("dec_header") and g["in"]["hdr"]["ref"] != "x0.hdr":
        out.append(a_call(g, big, "bad", hdr={"cat": [g["in"]["hdr"]], "xor": [[20, 1]]}))
    if f == "dec_header":
        out.append(a_call(g, big, "bad", key={"ref": "B"}))
    if f == "dec_block":
        out.append(a_call(g, big, "bad", data={"cat": [g["in"]["data"]], "xor": [[-1, 1]]}))
    if f == "ukey":
        out.append(a_call(g, big, "bad", ap={"text": g["in"]["ap"]["text"].replace("F::a", "F::zz")}))
        # messages that quote what they refuse, NUL characters and all
        for z in ("z\\u0000z", "\\u0000", "z\\u0000\\u0000", "\\u00e9\\ud83d\\ude00\\n"):
            out.append(a_call(g, big, "bad", ap={"text": "{\"%s\": 1}" % z}))
            out.append(a_call(g, big, "bad", ap={"text": "\"%s\"" % z}))
    return out


def sizes(g, r, count):
    """the same call with all kinds of sizes"""
    ns = needs(g)
    out = []
    opts = [[c for c in sorted({0, 1, n - 1, n, n + 1, n + 3000}) if c >= 0] for n in ns]
    import itertools
    all_ = list(itertools.product(*opts))
    if len(all_) > count:
        all_ = r.sample(all_, count)
    for caps in all_:
        out.append(a_call(g, given(g, caps)))
    if len(ns) == 3:        # optional outputs left away
        for null in ([], ["uid"], ["ad"], ["uid", "ad"]):
            for nolen in ([], ["uid"], ["ad"], ["uid", "ad"]):
                out.append(a_call(g, given(g, [n + 2 for n in ns], null, nolen)))
    return out


def run_calls(calls, chains=0, seed=0):
    """results of the calls; per process one cache of each kind"""
    chunks = [calls[i::24] for i in range(24)]

    def one(_, todo):
        p = Proc([harness(), "bls"])
        out = []

        def begin():
            p.call({"op": "batch", "cmds": blobs("m0.msk", *ALLB) + [{"op": "blob", "id": n, "from": hx(v)} for n, v in bufs()["blobs"].items()]}, 60)
            return {"enc": p.call({"op": "ffi", "fn": "create_enc", "in": {"policy": {"ref": "p0"}, "pk": {"ref": "m0.mpk"}}})["handle"],
                    "dec": p.call({"op": "ffi", "fn": "create_dec", "in": {"key": {"ref": "A"}}})["handle"]}
        try:
            hs = begin()
            for c in todo:
                tries = []
                outs = c["outs"]
                while True:
                    cmd = dict(c["cmd"])
                    if isinstance(cmd.get("handle"), dict):
                        cmd["handle"] = hs[cmd["handle"]["cache"]]
                    cmd["out"] = {o: dict(cmd["out"][o], cap=x["cap"]) for o, x in zip(OUTS[c["g"]["fn"]], outs)}
                    r = p.call(cmd, 60)
                    if r["res"] != "ok":
                        tries.append(r)
                        hs = begin()
                        break
                    tries.append(seen_of(p, c, outs, r, hs))
                    if not c.get("chain") or r["rc"] == 0 or len(tries) > 6:
                        break
                    outs = [dict(x, cap=max(x["cap"], r["out"][o]["len"])) for o, x in zip(OUTS[c["g"]["fn"]], outs)]
                out.append((c, tries))
            return out
        finally:
            p.stop()
    res = [x for ch in pool_map(one, [c for c in chunks if c], [harness(), "bls"]) for x in ch]
    return res


def right(p, c, r, hs):
    """is what was written the result?"""
    g, f = c["g"], c["g"]["fn"]
    want = g.get("want")
    o = r["out"]
    if want:
        for k, v in want.items():
            x = o[k]
            if k in ("uid", "ad") and (x["cap"] == 0 or c["cmd"]["out"][k]["null"] or c["cmd"]["out"][k]["nolen"]):
                continue
            if x.get("hex") is None:
                return False
            if g.get("json"):
                try:
                    if json.loads(bytes.fromhex(x["hex"])) != json.loads(v):
                        return False
                except ValueError:
                    return False
            elif v.hex() != x["hex"]:
                return False
        return True
    big = {"cap": 1 << 18}
    get = lambda fn, **kw: p.call(dict({"op": "ffi", "fn": fn, "in": kw, "num": g.get("num", 0)}, out={n: dict(big) for n in OUTS[fn]}))
    if f.startswith("enc_header"):
        x = get("dec_header", hdr={"ref": "_hdr"}, key={"ref": g.get("key", "A")})
        return x.get("rc") == 0 and x["out"]["sk"]["hex"] == o["sk"]["hex"] and x["out"]["uid"]["hex"] == fillof(c["cmd"]["in"]["uid"] if "null" not in c["cmd"]["in"]["uid"] else None).hex() \
            and x["out"]["ad"]["hex"] == fillof(c["cmd"]["in"]["ad"] if "null" not in c["cmd"]["in"]["ad"] else None).hex()
    if f == "enc_block":
        x = get("dec_block", key=c["cmd"]["in"]["key"], uid=c["cmd"]["in"]["uid"], data={"ref": "_out"})
        return x.get("rc") == 0 and x["out"]["out"]["hex"] == fillof(c["cmd"]["in"]["data"]).hex()
    if f == "master":
        n = int.from_bytes(bytes.fromhex(o["out"]["hex"])[:4], "big")
        x = [p.call({"op": "load", "kind": "msk", "id": "t", "from": {"ref": "_out", "from": 4, "to": 4 + n}}),
             p.call({"op": "load", "kind": "mpk", "id": "t", "from": {"ref": "_out", "from": 4 + n}})]
        return all(y["res"] == "ok" for y in x)
    if f == "ukey":
        x = get("dec_header", hdr={"ref": g.get("opens", "A.hdr")}, key={"ref": "_out"})
        # the keys that need more than F::a do not open it
        return x.get("rc") == (0 if g["a"]["cols"] == 1 or "opens" in g else 1)
    return True


def seen_of(p, c, outs, r, hs):
    s = {"rc": r["rc"], "out": []}
    ok = r["rc"] == 0 and all(r["out"][o].get("len") == n for o, n, x in zip(OUTS[c["g"]["fn"]], needs(c["g"]), outs) if not (x["opt"] and (x["null"] or x["nolen"] or x["cap"] == 0)))
    fine = bool(ok and right(p, c, r, hs))
    for o in OUTS[c["g"]["fn"]]:
        x = r["out"][o]
        s["out"].append({"len": x["len"], "over": x["over"], "touched": x["touched"], "tail": bool(x.get("tail", False)), "right": fine})
    return s


def judge_bufs(ck, name, about, calls):
    res = run_calls(calls)
    ev, src = [], []
    for c, tries in res:
        crash = [t for t in tries if t.get("res")]
        if crash:
            ck.violation("%s: %s ended with %s" % (about, c["g"]["fn"], crash[0]["res"]), {"call": c["cmd"]})
            continue
        e = {"f": c["g"]["fn"], "a": c["g"]["a"], "in": c["in"], "op": "call", "outs": c["outs"], "seen": tries[0]}
        if c.get("chain"):
            outs, cs = c["outs"], []
            for t in tries:
                cs.append({"outs": outs, "seen": t})
                outs = [dict(x, cap=max(x["cap"], y["len"])) for x, y in zip(outs, t["out"])]
            e = {"op": "chain", "f": e["f"], "a": e["a"], "calls": cs}
        ev.append(e)
        src.append(c)
    ck.add("calls", sum(len(t) for _, t in res))
    for i, why in validate_pure(ck, "FfiBufTrace", ev, "%s-%s" % (ck.prop, name)):
        e = ev[i]
        ck.violation("%s: %s with %s answered %s; the specification asks for %s" % (
            about, e["f"], json.dumps({"in": e.get("in"), "outs": e.get("outs") or [x["outs"] for x in e.get("calls", [])]})[:400],
            json.dumps(e.get("seen") or [x["seen"] for x in e.get("calls", [])])[:500], why), {"call": src[i]["cmd"], "event": e})
    if ev:
        ck.sample({"about": about, "event": ev[len(ev) // 2]})


def announced(ck):
    """the size a container announces"""
    b, m = bufs()["blobs"], material()
    calls = []
    for i in range(len(METAS)):
        for cut in (None, 60, 4, 3, 2, 1, 0):
            d = b["x%d.hdr" % i][:cut]
            calls.append(({"data": hx(d)}, len(d), 1))
    for n in (2, 3):
        ct = b["x%d.hdr" % n]
        calls.append(({"data": dict(hx(ct), len=0)}, 0, 1))
    calls.append(({"data": {"null": True}}, 0, 1))
    calls.append(({"data": {"null": True, "len": 40}}, 0, 1))
    for n, f in ((2, ["a", "b"]), (3, ["a", "b", "c"])):
        h = [{"op": "load", "kind": "msk", "id": "m0", "from": hx(m["m0.msk"])}, {"op": "load", "kind": "mpk", "id": "m0", "from": hx(m["m0.mpk"])},
             {"op": "policy_load", "p": "p0", "from": hx(m["p0"])},
             {"op": "hdr_enc", "p": "p0", "m": "m0", "h": "x", "attrs": [A("F", y) for y in f], "meta": None}, {"op": "bytes", "kind": "blob", "id": "x.hdr"}]
        d = bytes.fromhex(run_histories([h], "bls")[0][-1]["hex"])
        for cut in (None, 50, 4):
            calls.append(({"data": hx(d[:cut])}, len(d[:cut]), n))
    p = Proc([harness(), "bls"])
    ev = []
    try:
        for c, n, k in calls:
            p.call({"op": "ffi", "fn": "get_error", "out": {"out": {"cap": 4096}}})
            x = p.call({"op": "ffi", "fn": "hdr_size", "in": c, "err": True})
            if x["res"] != "ok":
                ck.violation("the size of a container of %d bytes: %s" % (n, x["res"]), {"call": c})
                return
            ev.append({"op": "size", "f": "hdr_size", "n": n, "k": k, "rc": x["rc"], "err": bool(x["err"])})
    finally:
        p.stop()
    for i, why in validate_pure(ck, "FfiBufTrace", ev, ck.prop + "-announced"):
        ck.violation("h_get_encrypted_header_size answered %s; the specification asks for %s" % (json.dumps(ev[i]), why), {"call": calls[i][0]})


def c16(ck):
    r = rng("C16")
    for cfg in size(["MCFfiBuf.cfg"], ["MCFfiBuf.cfg", "MCFfiBuf_deep.cfg"]):
        m = tlc("MCFfiBuf", cfg)
        ck.add("states", m.distinct)
        ck.add("transitions", m.states)
        ck.add("model_states", m.distinct)
    refuted(ck, "MCFfiBuf", ("offbyone", "silent", "overrun"))
    harness()
    announced(ck)
    good = bufs()["good"]
    judge_bufs(ck, "misuse", "one thing wrong", [x for g in good for x in misuses(g)])
    judge_bufs(ck, "sizes", "sizes", [x for g in good for x in sizes(g, r, size(14, 250))])
    large = bufs()["large"]
    judge_bufs(ck, "large", "sizes of large outputs", [a_call(g, given(g, [c + d for c in needs(g)])) for g in large for d in (-1, 0, 1, 3000)] +
               [x for g in large for x in sizes(g, r, size(4, 60))])
    chains = []
    for g in good:
        for _ in range(size(6, 60)):
            ns = needs(g)
            x = a_call(g, given(g, [max(1, r.choice([1, n - 1, n, r.randint(1, n + 2)])) for n in ns]))
            x["chain"] = True
            chains.append(x)
    judge_bufs(ck, "chains", "retrying with the reported lengths", [x for x in chains if OUTS[x["g"]["fn"]]])


c16.level = "model_checking"


# ---------------------------------------------------------------------------
# the last error of each thread

GET = {"op": "ffi", "fn": "get_error"}
CAP = 140000        # more than any message
TEXTS = [{"text": ""}, {"text": "x"}, {"text": "a message"}, {"fill": 300}, {"text": "z" * 5000}, {"text": "\u00e9\u20ac\U0001f600" * 5},
         {"text": "%s {} \\ \"quoted\" \n\t"}, {"text": "FFI error: FFI error: twice"}]


def failing():
    """calls that fail, and calls that set an error: [(about, command, text)]"""
    out = []
    for t in TEXTS:
        if "fill" in t:
            t = {"text": "".join(chr(33 + i % 90) for i in range(t["fill"]))}
        out.append(("set_error", {"op": "ffi", "fn": "set_error", "in": {"text": t}}, t["text"].encode().hex()))
    for n in (-1, 0, 424242, 2147483647, -2147483648):
        for g in bufs()["good"]:
            if g.get("cache") and n != 0:
                x = a_call(g, given(g, [k + 40 for k in needs(g)]), handle=n)
                out.append(("%s with an unknown handle" % g["fn"], x["cmd"], str(n).encode().hex()))
    seen_fn = {}
    for g in bufs()["good"]:
        seen_fn[g["fn"]] = seen_fn.get(g["fn"], 0) + 1
        if seen_fn[g["fn"]] > 2:
            continue
        for x in misuses(g):
            out.append(("%s misused" % g["fn"], x["cmd"], ""))
        ns = needs(g)
        for i in range(len(ns)):
            if ns[i] > 1 and not given(g, ns)[i]["opt"]:
                x = a_call(g, given(g, [n - 1 if i == j else n + 40 for j, n in enumerate(ns)]))
                out.append(("%s with too small a buffer" % g["fn"], x["cmd"], ""))
    for n in (8192, 33000, 65535, 65536, 70000):
        t = "".join(chr(33 + i * i % 90) for i in range(n))
        out.append(("set_error with a long message", {"op": "ffi", "fn": "set_error", "in": {"text": {"text": t}}}, t.encode().hex()))
    for g in [next(g for g in bufs()["good"] if g["fn"] == f) for f in ("rotate", "enc_header")]:
        for n in (9000, 66000):
            big = given(g, [k + 40 for k in needs(g)])
            out.append(("%s with a long unknown name" % g["fn"], a_call(g, big, "bad", attrs=cstr(jattrs([A("F", "y" * n)])))["cmd"], ""))
    out.append(("set_error without a message", {"op": "ffi", "fn": "set_error", "in": {"text": {"null": True}}}, ""))
    out.append(("set_error with bytes that are no text", {"op": "ffi", "fn": "set_error", "in": {"text": {"hex": "ff41"}}}, ""))
    out.append(("the size of nothing", {"op": "ffi", "fn": "hdr_size", "in": {"data": {"null": True}}}, ""))
    out.append(("the size of three bytes", {"op": "ffi", "fn": "hdr_size", "in": {"data": {"hex": "000001"}}}, ""))
    return [(a, plain(c), t) for a, c, t in out]


def plain(c):
    c = dict(c)
    if "out" in c:
        c["out"] = {k: {y: z for y, z in v.items() if y != "store"} for k, v in c["out"].items()}
    return c


def succeeding():
    out = [{"op": "ffi", "fn": "overhead"}, {"op": "ffi", "fn": "hdr_size", "in": {"data": {"ref": "x1.hdr"}}},
           {"op": "ffi", "fn": "destroy_enc", "handle": 31337}, {"op": "ffi", "fn": "destroy_dec", "handle": -5}]
    seen_fn = set()
    for g in bufs()["good"]:
        if g["fn"] not in seen_fn:
            seen_fn.add(g["fn"])
            out.append(plain(a_call(g, given(g, [n + 40 for n in needs(g)]))["cmd"]))
    return out


def noreads():
    return [dict(GET, out={"out": {"cap": c, "null": n, "nolen": l}}) for c, n, l in
            ((64, True, False), (64, False, True), (64, True, True), (0, False, False), (0, True, False))]


def failed(c, x):
    """did this call set an error?"""
    if c["fn"] == "set_error":
        return True
    return x["rc"] == 1 if c["fn"] in ("hdr_size", "overhead") else x["rc"] != 0


class Errs:
    """the messages of failing calls, each asked for alone"""

    def __init__(self, ck):
        self.ck = ck
        self.fails, self.oks = failing(), succeeding()
        self.m = [None] * len(self.fails)
        self.bad = []
        ev = []

        def one(_, item):
            todo = item
            p = Proc([harness(), "bls"])
            try:
                self.begin(p)
                out = []
                for n in todo:
                    c = self.fails[n][1]
                    r = p.call({"op": "conc", "threads": [[self.put(p, c), self.read(CAP)]]}, 60)
                    r2 = p.call({"op": "conc", "threads": [[self.put(p, c), self.read(CAP)]]}, 60) if r["res"] == "ok" else r
                    out.append((n, r, r2))
                    if r2["res"] != "ok":
                        self.begin(p)
                return out
            finally:
                p.stop()
        ids = list(range(len(self.fails)))
        src = []
        for part in pool_map(one, [x for x in (ids[i::12] for i in range(12)) if x], [harness(), "bls"]):
            for n, r, r2 in part:
                about, c, want = self.fails[n]
                if r["res"] != "ok" or r2["res"] != "ok":
                    ck.violation("%s ended with %s" % (about, r["res"]), {"call": c})
                    continue
                x, y = r["out"][0]
                if not failed(c, x):
                    continue        # whether it should fail is C16's to say
                got = self.got(y, CAP)
                again = self.got(r2["out"][0][1], CAP)
                ev += [{"op": "begin"}, {"op": "start", "t": 0}, {"op": "fail", "t": 0, "m": got["got"]}, dict(got, t=0)]
                src += [n] * 4
                if want not in got["got"] or (c["fn"] == "set_error" and not got["got"].endswith(want)):
                    ck.violation("%s: the message is %r" % (about, bytes.fromhex(got["got"]).decode("utf-8", "replace")[:200]), {"call": c})
                if got["got"] and got["got"] == again["got"]:
                    self.m[n] = got["got"]
        self.judge("alone", ev, lambda i: "%s, alone" % self.fails[src[i]][0], lambda i: {"call": self.fails[src[i]][1]})
        self.known = [n for n in ids if self.m[n] and len(self.m[n]) < 2 * 7900]
        self.long = [n for n in ids if self.m[n] and len(self.m[n]) >= 2 * 7900]
        self.by_len = sorted(self.known, key=lambda n: len(self.m[n]))
        ck.add("failing_calls", len(self.known) + len(self.long))

    def begin(self, p):
        p.call({"op": "batch", "cmds": blobs("m0.msk", *ALLB) + [{"op": "blob", "id": n, "from": hx(v)} for n, v in bufs()["blobs"].items()]}, 60)
        p.hs = {"enc": p.call({"op": "ffi", "fn": "create_enc", "in": {"policy": {"ref": "p0"}, "pk": {"ref": "m0.mpk"}}})["handle"],
                "dec": p.call({"op": "ffi", "fn": "create_dec", "in": {"key": {"ref": "A"}}})["handle"]}

    def put(self, p, c, **kw):
        c = dict(c, **kw)
        if isinstance(c.get("handle"), dict):
            c["handle"] = p.hs[c["handle"]["cache"]]
        return c

    def read(self, cap):
        return dict(GET, out={"out": {"cap": cap, "raw": True, "hex": False}})

    def got(self, x, cap):
        o = x["out"]["out"]
        raw = o.get("raw", "")
        n = o["len"]
        if x["rc"] != 0 or n < 0 or n >= cap or o["over"]:
            return {"op": "read", "cap": cap, "len": n if x["rc"] == 0 else -1, "got": "", "zero": False}
        return {"op": "read", "cap": cap, "len": n, "got": raw[:2 * n], "zero": raw[2 * n:2 * n + 2] == "00"}

    def events(self, script, out):
        """script: threads of ("fail", n) | ("ok", n) | ("noread", n) | ("read", cap)"""
        es = []
        for t, (th, rs) in enumerate(zip(script, out)):
            for (k, n), x in zip(th, rs):
                if k == "read":
                    es.append((x["s"], dict(self.got(x, n), t=t)))
                elif k == "noread":
                    es.append((x["s"], {"op": "noread" if x["rc"] != 0 else "badread", "t": t}))
                elif k == "fail":
                    if not failed(self.fails[n][1], x):
                        es.append((x["s"], {"op": "ok", "t": t}))
                    else:
                        es.append((x["s"], {"op": "fail", "t": t, "m": self.m[n]}))
                elif failed(self.oks[n], x):
                    break
                else:
                    es.append((x["s"], {"op": "ok", "t": t}))
        es.sort(key=lambda y: y[0])
        return [{"op": "begin"}] + [{"op": "start", "t": t} for t in range(len(script))] + [e for _, e in es]

    def threads(self, p, script, bars=False, order=None):
        out, at = [], 0
        nr = noreads()
        for t, th in enumerate(script):
            st = []
            for k, n in th:
                c = self.read(n) if k == "read" else nr[n] if k == "noread" else self.put(p, self.fails[n][1]) if k == "fail" else self.put(p, self.oks[n])
                c = dict(c)
                if bars:
                    c["bar"] = True
                st.append(c)
            out.append(st)
        if order:
            left = [iter(x) for x in out]
            for i, t in enumerate(order):
                next(left[t])["at"] = i
        return {"op": "conc", "threads": out}

    def judge(self, name, ev, about, replay):
        """about(index of the event) and replay(index) for what is reported"""
        if not ev:
            return
        ck = self.ck
        rej, r = complete("FfiErrTrace", "FfiErrTrace.cfg", ev, "%s-%s" % (ck.prop, name))
        ck.add("states", r.distinct)
        ck.add("transitions", r.states)
        ck.add("traces_validated_against_impl", sum(e["op"] == "begin" for e in ev))
        ck.add("calls", len(ev))
        for x in rej[:30]:
            i = x["line"] - 1
            e, b = ev[i], i
            while ev[b]["op"] != "begin":
                b -= 1
            text = lambda h: bytes.fromhex(h).decode("utf-8", "replace")[:150]
            what = "%r (%s)" % (text(e["got"]), json.dumps({k: e[k] for k in ("len", "cap", "zero")})) if e["op"] == "read" else e["op"]
            spec = x["spec"]
            if e["op"] == "read":
                n, _, h = spec.split(" ", 3)[1:][0], None, spec.rsplit(" ", 1)[-1]
                spec = "%s bytes of %r" % (n, text(h) if len(h) % 2 == 0 and all(c in "0123456789abcdef" for c in h) else h)
            ck.violation("%s: thread %d got %s; the specification asks for %s" % (about(i), e["t"], what, spec),
                         dict(replay(i), events=ev[b:i + 1]))
        if len(rej) > 30:
            ck.violation("%s: %d more" % (about(rej[30]["line"] - 1), len(rej) - 30), {})
        ck.sample({"about": about(0), "events": ev[:8]})

    def play(self, name, about, scripts, bars=False, orders=None, plans=None):
        items = [(n, s, orders[n] if orders else None, plans[n] if plans else None) for n, s in enumerate(scripts)]
        exe = harness_sched() if plans else harness()

        def one(_, todo):
            p = Proc([exe, "bls"])
            out = []
            try:
                self.begin(p)
                for i in range(0, len(todo), 25):
                    cmds = []
                    for n, s, o, pl in todo[i:i + 25]:
                        c = self.threads(p, s, bars, o)
                        if pl is not None:
                            c["plan"] = pl
                        cmds.append(c)
                    r = p.call({"op": "batch", "cmds": cmds}, 300)
                    if r["res"] != "ok":
                        out.append((todo[i][0], r["res"], None))
                        return out
                    out += [(x[0], y["res"], y) for x, y in zip(todo[i:i + 25], r["out"])]
                return out
            finally:
                p.stop()
        ev, src = [], []
        for part in pool_map(one, [x for x in (items[i::16] for i in range(16)) if x], [harness(), "bls"]):
            for n, how, r in part:
                if how != "ok":
                    self.ck.violation("%s: the process ended with %s" % (about, how), {"script": scripts[n]})
                    continue
                e = self.events(scripts[n], r["out"])
                ev += e
                src += [n] * len(e)
        self.judge(name, ev, lambda i: about, lambda i: {"script": self.threads_plain(scripts[src[i]]), "plan": plans[src[i]] if plans else None})

    def threads_plain(self, script):
        return [[(k, self.fails[n][0] if k == "fail" else n) for k, n in th] for th in script]


def from_err(ck, E, r, num):
    """the sequences of MCFfiErr, on two threads in exactly that order"""
    g = tlc("MCFfiErr", "GenErr.cfg")
    ck.add("states", g.distinct)
    ck.add("transitions", g.states)
    seqs = tagged(g, "SEQ")
    seqs.sort(key=json.dumps)
    ck.add("sequences_enumerated", len(seqs))
    if len(seqs) > num:
        seqs = r.sample(seqs, num)
    scripts, orders = [], []
    for q in seqs:
        a, b = sorted(r.sample(E.known, 2), key=lambda n: len(E.m[n]))
        la, lb = len(E.m[a]) // 2, len(E.m[b]) // 2
        mid, top = r.choice([2, la, la + 1, max(2, lb - 1), lb]), r.choice([lb + 1, lb + 2, 6000])
        th = [[], []]
        for e in q:
            k = e["op"]
            n = {"fail": (a, b)[e["m"] == 4], "ok": r.randrange(len(E.oks)), "noread": r.randrange(5), "read": {1: 1, 2: max(2, mid), 3: top}.get(e["m"])}[k]
            th[e["t"] - 1].append((k, n))
        scripts.append(th)
        orders.append([e["t"] - 1 for e in q])
    return scripts, orders


def err_script(E, r, threads, steps):
    out = []
    light = [n for n in E.known if E.fails[n][0].startswith("set_error")]
    for t in range(threads):
        th, last = [], 0
        for _ in range(steps):
            x = r.random()
            if x < 0.45:
                n = r.choice(E.known if r.random() < 0.7 else light)
                last = len(E.m[n]) // 2
                th.append(("fail", n))
            elif x < 0.6:
                th.append(("ok", r.randrange(len(E.oks))))
            elif x < 0.66:
                th.append(("noread", r.randrange(5)))
            else:
                th.append(("read", r.choice([1, 2, max(1, last), last + 1, last + 2, 4096, r.randint(1, last + 3)])))
        th.append(("read", 8000))
        th.append(("read", 8000))
        out.append(th)
    return out


def c15(ck):
    r = rng("C15")
    m = tlc("MCFfiErr", "MCFfiErr.cfg")
    ck.add("states", m.distinct)
    ck.add("transitions", m.states)
    ck.add("model_states", m.distinct)
    refuted(ck, "MCFfiErr", ("global", "first", "keep", "clear"))
    harness()
    E = Errs(ck)
    if len(E.known) < 20:
        if ck.violations:
            return
        raise ToolError("only %d failing calls are known" % len(E.known))
    # every message cut everywhere around its length
    cuts = []
    for n in E.known:
        k = len(E.m[n]) // 2
        th = []
        for c in sorted({1, 2, 3, k // 2 + 1, max(1, k - 1), k, k + 1, k + 2, k + 100}):
            th += [("fail", n), ("read", c), ("read", 8000)]
        cuts.append([th])
    ck.add("long_messages", len(E.long))
    for n in E.long:
        k = len(E.m[n]) // 2
        th = [("fail", n), ("read", CAP), ("read", 100)]
        for c in sorted({100, 4096, 8001, k - 1, k, k + 1, k + 2, k + 1000}):
            th += [("fail", n), ("read", c), ("read", 100)]
        cuts.append([th])
        th = [("fail", n), ("fail", r.choice(E.known)), ("read", CAP), ("fail", r.choice(E.known)), ("fail", n), ("ok", 0), ("read", CAP), ("read", CAP)]
        cuts.append([th])
    E.play("cuts", "messages cut to the buffer", cuts)
    scripts, orders = from_err(ck, E, r, size(3000, 38416))
    E.play("sequences", "two threads in the order of the specification's behaviour", scripts, orders=orders)
    E.play("locked", "threads in lockstep", [err_script(E, r, r.choice([2, 3, 8]), 12) for _ in range(size(60, 600))], bars=True)
    E.play("free", "threads running freely", [err_script(E, r, r.choice([1, 2, 4, 8]), r.choice([10, 60])) for _ in range(size(60, 900))])
    # one call stopped inside another thread's
    few = r.sample(E.known, 3) + [0]
    scripts, plans = [], []
    for a in few:
        for b in few:
            for k in range(0, size(14, 40)):
                scripts.append([[("fail", a), ("read", 4096), ("read", 4096)], [("fail", b), ("read", 4096), ("ok", 0), ("read", 4096)]])
                plans.append([[0, k], [1, r.choice([1, 2, 3, 4, 5, 7, 10, 99999])], [0, r.choice([1, 2, 3, 99999])]])
    E.play("stopped", "a call stopped inside another thread's", scripts, plans=plans)
    ck.add("schedules_explored", len(plans))


c15.level = "model_checking"
