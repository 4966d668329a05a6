"""C12 hybrid headers, C13 blocks, C20 encapsulated symmetric keys (Hybrid.tla)."""
from lib.hyb import *
from .access import size, flat_policy, ASSUME
from . import ifaces

LENS = [0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 64, 65, 128, 136, 137, 200, 272, 1000, 4096]


def setting(r, extra=0):
    """a small policy, an authority, some keys; returns commands, PolGen, key names"""
    g = PolGen(r)
    h = g.setup((1, 3), (1, 4), 0.4, slack=2 + extra)
    h += [{"op": "master", "m": "m", "p": "p"}, {"op": "master", "m": "n", "p": "p"}]
    return h, g


def keys_for(r, g, h, count, dels=True):
    ks, fs = [], []
    for i in range(count):
        f = g.formula(4, r.choice([0.3, 0.5, 0.8]))
        h.append({"op": "ukey", "k": "k%d" % i, "p": "p", "m": "m", "ap": f})
        ks.append("k%d" % i)
        fs.append(f)
    h.append({"op": "ukey", "k": "kf", "p": "p", "m": "n", "ap": fs[0]})
    ks.append("kf")
    if dels:
        h.append({"op": "delegate", "k": "kd", "p": "p", "m": "m", "src": "k0", "ap": r.choice([fs[0], ["all"]])})
        ks.append("kd")
    if r.random() < 0.4:
        h.append({"op": "reload", "kind": "key", "id": "k0"})
    return ks, fs


def c20(ck):
    r = rng("C20")
    ck.assumptions = ASSUME + ["two distinct keys agree on 8 bytes with negligible probability"]
    ck.put("rule", "symmetric keys of lengths 0 to %d for random policies, attributes and histories, opened by authorized, unauthorized, foreign and delegated keys at equal, shorter and longer lengths" % size(4096, 100000))
    lens = LENS + size([], [10000, 100000])
    refuted(ck, "MCHybridBad", ("anyone", "shared"))

    def hist(nk, nc):
        h, g = setting(r)
        ks, fs = keys_for(r, g, h, nk)
        c = 0
        made = []
        for f in fs:
            for s in g.near(f)[:nc]:
                n = r.choice(lens)
                h.append(symkey("c%d" % c, s, n, m="m" if r.random() < 0.9 else "n"))
                made.append("c%d" % c)
                for k in r.sample(ks, min(len(ks), 3)):
                    h.append(opensym("c%d" % c, k, n))
                    h.append(opensym(r.choice(made), k, r.choice(lens)))
                    if r.random() < 0.3:
                        h.append(opensym("c%d" % c, k, max(0, n + r.choice([-17, -1, 1, 16]))))
                c += 1
                if r.random() < 0.15:
                    h.append(g.rotate())
                if r.random() < 0.1:
                    h.append({"op": "reload", "kind": r.choice(["mpk", "msk"]), "id": "m"})
        # same attributes again: another key
        h += [symkey("d%d" % i, [g.attrs()[0]], 32) for i in range(3)]
        h.append(symkey("bad", [A("No", "such")], 32))
        h.append(symkey("bad2", [g.attrs()[0], A(g.attrs()[0][0], "none")], 16))
        return h
    check_hybrid(ck, [hist(r.randint(1, 5), 3) for _ in range(size(150, 2000))], "toyl", "C20")
    # every length at which the hash squeezes a new block, opened at every length
    h, g = setting(r)
    h.append({"op": "ukey", "k": "k", "p": "p", "m": "m", "ap": attr(g.attrs()[0])})
    for n in lens:
        h.append(symkey("c%d" % n, [g.attrs()[0]], n))
        h += [opensym("c%d" % n, "k", x) for x in lens]
    check_hybrid(ck, [h], "toyl", "C20l")
    check_hybrid(ck, [hist(r.randint(1, 3), 2) for _ in range(size(6, 80))], "bls", "C20b")


# ---------------------------------------------------------------------------

# the units of MCHybrid's headers and blocks as positions in the real ones
HPOS = [S(0), S(4), None, E(0), E(12), E(16), None, N(0)]
BPOS = [S(0), S(12), None, N(-16), N(0)]


def presentations(ck, broken=()):
    """everything assembled from two slices of three headers or blocks, from the specification"""
    r = tlc("MCHybrid", "MCHybrid.cfg")
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.add("model_states", r.distinct)
    if THOROUGH:
        d = tlc("MCHybrid", "MCHybrid_deep.cfg", timeout=3000)
        ck.add("states", d.distinct)
        ck.add("transitions", d.states)
    refuted(ck, "MCHybridBad", broken)
    return tagged(r, "PRES")


def concrete(rec, names, kind, r, mid, noe=()):
    """a recipe of the model with the real names and positions; noe: headers without metadata"""
    tab = HPOS if kind == "hdr" else BPOS

    def go(x):
        if x[0] == "ref":
            return ref(names[x[1]])
        if x[0] == "cat":
            return cat(*[go(y) for y in x[1]])
        if x[0] == "junk":
            return junk(r.choice([1, 4, 12, 16, 40]))

        def pos(p, src):
            if src in noe and p[1] >= 3:
                return N(0)
            q = tab[p[1]]
            if q is None:
                q = mid[p[1]] if kind == "hdr" else S(13)
            return q
        src = x[1][1]
        if x[0] == "cut":
            return cut(go(x[1]), pos(x[2], src), pos(x[3], src))
        return xor(go(x[1]), pos(x[2], src))
    return go(rec)


METAS = [(b"u", b"ad"), (b"", b"ad"), (b"uid0123456789abc", None), (b"", None), (b"x", b""),
         (b"\x00" * 16, b"\x00"), (bytes(range(40)), bytes(range(200)))]


def metadata(r):
    x = r.random()
    if x < 0.15:
        return None, None
    if x < 0.6:
        return r.choice(METAS)
    n = r.choice([0, 1, 15, 16, 32, 127, 128, 200, 255, 256, 300, 5000])
    k = r.choice([0, 1, 2, 16, 100, 127, 128, 129, 255, 256, 1000, 20000])
    return bytes(r.randrange(256) for _ in range(n)), bytes(r.randrange(256) for _ in range(k))


def tampering(r, pres, per, each_byte, big=True):
    """histories presenting assembled headers; per: recipes in one history"""
    hs = []
    for i in range(0, len(pres), per):
        h, al = flat_policy(3, 0)
        h = list(h)
        a, b, c = al
        h += [{"op": "master", "m": "m", "p": "p"},
              {"op": "ukey", "k": "k1", "p": "p", "m": "m", "ap": ["or", attr(a), attr(c)]},
              {"op": "ukey", "k": "k2", "p": "p", "m": "m", "ap": attr(b)}]
        sizes = [r.choice(METAS) for _ in range(3)]
        at = {"a": [a] + r.sample([c], r.randint(0, 1)), "b": [b] + r.sample([c], r.randint(0, 1)), "c": [a]}
        if c in at["b"]:        # then k1 reads it too
            at["b"] = [b]
        h += [hdr_enc("a", at["a"], *sizes[0]), hdr_enc("b", at["b"], *sizes[1]), hdr_enc("c", at["c"])]
        # a second header k1 reads with metadata of its own
        h.append(hdr_enc("d", [c, a], *sizes[2]))
        for x in pres[i:i + per]:
            names = {"a": "a", "b": r.choice(["b", "d"]), "c": "c"}
            mid = {2: r.choice([S(5), S(8), E(-1), E(-3)]), 6: r.choice([N(-16), N(-1), E(17), E(20)])}
            rec = concrete(x, names, "hdr", r, mid, noe=("c",))
            h.append(hdr_dec(r, "k1", rec))
            if r.random() < 0.3:
                h.append(hdr_dec(r, "k2", rec))
        hs.append(h)
    # every byte of a header altered, every length of it, bytes after it
    for n in range(each_byte):
        h, al = flat_policy(2, 0)
        h = list(h)
        h += [{"op": "master", "m": "m", "p": "p"},
              {"op": "ukey", "k": "k1", "p": "p", "m": "m", "ap": [r.choice(["and", "or"]), attr(al[0]), attr(al[1])]},
              {"op": "ukey", "k": "k2", "p": "p", "m": "m", "ap": attr(al[1])},
              hdr_enc("a", al, b"u%d" % n, b"data"), hdr_enc("b", al, b"v", None), hdr_enc("c", [al[0]], b"w", b"x")]
        for i in range(0, 190):
            h.append(hdr_dec(r, "k1", xor(ref("a"), S(i))))
        for i in range(0, 190, 1):
            h.append(hdr_dec(r, "k1", cut(ref("a"), S(0), S(i))))
        for i in range(1, 30):
            h.append(hdr_dec(r, "k1", cut(ref("a"), S(i), N(0))))
            h.append(hdr_dec(r, "k1", cat(ref("a"), junk(i))))
            h.append(hdr_dec(r, "k1", cat(cut(ref("a"), S(0), E(0)), junk(i))))
        for x in "abc":
            h.append(hdr_dec(r, "k2", ref(x)))
        hs.append(h)
    return hs


def opened(r, count, nk=4, backend="toyl"):
    """headers of random policies, attributes and metadata opened by random keys"""
    hs = []
    for _ in range(count):
        h, g = setting(r)
        ks, fs = keys_for(r, g, h, r.randint(1, nk))
        made = []
        for f in fs:
            for s in g.near(f):
                n = "h%d" % len(made)
                uid, ad = metadata(r)
                h.append(hdr_enc(n, s, uid, ad, m="m" if r.random() < 0.9 else "n"))
                made.append(n)
                for k in r.sample(ks, min(len(ks), 3)):
                    h.append(hdr_dec(r, k, ref(n)))
                    h.append(hdr_dec(r, k, ref(r.choice(made))))
                if r.random() < 0.3:
                    o = r.choice(made)
                    h.append(hdr_dec(r, r.choice(ks), cat(cut(ref(n), S(0), E(0)), cut(ref(o), E(0), N(0)))))
                if r.random() < 0.15:
                    h.append(g.rotate())
        h.append(hdr_enc("bad", [A("No", "such")], b"u", None))
        hs.append(h)
    return hs


def large(r):
    """headers whose uid or associated data is longer than two or three bytes of length can say"""
    hs = []
    for n, k in [(0, 65507), (1, 65535), (3, 65536), (65536, 0), (16, 66000), (70000, 3), (7, 1 << 17), (40, (1 << 20) + 1),
                 ((1 << 20) + 1, 1), (5, (1 << 24) + 9)]:
        h, al = flat_policy(2, 0)
        h = list(h) + [{"op": "master", "m": "m", "p": "p"},
                       {"op": "ukey", "k": "k1", "p": "p", "m": "m", "ap": attr(al[0])},
                       {"op": "ukey", "k": "k2", "p": "p", "m": "m", "ap": attr(al[1])},
                       hdr_enc("a", [al[0]], r.randbytes(n), r.randbytes(k))]
        h += [hdr_dec(r, "k1", ref("a")), hdr_dec(r, "k2", ref("a")),
              hdr_dec(r, "k1", cut(ref("a"), S(0), E(-1))), hdr_dec(r, "k1", cat(ref("a"), junk(1)))]
        if n + k < 1 << 18:
            h += [hdr_dec(r, "k1", cut(ref("a"), S(0), E(-65536))), hdr_dec(r, "k1", xor(ref("a"), E(-r.randint(1, 60000))))]
        hs.append(h)
    return hs


def c12(ck):
    r = rng("C12")
    ck.assumptions = ASSUME + ["AES-GCM is taken to be unforgeable: a blob of pieces not equal to a header's is a different byte string"]
    ck.put("rule", "every header assembled from two slices of three (the specification's recipes), every byte altered, every truncation, trailing bytes, exchanges; random policies and metadata up to 16 MB")
    pres = [x["pres"] for x in presentations(ck, ("anykey", "anyone", "forgiving", "lax", "shared", "swapped"))
            if x["kind"] == "hdr"]
    r.shuffle(pres)
    check_hybrid(ck, tampering(r, pres, 120, size(6, 60)), "toyl", "C12t")
    check_hybrid(ck, opened(r, size(120, 1500)), "toyl", "C12o")
    check_hybrid(ck, large(r), "toyl", "C12l")
    hb = tampering(r, pres[:size(160, len(pres))], 40, 0) + opened(r, size(8, 80), 2)
    # every section boundary of a BLS12-381 header
    h, al = flat_policy(2, 0)
    h = list(h) + [{"op": "master", "m": "m", "p": "p"},
                   {"op": "ukey", "k": "k1", "p": "p", "m": "m", "ap": attr(al[0])},
                   hdr_enc("a", al, b"uid", b"data")]
    for i in list(range(0, 16)) + list(range(16, 900, size(61, 7))):
        h.append(hdr_dec(r, "k1", xor(ref("a"), S(i))))
        h.append(hdr_dec(r, "k1", cut(ref("a"), S(0), S(i))))
    for i in range(0, 64):
        h.append(hdr_dec(r, "k1", xor(ref("a"), E(i))))
    check_hybrid(ck, hb + [h], "bls", "C12b")
    ifaces.part(ck, "C12", [ifaces.headers(r, ifaces.cuts(r, 40)) for _ in range(size(14, 250))])


# ---------------------------------------------------------------------------

NUMS = [0, 1, 2, 255, 256, 65535, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 48, (1 << 63) + 5, (1 << 64) - 1]


def hexkey(r):
    return {"hex": bytes(r.randrange(256) for _ in range(32)).hex()}


def tampered_blocks(r, pres, per, each_byte):
    hs = []
    for i in range(0, len(pres), per):
        k1, k2 = hexkey(r), hexkey(r)
        u = r.choice([b"", b"u", b"\x00" * 8, bytes(range(32))])
        # a plaintext of one size for all, or of different sizes
        d = r.choice([(5, 5, 5), (1, 1, 1), (40, 7, 40), (16, 32, 100)])
        h = [blk_enc("x", k1, u, 1, d[0]), blk_enc("y", k1, u, 2, bytes(d[1])), blk_enc("z", k2, u, 1, d[2])]
        for x in pres[i:i + per]:
            rec = concrete(x, {"x": "x", "y": "y", "z": "z"}, "blk", r, {})
            k, n = r.choice([(k1, 1), (k1, 1), (k1, 2), (k2, 1)])
            h.append(blk_dec(r, rec, k, u, n))
        for rec in (ref("x"), ref("y"), ref("z")):
            for k in (k1, k2):
                for n in (1, 2):
                    for v in (u, u + b"\x00", b"v", u[:-1] if u else b"w"):
                        h.append(blk_dec(r, rec, k, v, n))
        hs.append(h)
    for n in range(each_byte):
        k1 = hexkey(r)
        sz = r.choice([1, 2, 16, 33])
        h = [blk_enc("x", k1, b"u", 7, sz), blk_enc("y", k1, b"u", 7, bytes(r.randrange(256) for _ in range(sz)))]
        for i in range(sz + OVER + 1):
            h.append(blk_dec(r, xor(ref("x"), S(i)), k1, b"u", 7))
            h.append(blk_dec(r, cut(ref("x"), S(0), S(i)), k1, b"u", 7))
            h.append(blk_dec(r, cut(ref("x"), S(i), N(0)), k1, b"u", 7))
            h.append(blk_dec(r, cat(cut(ref("x"), S(0), S(i)), cut(ref("y"), S(i), N(0))), k1, b"u", 7)
                     if i in (0, 12, sz + OVER) else blk_dec(r, cat(ref("x"), junk(i)), k1, b"u", 7))
        hs.append(h)
    return hs


def long_uids(r, sizes):
    """uids far longer than usual, one byte altered, shortened, extended"""
    hs = []
    for n in sizes:
        k, u = hexkey(r), r.randbytes(n)
        h = [blk_enc("x", k, u, 1, 20)]
        at = sorted({0, 1, n // 2, n - 2, n - 1} | {a for a in (31, 32, 63, 64, 127, 128, 255, 256, 65535) if a < n})
        vs = [u, u[:-1], u[1:], u + b"\x00", u + u[-1:], u[::-1], u[:255], u[:256], u[:32], b""]
        vs += [u[:a] + bytes([u[a] ^ r.choice([1, 128])]) + u[a + 1:] for a in at]
        h += [blk_dec(r, ref("x"), k, v, 1, cmp=20) for v in vs]
        hs.append(h)
    return hs


def sizes_blocks(r, count, sizes):
    """the associated data and every size, within and beyond each maximum"""
    hs = []
    for _ in range(count):
        h, made = [], []
        keys = [hexkey(r) for _ in range(2)]
        for i in range(12):
            mx = r.choice([16, 100, 0, 0])
            n = r.choice([0, 1, 2, 15, 16, 17]) if mx == 16 else r.choice([0, 1, 99, 100, 101, 128]) if mx == 100 else r.choice(sizes)
            u = r.choice([b"", b"a", b"ab", b"a" * 16, bytes(8), bytes(7) + b"\x01", bytes(16)])
            num = r.choice(NUMS)
            k = r.choice(keys)
            h.append(blk_enc("b%d" % i, k, u, num, n, mx))
            if 1 <= n <= (mx or 1 << 30):
                made.append(("b%d" % i, k, u, num, n))
            for b, k2, u2, num2, n2 in made[-1:] + r.sample(made, min(2, len(made))):
                h.append(blk_dec(r, ref(b), k2, u2, num2, r.choice([0, 0, 16, 100]), cmp=n2))
                wrong = r.choice(NUMS + [num2 ^ (1 << 32), num2 ^ 1, (num2 + (1 << 32)) % (1 << 64), num2 & 0xffffffff])
                h.append(blk_dec(r, ref(b), r.choice(keys), r.choice([u2, u2 + b"\x00", b"\x00" + u2, u2[1:], b"a"]),
                                 r.choice([num2, wrong]), cmp=n2))
        h.append(blk_dec(r, junk(0), keys[0], b"", 0))
        h.append(blk_dec(r, junk(28), keys[0], b"", 0))
        hs.append(h)
    return hs


def c13(ck):
    r = rng("C13")
    ck.assumptions = ["AES-GCM is taken to be unforgeable", "plaintexts up to %d bytes" % size((1 << 24) + 17, (1 << 28) + 1)]
    ck.put("rule", "every block assembled from two slices of three, every byte altered, every truncation, wrong keys, uids and numbers (2^32 apart, shifted into one another), sizes around each maximum")
    pres = [x["pres"] for x in presentations(ck, ("nonumber", "unbound", "untagged")) if x["kind"] == "blk"]
    r.shuffle(pres)
    hs = tampered_blocks(r, pres, 60, size(20, 200))
    hs += sizes_blocks(r, size(150, 2000), [1, 2, 3, 15, 16, 17, 255, 256, 1000, 4096])
    hs += long_uids(r, size([33, 64, 129, 256, 257, 1000, 65536, 65537], [33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 131073]))
    # keys coming from headers
    for _ in range(size(10, 100)):
        h, al = flat_policy(2, 0)
        h = list(h) + [{"op": "master", "m": "m", "p": "p"}, hdr_enc("a", [al[0]], b"u", None), hdr_enc("b", [al[0]])]
        ka, kb = {"ref": "a.key"}, {"ref": "b.key"}
        h += [blk_enc("x", ka, b"u", 0, 50), blk_enc("y", kb, b"u", 0, 60)]
        h += [blk_dec(r, ref(x), k, b"u", 0) for x in "xy" for k in (ka, kb)]
        hs.append(h)
    check_hybrid(ck, hs, "toyl", "C13")
    big = [[blk_enc("x", hexkey(r), b"u", 3, n), ] for n in size([65535, 65537, (1 << 20) + 1, (1 << 24) + 17], [65535, 65537, (1 << 20) + 1, (1 << 24) + 17, (1 << 26) + 1, (1 << 28) + 1])]
    for h in big:
        k, n = h[0]["key"], h[0]["plain"]
        h += [blk_dec(r, ref("x"), k, b"u", 3, cmp=n), blk_dec(r, ref("x"), k, b"u", 4, cmp=n), blk_dec(r, ref("x"), k, b"u", 3, 100, cmp=n)]
    check_hybrid(ck, big, "toyl", "C13big")
    ifaces.part(ck, "C13", [ifaces.blocks(r) for _ in range(size(30, 500))])


