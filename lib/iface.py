"""The library through each of its interfaces: Rust, C (with and without caches), Python,
WebAssembly (with and without caches).  Objects are byte strings held here; every command
says through which interface it goes."""
import itertools

from .core import _built
from .hyb import *

# only the arithmetic needs optimising: this keeps cold builds short
OPT = ["--config", "profile.dev.opt-level=1", "--config", "profile.dev.debug=false",
       "--config", 'profile.dev.package."*".opt-level=0']
for _p in ("cosmian_bls12_381", "ff", "group", "subtle", "keccak", "sha3", "aes", "polyval", "ghash", "ctr", "aes-gcm",
           "generic-array", "rand_hc", "rand_core", "rand_chacha"):
    OPT += ["--config", "profile.dev.package.%s.opt-level=3" % _p]


def _packages():
    return {l.split('"')[1] for l in open(os.path.join(REPO, "Cargo.lock")) if l.startswith("name = ")}


def _opt():
    have, out = _packages(), []
    for a, b in zip(OPT[::2], OPT[1::2]):
        m = re.match(r"profile\.dev\.package\.([a-z].*)\.opt-level", b)
        if not m or m.group(1) in have:
            out += [a, b]
    return out


def _lock():
    if not os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.repo.lock"), os.path.join(REPO, "Cargo.lock"))


def pymod():
    """directory with the Python module built from /repo's current tree"""
    if "py" not in _built:
        _lock()
        t = os.path.join(TARGET, "py")
        cargo(["build", "--lib", "--features", "python", "--offline"] + _opt(), REPO, t)
        d = os.path.join(TARGET, "pymod")
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(t, "debug", "libcosmian_abe_gpsw.so"), os.path.join(d, "cosmian_abe_gpsw.so"))
        _built["py"] = d
    return _built["py"]


def wasmmod():
    if "wasm" not in _built:
        _lock()
        t = os.path.join(TARGET, "wasm")
        cargo(["build", "--lib", "--features", "wasm_bindgen", "--target", "wasm32-unknown-unknown", "--offline"] + _opt(), REPO, t)
        d = os.path.join(TARGET, "wasmmod")
        p = subprocess.run(["wasm-bindgen", "--target", "nodejs", "--out-dir", d,
                            os.path.join(t, "wasm32-unknown-unknown", "debug", "cosmian_abe_gpsw.wasm")],
                           env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if p.returncode != 0:
            raise ToolError("wasm-bindgen: " + p.stdout)
        _built["wasm"] = d
    return _built["wasm"]


def argv(kind):
    if kind == "py":
        return [sys.executable, os.path.join(VERIF, "iface", "pyserver.py"), pymod()]
    if kind == "wasm":
        return ["node", os.path.join(VERIF, "iface", "wasmserver.js"), wasmmod()]
    return [harness(), "bls"]


def expr(f):
    """an access policy as a boolean expression"""
    if f[0] == "attr":
        return "%s::%s" % tuple(f[1])
    return "(%s %s %s)" % (expr(f[1]), "&&" if f[0] == "and" else "||", expr(f[2]))


def jattrs(attrs):
    return json.dumps(["%s::%s" % tuple(a) for a in attrs], ensure_ascii=False)


def lattrs(attrs):
    return ", ".join("%s::%s" % tuple(a) for a in attrs)


def hx(b):
    return {"hex": b.hex()}


def cstr(s):
    return {"text": s} if isinstance(s, str) else hx(s)


BIG = 3 << 16      # more than any header with the longest uid and data used here


class Iface:
    """executes commands; B: byte strings by name"""

    def __init__(self):
        self.procs = {}
        self.B = {}
        self.caches = {}

    def proc(self, kind):
        if kind not in self.procs:
            self.procs[kind] = Proc(argv(kind))
        return self.procs[kind]

    def stop(self):
        for p in self.procs.values():
            p.stop()
        self.procs = {}

    def reset(self):
        self.B, self.caches = {}, {}
        if "rust" in self.procs:
            self.proc("rust").call({"op": "reset"})

    # -- the interfaces ----------------------------------------------------
    def py(self, fn, *args):
        return self.proc("py").call({"fn": fn, "args": list(args)})

    def wasm(self, fn, *args):
        return self.proc("wasm").call({"fn": "webassembly_" + fn, "args": list(args)})

    def c(self, fn, ins, outs=(), **kw):
        """outs: names of output buffers"""
        caps = kw.pop("caps", {})
        cmd = {"op": "ffi", "fn": fn, "in": ins, "err": True,
               "out": {o: {"cap": caps.get(o, BIG), "store": "_" + o} for o in outs}}
        cmd.update(kw)
        rest = [{"op": "bytes", "kind": "blob", "id": "_" + o} for o in outs]
        p = self.proc("rust")
        r = p.call({"op": "batch", "cmds": [cmd] + rest})
        if r["res"] != "ok":
            return r, {}
        r, rest = r["out"][0], r["out"][1:]
        if r["res"] != "ok":
            return r, {}
        if r["rc"] != 0:
            if any(r["out"][o]["over"] for o in r.get("out", {})):
                return {"res": "overrun"}, {}
            return {"res": "err", "msg": r.get("err"), "rc": r["rc"]}, {}
        if any(x["over"] for x in r["out"].values()):
            return {"res": "overrun"}, {}
        got = {}
        for o, b in zip(outs, rest):
            got[o] = bytes.fromhex(b["hex"]) if b["res"] == "ok" else b""
        return {"res": "ok", "handle": r["handle"]}, got

    def rust(self, cmds):
        """a batch of harness commands; the result of the last, or the first that failed"""
        r = self.proc("rust").call({"op": "batch", "cmds": cmds})
        if r["res"] != "ok":
            return r, []
        out = r["out"]
        for c, x in zip(cmds, out):
            if x["res"] == "badcmd" or (x["res"] == "panic" and str(x.get("msg", "")).startswith("harness:")):
                raise ToolError("harness refused %s: %s" % (c, x))
            if x["res"] != "ok":
                return x, out
        return out[-1], out

    # -- commands ------------------------------------------------------------
    def do(self, c):
        try:
            return getattr(self, "op_" + c["op"])(c, c.get("via", "rust"))
        except KeyError as e:
            if any(str(v) == e.args[0] or isinstance(v, str) and e.args[0].startswith(v + ".") for v in c.values()) or c["op"] in ("blk_enc", "blk_dec", "hdr_dec", "msg_dec"):
                return {"res": "skip"}
            raise

    def keep(self, name, r, key="out"):
        if r["res"] == "ok":
            self.B[name] = bytes.fromhex(r[key]["hex"])
        return {k: v for k, v in r.items() if k != "out"}

    def recipe(self, v, hdr_=False):
        """bytes of a harness recipe"""
        return self._bytes(v)

    def _bytes(self, v):
        if v is None:
            return None
        if "cat" in v:
            b = b"".join(self._bytes(x) for x in v["cat"])
        elif "ref" in v:
            b = self.B[v["ref"]]
        elif "hex" in v:
            b = bytes.fromhex(v["hex"])
        elif "fill" in v:
            b = fill_bytes(v["fill"])
        else:
            b = v["text"].encode()

        def pos(p):
            if isinstance(p, str):
                e = 4 + int.from_bytes(b[:4], "big") if len(b) >= 4 else 0
                p = e + (int(p[1:]) if len(p) > 1 else 0)
            elif p < 0:
                p += len(b)
            return min(max(p, 0), len(b))
        lo = 0 if v.get("from") is None else pos(v["from"])
        hi = len(b) if v.get("to") is None else pos(v["to"])
        b = b[lo:max(lo, hi)]
        for p, m in v.get("xor", []):
            i = pos(p)
            if i < len(b):
                b = b[:i] + bytes([b[i] ^ m]) + b[i + 1:]
        return b

    def op_declare(self, c, via):
        """axes: the whole policy at once"""
        if via == "py":
            ax = json.dumps([{"name": a["name"], "attributes": a["attrs"], "hierarchical": a["hier"]} for a in c["axes"]])
            return self.keep(c["p"], self.py("generate_policy", hx(ax.encode()), c["max"]))
        r, out = self.rust([{"op": "policy", "p": "p", "max": c["max"]}]
                           + [dict(a, op="axis", p="p") for a in c["axes"]]
                           + [{"op": "policy_json", "p": "p", "store": "_p"}])
        if r["res"] == "ok":
            self.B[c["p"]] = r["text"].encode()
        return {"res": r["res"]}

    def op_copy_policy(self, c, via):
        self.B[c["q"]] = self.B[c["p"]]
        return {"res": "ok"}

    def op_rotate_all(self, c, via):
        """p: rotated list, stored under q"""
        pol = self.B[c["p"]]
        if via == "py":
            return self.keep(c["q"], self.py("rotate_attributes", hx(jattrs(c["attrs"]).encode()), hx(pol)))
        if via == "wasm":
            r = self.wasm("rotate_attributes", hx(jattrs(c["attrs"]).encode()), hx(pol))
            if r["res"] == "ok":
                self.B[c["q"]] = r["out"].encode()
            return {"res": r["res"], "msg": r.get("msg")}
        if via == "c":
            r, o = self.c("rotate", {"attrs": cstr(jattrs(c["attrs"])), "policy": cstr(pol)}, ["out"])
            if r["res"] == "ok":
                self.B[c["q"]] = o["out"]
            return r
        r, out = self.rust([{"op": "policy_load", "p": "p", "from": hx(pol)}]
                           + [{"op": "rotate", "p": "p", "attr": a} for a in c["attrs"]]
                           + [{"op": "policy_json", "p": "p", "store": "_p"}])
        if r["res"] == "ok":
            self.B[c["q"]] = r["text"].encode()
        return {"res": r["res"]}

    def op_policy_dump(self, c, via):
        r, _ = self.rust([{"op": "policy_load", "p": "p", "from": hx(self.B[c["p"]])}, {"op": "policy_dump", "p": "p"}])
        return r

    def op_master(self, c, via):
        m, pol = c["m"], self.B[c["p"]]
        if via == "py":
            r = self.py("generate_master_keys", hx(pol))
            if r["res"] == "ok":
                for n, x in zip(("msk", "mpk", "mdk"), r["out"]):
                    self.B["%s.%s" % (m, n)] = bytes.fromhex(x["hex"])
            return {"res": r["res"], "msg": r.get("msg")}
        if via in ("c", "wasm"):
            if via == "c":
                r, o = self.c("master", {"policy": cstr(pol)}, ["out"])
                b = o.get("out")
            else:
                r = self.wasm("generate_master_keys", hx(pol))
                b = bytes.fromhex(r["out"]["hex"]) if r["res"] == "ok" else None
            if r["res"] == "ok":
                n = int.from_bytes(b[:4], "big")
                self.B[m + ".msk"], self.B[m + ".mpk"] = b[4:4 + n], b[4 + n:]
            return {"res": r["res"], "msg": r.get("msg")}
        r, out = self.rust([{"op": "policy_load", "p": "p", "from": hx(pol)}, {"op": "master", "m": "m", "p": "p"}]
                           + [{"op": "bytes", "kind": k, "id": "m"} for k in ("msk", "mpk", "mdk")])
        if r["res"] == "ok":
            for k, x in zip(("msk", "mpk", "mdk"), out[2:]):
                self.B["%s.%s" % (m, k)] = bytes.fromhex(x["hex"])
        return {"res": r["res"]}

    def op_ukey(self, c, via):
        pol, msk = self.B[c["p"]], self.B[c["m"] + ".msk"]
        if via == "py":
            return self.keep(c["k"], self.py("generate_user_private_key", hx(msk), expr(c["ap"]), hx(pol)))
        if via == "wasm":
            return self.keep(c["k"], self.wasm("generate_user_private_key", hx(msk), expr(c["ap"]), hx(pol)))
        if via == "c":
            r, _ = self.rust([{"op": "ap_json", "ap": c["ap"]}])
            r, o = self.c("ukey", {"msk": hx(msk), "ap": cstr(r["text"]), "policy": cstr(pol)}, ["out"])
            if r["res"] == "ok":
                self.B[c["k"]] = o["out"]
            return r
        r, _ = self.rust([{"op": "policy_load", "p": "p", "from": hx(pol)}, {"op": "load", "kind": "msk", "id": "m", "from": hx(msk)},
                          {"op": "ukey", "k": "k", "p": "p", "m": "m", "ap": c["ap"]}, {"op": "bytes", "kind": "key", "id": "k"}])
        if r["res"] == "ok":
            self.B[c["k"]] = bytes.fromhex(r["hex"])
        return {"res": r["res"], "msg": r.get("msg")}

    def op_delegate(self, c, via):
        pol, mdk, src = self.B[c["p"]], self.B[c["m"] + ".mdk"], self.B[c["src"]]
        if via == "py":
            return self.keep(c["k"], self.py("generate_delegated_key", hx(mdk), hx(src), expr(c["ap"]), hx(pol)))
        # the harness wants a master private key under the same name only to know it exists
        r, _ = self.rust([{"op": "policy_load", "p": "p", "from": hx(pol)},
                          {"op": "load", "kind": "msk", "id": "m", "from": hx(self.B[c["m"] + ".msk"])},
                          {"op": "load", "kind": "mdk", "id": "m", "from": hx(mdk)},
                          {"op": "load", "kind": "key", "id": "s", "from": hx(src)},
                          {"op": "delegate", "k": "k", "p": "p", "m": "m", "src": "s", "ap": c["ap"]},
                          {"op": "bytes", "kind": "key", "id": "k"}])
        if r["res"] == "ok":
            self.B[c["k"]] = bytes.fromhex(r["hex"])
        return {"res": r["res"], "msg": r.get("msg")}

    def _made(self, c, key, hdr_):
        h = c["h"]
        self.B[h + ".key"], self.B[h + ".hdr"] = key, hdr_
        e = 4 + int.from_bytes(hdr_[:4], "big") if len(hdr_) >= 4 else 0
        return {"res": "ok", "w": key.hex(), "n": len(hdr_), "e": e, "cont": True}

    def cache(self, via, kind, *objs):
        """a cache handle made of these bytes, reused"""
        k = (via, kind) + objs
        if k not in self.caches:
            if via == "c":
                if kind == "enc":
                    r, _ = self.c("create_enc", {"policy": cstr(objs[0]), "pk": hx(objs[1])}, handle=0)
                else:
                    r, _ = self.c("create_dec", {"key": hx(objs[0])}, handle=0)
                h = r.get("handle")
            elif kind == "enc":
                r = self.wasm("create_encryption_cache", hx(objs[0]), hx(objs[1]))
                h = r.get("out")
            else:
                r = self.wasm("create_decryption_cache", hx(objs[0]))
                h = r.get("out")
            if r["res"] != "ok":
                return None, r
            self.caches[k] = h
        return self.caches[k], None

    def op_hdr_enc(self, c, via):
        pol, mpk = self.B[c["p"]], self.B[c["m"] + ".mpk"]
        meta = c["meta"]
        uid = self._bytes(meta["uid"]) if meta else b""
        ad = self._bytes(meta["ad"]) if meta else None
        if via == "py":
            mj = json.dumps({"uid": list(uid), "additional_data": None if ad is None else list(ad)})
            r = self.py("encrypt_hybrid_header", hx(mj.encode()), hx(pol), hx(jattrs(c["attrs"]).encode()), hx(mpk))
            if r["res"] != "ok":
                return r
            return self._made(c, bytes.fromhex(r["out"][0]["hex"]), bytes.fromhex(r["out"][1]["hex"]))
        if via in ("wasm", "wasmc"):
            if via == "wasm":
                r = self.wasm("encrypt_hybrid_header", hx(pol), hx(mpk), lattrs(c["attrs"]), hx(uid))
            else:
                h, r = self.cache("wasm", "enc", pol, mpk)
                if r is None:
                    r = self.wasm("encrypt_hybrid_header_using_cache", h, lattrs(c["attrs"]), hx(uid))
            if r["res"] != "ok":
                return r
            b = bytes.fromhex(r["out"]["hex"])
            n = int.from_bytes(b[:4], "big")
            return self._made(c, b[4:4 + n], b[4 + n:])
        if via in ("c", "cc"):
            ins = {"attrs": cstr(jattrs(c["attrs"])), "uid": hx(uid), "ad": None if ad is None else hx(ad)}
            if via == "c":
                ins.update(policy=cstr(pol), pk=hx(mpk))
                r, o = self.c("enc_header", ins, ["sk", "hdr"])
            else:
                h, r = self.cache("c", "enc", pol, mpk)
                if r is None:
                    r, o = self.c("enc_header_cache", ins, ["sk", "hdr"], handle=h)
            return self._made(c, o["sk"], o["hdr"]) if r["res"] == "ok" else r
        r, out = self.rust([{"op": "policy_load", "p": "p", "from": hx(pol)},
                            {"op": "load", "kind": "msk", "id": "m", "from": hx(self.B[c["m"] + ".msk"])},
                            {"op": "load", "kind": "mpk", "id": "m", "from": hx(mpk)},
                            {"op": "hdr_enc", "h": "h", "p": "p", "m": "m", "attrs": c["attrs"],
                             "meta": None if meta is None else {"uid": hx(uid), "ad": None if ad is None else hx(ad)}},
                            {"op": "bytes", "kind": "blob", "id": "h.key"}, {"op": "bytes", "kind": "blob", "id": "h.hdr"}])
        if r["res"] != "ok":
            return r
        return self._made(c, bytes.fromhex(out[4]["hex"]), bytes.fromhex(out[5]["hex"]))

    def meta_parse(self, b):
        """Metadata bytes -> uid, additional data (the layout of cosmian_crypto_base)"""
        if not b:
            return b"", None
        n = int.from_bytes(b[:4], "big")
        return b[4:4 + n], b[4 + n:] or None

    def op_hdr_dec(self, c, via):
        key, b = self.B[c["k"]], self._bytes(c["from"])
        ok = None
        if via == "py":
            r = self.py("decrypt_hybrid_header", hx(key), hx(b))
            if r["res"] == "ok":
                ok = (bytes.fromhex(r["out"][0]["hex"]),) + self.meta_parse(bytes.fromhex(r["out"][1]["hex"]))
        elif via in ("wasm", "wasmc"):
            if via == "wasm":
                r = self.wasm("decrypt_hybrid_header", hx(key), hx(b))
            else:
                h, r = self.cache("wasm", "dec", key)
                if r is None:
                    r = self.wasm("decrypt_hybrid_header_using_cache", h, hx(b))
            if r["res"] == "ok":
                x = bytes.fromhex(r["out"]["hex"])
                n = int.from_bytes(x[:4], "big")
                ok = (x[4:4 + n],) + self.meta_parse(x[4 + n:])
        elif via in ("c", "cc"):
            if via == "c":
                r, o = self.c("dec_header", {"hdr": hx(b), "key": hx(key)}, ["sk", "uid", "ad"])
            else:
                h, r = self.cache("c", "dec", key)
                if r is None:
                    r, o = self.c("dec_header_cache", {"hdr": hx(b)}, ["sk", "uid", "ad"], handle=h)
            if r["res"] == "ok":
                ok = (o["sk"], o["uid"], o["ad"])
        else:
            r, _ = self.rust([{"op": "load", "kind": "key", "id": "k", "from": hx(key)}, {"op": "hdr_dec", "k": "k", "from": hx(b)}])
            return r
        if ok is None:
            return r
        return {"res": "ok", "w": ok[0].hex(), "uid": ok[1].hex(), "ad": (ok[2] or b"").hex()}

    def op_blk_enc(self, c, via):
        key, uid, data = self._bytes(c["key"]), self._bytes(c["uid"]), self._bytes(c["data"])
        r, b = self.block("encrypt", via, key, uid, c["num"], data, c.get("max"))
        if b is not None:
            self.B[c["store"]] = b
            return {"res": "ok", "n": len(b), "hex": b.hex() if len(b) <= 4096 else ""}
        return r

    def op_blk_dec(self, c, via):
        key, uid, data = self._bytes(c["key"]), self._bytes(c["uid"]), self._bytes(c["data"])
        r, b = self.block("decrypt", via, key, uid, c["num"], data, c.get("max"))
        if b is not None:
            return {"res": "ok", "n": len(b), "hex": b.hex() if len(b) <= 4096 else "",
                    "same": self._bytes(c["cmp"]) == b if "cmp" in c else None}
        return r

    def block(self, what, via, key, uid, num, data, mx):
        if via == "py":
            r = self.py("%s_hybrid_block" % what, hx(key), hx(uid), num, hx(data))
            return r, bytes.fromhex(r["out"]["hex"]) if r["res"] == "ok" else None
        if via == "wasm":
            r = self.wasm("%s_hybrid_block" % what, hx(key), hx(uid), num, hx(data))
            return r, bytes.fromhex(r["out"]["hex"]) if r["res"] == "ok" else None
        if via == "c":
            r, o = self.c("enc_block" if what == "encrypt" else "dec_block",
                          {"key": hx(key), "uid": hx(uid), "data": hx(data)}, ["out"], num=num,
                          caps={"out": max(64, len(data) + 64)})
            return r, o.get("out")
        r, _ = self.rust([{"op": "blk_enc" if what == "encrypt" else "blk_dec", "key": hx(key), "uid": hx(uid), "num": num,
                           "data": hx(data), "max": mx or 1 << 30, "store": "_b"}, {"op": "bytes", "kind": "blob", "id": "_b"}])
        return r, bytes.fromhex(r["hex"]) if r["res"] == "ok" else None

    # complete messages: length of the header, header, block 0
    def op_msg_enc(self, c, via):
        meta = c["meta"]
        uid = self._bytes(meta["uid"])
        ad = self._bytes(meta["ad"])
        data = self._bytes(c["data"])
        if via == "py":
            mj = json.dumps({"uid": list(uid), "additional_data": None if ad is None else list(ad)})
            r = self.py("encrypt", hx(mj.encode()), hx(self.B[c["p"]]), hx(jattrs(c["attrs"]).encode()),
                        hx(self.B[c["m"] + ".mpk"]), hx(data))
            if r["res"] != "ok":
                return r
            b = bytes.fromhex(r["out"]["hex"])
        else:
            h = self.op_hdr_enc(dict(c, h="_h"), via)
            if h["res"] != "ok":
                return h
            bv = {"cc": "c", "wasmc": "wasm"}.get(via, via)
            r, blk = self.block("encrypt", bv, self.B["_h.key"], uid, 0, data, None)
            if blk is None:
                return r
            hd = self.B["_h.hdr"]
            b = len(hd).to_bytes(4, "big") + hd + blk
        self.B[c["c"]] = b
        return {"res": "ok", "n": len(b)}

    def op_msg_dec(self, c, via):
        b = self._bytes(c["from"])
        key = self.B[c["k"]]
        if via == "py":
            r = self.py("decrypt", hx(key), hx(b))
            if r["res"] != "ok":
                return r
            return {"res": "ok", "hex": r["out"]["hex"]}
        # by hand: split at the reported header size, header, block 0
        n = self.size_of(via, b)
        if n["res"] != "ok":
            return n
        if 4 + n["n"] > len(b):
            return {"res": "err", "msg": "short"}
        self.B["_m"] = b[4:4 + n["n"]]
        h = self.op_hdr_dec({"k": c["k"], "from": {"ref": "_m"}}, via)
        if h["res"] != "ok":
            return h
        bv = {"cc": "c", "wasmc": "wasm"}.get(via, via)
        r, d = self.block("decrypt", bv, bytes.fromhex(h["w"]), bytes.fromhex(h["uid"]), 0, b[4 + n["n"]:], None)
        return {"res": "ok", "hex": d.hex()} if d is not None else r

    def size_of(self, via, b):
        if via in ("wasm", "wasmc"):
            r = self.wasm("get_encrypted_header_size", hx(b))
            return {"res": r["res"], "n": r.get("out")}
        if via == "py":
            r = self.py("get_encrypted_header_size", hx(b))
            return {"res": r["res"], "n": r.get("out")}
        if len(b) < 4:
            return {"res": "err"}
        if via in ("c", "cc"):
            r = self.proc("rust").call({"op": "ffi", "fn": "hdr_size", "in": {"data": hx(b)}})
            return {"res": r["res"], "n": r.get("rc")}
        return {"res": "ok", "n": int.from_bytes(b[:4], "big")}

    def op_hdr_size(self, c, via):
        return self.size_of(via, self._bytes(c["from"]))


def run_iface(histories, workers=8):
    """[[command]] -> [[result]] through the interfaces the commands name"""
    vias = {c.get("via", "rust") for h in histories for c in h}
    harness()
    if "py" in vias:
        pymod()
    if vias & {"wasm", "wasmc"}:
        wasmmod()
    res = [None] * len(histories)
    q = queue.Queue()
    for i, h in enumerate(histories):
        q.put((i, h))
    errs = []

    def work():
        f = Iface()
        try:
            while not errs:
                try:
                    i, h = q.get_nowait()
                except queue.Empty:
                    break
                f.reset()
                res[i] = [f.do(c) for c in h]
        except BaseException as e:  # noqa
            errs.append(e)
        finally:
            f.stop()
    ts = [threading.Thread(target=work) for _ in range(min(workers, max(1, len(histories))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res
